"""Checks the pinned lexicon against rules that do not come from the repository."""
import json, pathlib, re
from .lex import LEX, norm

UNITS_EN = "zero one two three four five six seven eight nine".split()
TEENS_EN = "ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS_EN = "twenty thirty forty fifty sixty seventy eighty ninety".split()
SC_EN = "thousand million billion trillion quadrillion quintillion sextillion".split()
LATIN_ES = "m b tr cuatr quint sext sept oct non dec undec duodec tredec".split()
ROOT_RU = {"тысяч": 3, "миллион": 6, "миллиард": 9, "триллион": 12, "квадриллион": 15, "квинтиллион": 18, "секстиллион": 21}
STEM = {  # first letters -> value, for ru/uk units .. hundreds
    "ru": [("ноль|нол|нул", 0), ("один|одн", 1), ("дв", 2), ("тр", 3), ("четыр", 4), ("пят", 5), ("шест", 6), ("сем", 7), ("вос", 8), ("девят", 9)],
}


def audit():
    bad = []
    e = LEX["en"]
    exp = {w: i for i, w in enumerate(UNITS_EN)}
    if e["unit"] != exp: bad.append("en unit")
    if e["direct"] != {w: i + 10 for i, w in enumerate(TEENS_EN)}: bad.append("en direct")
    if e["tens"] != {w: 10 * (i + 2) for i, w in enumerate(TENS_EN)}: bad.append("en tens")
    if e["hundreds"] or e["scale"] != {"hundred": 100, **{w: 10 ** (3 * i + 3) for i, w in enumerate(SC_EN)}}: bad.append("en scale")
    s = LEX["es"]["scale"]
    want = {"mil": 1000, "millardo": 10 ** 9, "gúgol": 10 ** 100, "vigintillón": 10 ** 120, "vigintillones": 10 ** 120, "centillón": 10 ** 600}
    for i, r in enumerate(LATIN_ES):
        want[r + "illón"] = want[r + "illones"] = 10 ** (6 * i + 6)
    if s != want: bad.append(("es scale", {k: (s.get(k), want.get(k)) for k in set(s) | set(want) if s.get(k) != want.get(k)}))
    for w, v in LEX["ru"]["scale"].items():
        root = max((r for r in ROOT_RU if w.startswith(r)), key=len, default=None)
        if root is None or 10 ** ROOT_RU[root] != v: bad.append(("ru", w))
    for l in LEX:
        for c, lo, hi, step in (("unit", 0, 9, 1), ("direct", 10, 99, 1), ("tens", 20, 90, 10), ("hundreds", 100, 900, 100)):
            for w, v in LEX[l][c].items():
                if not (lo <= v <= hi and v % step == 0): bad.append((l, c, w, v))
        seen = {}
        for c in ("unit", "direct", "tens", "hundreds", "scale"):
            for w, v in LEX[l][c].items():
                n = norm(w)
                if seen.setdefault(n, (c, v)) != (c, v): bad.append((l, "collision", w))
    return bad
