"""Sampled cases with independently computed expectations, one generator per
property.  They look for violations on the real code; they prove nothing."""
import random
import re
import unicodedata

from spec.automata import incompatible, phrase
from spec.lex import LANGS, LEX, cardinals, norm, number_like, ordinals, skips
from spec.sample import BLANKS, PLAIN, PUNCT, cover, near, originals, plain, recase, respell, walk

from spec.source import fresh_strings, source_sizes, source_strings

from .harness import Case
from .walker import sentences

CARD = {"C01": "en", "C02": "es", "C03": "hi", "C04": "ru", "C05": "uk"}


# ------------------------------------------------------------------ judges


def show(r):
    return f"{r[1]}: {r[2]}" if r[0] == "exc" else repr(r[1])


def is_int(n):
    def j(res):
        if res[0] != ["int", n]:
            return f"expected {n}, got {show(res[0])}"
    return j


def is_str(t, what=""):
    def j(res):
        if res[0] != ["str", t]:
            return f"expected {t!r}, got {show(res[0])}{what}"
    return j


def is_none(res):
    for r in res:
        if r != ["NoneType", None]:
            return f"expected None, got {show(r)}"


def all_equal(res):
    for r in res[1:]:
        if r != res[0]:
            return f"results differ: {show(res[0])} and {show(r)}"


def both(*js):
    def j(res):
        for k, f in js:
            m = f([res[k]])
            if m:
                return m
    return j


def walked(rng, langs, keep=None, casing=0.4, **opts):
    """endless (language, path of the sentence automaton)"""
    gens = {l: sentences(rng, l, casing, **opts) for l in langs}
    while True:
        lang = rng.choice(langs)
        for p in gens[lang]:
            if keep is None or p.visits(keep):
                break
        yield lang, p


def given(base, expected):
    """results [plain, changed]: what changed gives, where the plain form is right"""
    def j(res):
        if res[0] == ["str", base] and res[1] != ["str", expected]:
            return f"expected {expected!r}, got {show(res[1])}"
    return j


# ----------------------------------------------------------------- phrases


def connective(rng, lang, spaced=True):
    """Separator text between two number words."""
    k = rng.random()
    if lang == "en":
        if k < 0.5:
            return " "
        return rng.choice(["-", " and ", " - ", " -", "- ", " AND ", "-and-", "  ", "\n", "\t and\n", " and and ",
                           "\xad ", " \xad", " \xa0", "--", " and - ", " And "])
    if lang == "es":
        if k < 0.5:
            return " "
        return rng.choice([" y ", " Y ", "  ", "\n", "\ty\n", " y y ", "\xad ", " \xa0", " ý "])
    return " " if k < 0.7 else rng.choice(["  ", "\n", "\t", "\r\n", " \xa0 ", "\u2003", "\xad "])


def render(rng, words, lang, free=True, apostrophes=False):
    ws = respell(rng, words, lang)
    if not apostrophes:
        ws = [w.replace("'", "").replace("’", "") if norm(w.replace("'", "").replace("’", "")) in cardinals(lang)
              else w for w in ws]
    t = ws[0]
    for w in ws[1:]:
        t += (connective(rng, lang) if free else " ") + w
    if rng.random() < 0.1 and len(t) > 2:
        i = rng.randrange(1, len(t))
        t = t[:i] + "\xad" + t[i:]
    return t


def tok_ok(w, lang):
    """One token that parse (no apostrophe handling) reads as this word."""
    return lang == "hi" or re.split(r"(\W)", w) == [w]


def for_parse(words, lang):
    return all(any(tok_ok(o, lang) for o in originals(lang)[w]) for w in words)


def render_parse(rng, words, lang, free=True):
    """As render, with spellings that are one token."""
    ws = []
    for w in words:
        os_ = [o for o in originals(lang)[w] if tok_ok(o, lang)]
        ws.append(recase(rng, rng.choice(os_), lang))
    ws = [w if tok_ok(w, lang) else norm(w) for w in ws]
    t = ws[0]
    for w in ws[1:]:
        t += (connective(rng, lang) if free else " ") + w
    return t


def pwalk(rng, lang, **k):
    while True:
        x = walk(rng, lang, **k)
        if for_parse(x[0], lang):
            return x


def quote(rng, t):
    """Apostrophes anywhere: parse_number drops them (language uk)."""
    return t


def cardinals_gen(lang):
    def gen(rng):
        for ws, v, c, n in cover(lang):
            yield Case([("parse_number", (" ".join(ws), lang))], is_int(v), "edge")
        for w, (c, v) in sorted(cardinals(lang).items()):
            for o in originals(lang)[w]:
                yield Case([("parse_number", (o, lang))], is_int(v), "word")
                if lang == "uk" and any(q in o for q in "'’"):
                    for q in ("", "'", "’"):
                        yield Case([("parse_number", (o.replace("’", "'").replace("'", q), lang))], is_int(v), "apostrophe")
        while True:
            ws, v, c, n = walk(rng, lang)
            t = render(rng, ws, lang, rng.random() < 0.5, apostrophes=True)
            if lang == "uk" and rng.random() < 0.3:
                t = t.replace("’", "'").replace("'", rng.choice(["", "'", "’"]))
            pad = rng.choice(["", "", " ", "\n "])
            yield Case([("parse_number", (pad + t + pad, lang))], is_int(v), "phrase")
    return gen


def ordinalise(rng, words, lang="en"):
    back = {}
    for o, c in ordinals().items():
        back.setdefault(c, o)
    if words[-1] not in back:
        return None
    return words[:-1], back[words[-1]]


def ordinals_gen(rng):
    back = {c: o for o, c in ordinals().items()}
    for ws, v, c, n in cover("en"):
        if ws[-1] in back:
            t = " ".join(ws[:-1] + [back[ws[-1]]])
            yield Case([("parse_ordinal", (t, "en")), ("parse", (f"the {t} cow", "en"))],
                       both((0, is_int(v)), (1, is_str(f"the {v} cow"))), "edge")
    paths = walked(rng, ["en"], connectives=True, ordinal=True)
    while True:
        ws, v, c, n = walk(rng, "en")
        k = rng.random()
        if k > 0.85:
            lang, p = next(paths)
            if any(e.tok.label.endswith("th") for e in p.edges):
                yield Case([("parse", (p.text, "en"))], is_str(p.output()), "path")
                continue
        if k < 0.25:
            t = render(rng, ws, "en")
            yield Case([("parse_number", (t, "en")), ("parse_ordinal", (t, "en"))], all_equal, "cardinal")
            continue
        if ws[-1] not in back:
            continue
        o = recase(rng, back[ws[-1]], "en")
        head = render(rng, ws[:-1], "en") + connective(rng, "en") if len(ws) > 1 else ""
        head = head.replace("\xad", "")
        t = head + o
        if k < 0.6:
            yield Case([("parse_ordinal", (t, "en"))], is_int(v), "ordinal")
        else:
            pre = rng.choice(["", "the ", "(", "x, ", "cows and ", "7 ", "I am\n", ". "])
            post = rng.choice(["", " cow", "  cow", ", cow", ".", " 7", " and cow", " - x", "\ncow", "!", " two cows"])
            exp = post.replace("two", "2")
            if pre.endswith("and "):
                pre = "cows & "
            yield Case([("parse", (pre + t + post, "en"))], is_str((pre + str(v) + exp).strip()), "sentence")


SEPS = ["divided by", "over", "by", "/"]


def fractions_gen(rng):
    def side(lang):
        if rng.random() < 0.15:
            s = str(rng.randrange(10 ** rng.randint(1, 12)))
            return s, int(s)
        ws, v, c, n = walk(rng, lang)
        return render(rng, ws, lang), v
    bads = {"en": ["two three", "and two", "two, three", "one over two"], "es": ["dos tres", "y dos", "two"],
            "hi": ["\u0926\u094b \u0924\u0940\u0928", "two"], "ru": ["\u0434\u0432\u0430 \u0442\u0440\u0438", "dos"], "uk": ["\u0434\u0432\u0430 \u0442\u0440\u0438", "one"]}
    for lang in LANGS:
        ws_all = [w for w in sorted(cardinals(lang)) if tok_ok(w, lang)]
        for a in ws_all:
            for sep in SEPS:
                b = rng.choice(ws_all)
                yield Case([("parse_fraction", (f"{a} {sep} {b}", lang))],
                           is_str(f"{cardinals(lang)[a][1]}/{cardinals(lang)[b][1]}"), "words")
    while True:
        if rng.random() < 0.15:  # whatever the two sides are
            lang = rng.choice(LANGS)
            odd = lambda: rng.choice([lambda: anytext(rng, lang, maxlen=4), lambda: plain(rng, lang), lambda: rng.choice(sorted(number_like(lang))),
                                      lambda: render(rng, walk(rng, lang)[0], lang), lambda: rng.choice(SPECIAL),
                                      lambda: " ".join(walk(rng, lang, maxlen=3)[0] + walk(rng, lang, maxlen=2)[0])])()
            l, r, sep = odd(), odd(), rng.choice(SEPS)
            if not any(x in l + "|" + r for x in SEPS):
                def sides(res, l=l, r=r, sep=sep):
                    (ka, va), (kb, vb), f = res[0][:2], res[1][:2], res[2]
                    if {ka, kb} <= {"int", "NoneType"}:
                        want = ["str", f"{va}/{vb}"] if ka == kb == "int" else ["NoneType", None]
                        if f[:2] != want:
                            return f"parse_fraction({l + ' ' + sep + ' ' + r!r}) gave {show(f)}, expected {want[1]!r}"
                yield Case([("parse_number", (l + " ", lang)), ("parse_number", (" " + r, lang)), ("parse_fraction", (f"{l} {sep} {r}", lang))],
                           sides, "any two sides")
                continue
        lang = rng.choice(["en", "en"] + list(LANGS))
        k = rng.random()
        (a, x), (b, y) = side(lang), side(lang)
        sep = rng.choice(SEPS)
        sp = rng.choice([" ", " ", "  ", "\n"])
        if k < 0.7:
            s2 = rng.choice([sp, ""]) if sep == "/" else sp
            yield Case([("parse_fraction", (a + s2 + sep + s2 + b, lang))], is_str(f"{x}/{y}"), "fraction")
        elif k < 0.8:
            t = a
            if rng.random() < 0.6:  # other words between the sides
                t = a + sp + rng.choice([lambda: plain(rng, lang), lambda: rng.choice(PUNCT), lambda: rng.choice(fresh_strings() or source_strings()), lambda: rng.choice(
                    "out of,per,divide by,div,y,and,-,:,÷,⁄,∕,\\,|,sobre,entre,на,बटा,,th,hundred,oveг,into,of,times".split(","))])() + sp + b
            if not any(x in t for x in SEPS):
                yield Case([("parse_fraction", (t, lang))], is_none, "no separator")
        elif k < 0.93:
            bad = rng.choice(["cows", "", " ", a + " cows", "!", "half", "\u00bd", "\u00b2", "3.5", "-1"] + bads[lang])
            l, r = (bad, b) if rng.random() < 0.5 else (a, bad)
            yield Case([("parse_fraction", (f"{l} {sep} {r}", lang))], is_none, "not a number")
        else:
            yield Case([("parse_fraction", (rng.choice(["", " ", "\n", "\t \u2003", "cows", "cows and bulls"]), lang))],
                       is_none, "blank")


# --------------------------------------------------------------- sentences


def gap(rng, lang, edge):
    """A run of plain words / punctuation / blanks; list of (kind, text)."""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4])):
        k = rng.random()
        if lang == "hi":
            if k < 0.8:
                out.append(("P", plain(rng, lang)))
            else:
                out.append(("S", rng.choice([",", "."])) if k < 0.9 else ("P", rng.choice(["-", "!", "(x)", "7", "y"])))
        elif k < 0.6:
            out.append(("P", plain(rng, lang)))
        elif k < 0.75:
            out.append(("S", rng.choice([",", "."])))
        elif k < 0.9:
            p = rng.choice(PUNCT)
            out.append(("P", p if p not in skips(lang) else "!"))
        else:
            out.append(("P", str(rng.randrange(2000))))
    return out


def glue(rng, lang, a, b):
    """Blanks between two items (a, b texts); '' only when they stay apart."""
    if rng.random() < 0.25 and lang != "hi" and (not (a[-1:].isalnum() or a[-1:] == "_") or
                                                   not (b[:1].isalnum() or b[:1] == "_")):
        return ""
    return rng.choice(BLANKS) if rng.random() < 0.3 else " "


def sentence(rng, lang):
    """(text, expected) following the rule of C08."""
    text, exp = "", ""
    state = "gap"  # after a number: 'num'
    sawblank = False
    n = rng.choice([1, 2, 2, 3, 4, 6])
    prev = ""
    for i in range(n):
        if i or rng.random() < 0.7:
            for k, w in gap(rng, lang, i):
                b = glue(rng, lang, prev, w) if prev else rng.choice(["", " "])
                if state == "num" and k == "S" and rng.random() < 0.5 and lang != "hi":
                    b = ""
                text += b + w
                if state == "num":
                    if k == "S":
                        exp += (" " if b.replace("\xad", "") else "") + w
                    else:
                        exp += " " + w
                else:
                    exp += b + w
                state = "gap"
                prev = w
        if i == n - 1 and rng.random() < 0.3:
            break
        if state == "num":
            continue
        ws, v, c, nd = pwalk(rng, lang)
        t = render_parse(rng, ws, lang)
        b = glue(rng, lang, prev, t) if prev else rng.choice(["", " "])
        text += b + t
        exp += b + str(v)
        state, prev = "num", t
    if rng.random() < 0.2:
        text += rng.choice(BLANKS)
        if state != "num":
            exp += " "
    if rng.random() < 0.1:
        i = rng.randrange(len(text) + 1)
        text = text[:i] + "\xad" + text[i:]
    return text, exp.replace("\xad", "").strip()


def glued_ok(text, lang):
    return True


def c08_gen(rng):
    for lang in LANGS:
        for ws, v, c, n in cover(lang):
            if rng.random() < 0.15 and for_parse(ws, lang):
                yield Case([("parse", (f"x1 {' '.join(ws)} x2", lang))], is_str(f"x1 {v} x2"), "edge")
    paths = walked(rng, LANGS, trailing=2)
    while True:
        lang = rng.choice(LANGS)
        if rng.random() < 0.07:
            ws, v, c, n = walk(rng, lang, full=True)
            if for_parse(ws, lang):
                k = rng.choice([1, 1, 40])
                yield Case([("parse", (f"x1 {' '.join(ws)} x2 " * k, lang))], is_str((f"x1 {v} x2 " * k).strip()), "long")
        t, e = sentence(rng, lang)
        yield Case([("parse", (t, lang))], is_str(e), "sentence " + lang)
        lang, p = next(paths)
        yield Case([("parse", (p.text, lang))], is_str(p.output()), "path " + lang)


def tokens(t, lang):
    t = t.replace("\xad", "")
    return re.split(r"(\s+)" if lang == "hi" else r"(\W)", t)


def nonblank(t, lang):
    return [x for x in tokens(t, lang) if norm(x).strip()]


def is_number_word(x, lang):
    return norm(x) in number_like(lang)


def is_skip(x, lang):
    return norm(x) in skips(lang)


ODD = ["²", "½", "٣", "७", "五", "Ⅷ", "①", "𝟗", "İ", "ſ", "K", "ß", "ǅ", "ﬁ", "\u0600", "\U0001F600", "\x00", "\x1f", "\x85",
       "\u2028", "\ufeff", "\u200d", "١٢", "1e5", "0x1", "1_000", "_", "--", "''", "’", "'", "\\", "%s", "{0}", "\ud7ff", "ᾳ"]
COMB = ["\u0301", "\u0300", "\u0308", "ि", "\u20dd"]


def anytext(rng, lang, comb=False, maxlen=14):
    n = rng.choice([0, 1, 2, 3, 5, 8, maxlen])
    out = ""
    words = sorted(number_like(lang))
    cards = sorted(cardinals(lang))
    ords = sorted(ordinals()) if lang == "en" else cards
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            w = recase(rng, rng.choice(originals(lang)[rng.choice(cards)]), lang)
        elif k < 0.38:
            w = recase(rng, rng.choice(ords), lang)
        elif k < 0.42:
            w = rng.choice(words)
        elif k < 0.55:
            w = rng.choice(sorted(skips(lang)) or ["y"])
            w = rng.choice([w, w.upper(), w.capitalize()])
        elif k < 0.7:
            w = plain(rng, lang)
        elif k < 0.78:
            w = rng.choice([",", ".", ",", ".", "-", "/"])
        elif k < 0.86:
            w = rng.choice(PUNCT)
        elif k < 0.9:
            w = rng.choice(["over", "by", "divided by", "/"])
        elif k < 0.95:
            w = rng.choice(ODD + (COMB if comb else []))
        elif k < 0.97:
            w = str(rng.randrange(10 ** rng.randint(1, 9)))
        else:
            w = chr(rng.choice([rng.randrange(0x20, 0x250), rng.randrange(0x370, 0xd7ff), rng.randrange(0x10000, 0x1ffff)]))
            if unicodedata.category(w) in ("Mn", "Me", "Cs") and not comb:
                w = "x"
        out += w
        k = rng.random()
        if k < 0.7:
            out += " "
        elif k < 0.8:
            out += rng.choice(BLANKS)
        elif k < 0.82:
            out += "\xad"
    return out


def longtext(rng, lang, numbers=True):
    """A long text: a long word, many words, blanks or symbols."""
    n = rng.choice([40, 130, 300, 1100, 3000] + [k + d for k in source_sizes() for d in (0, 1)])
    w = [rng.choice([*"xéд7_", plain(rng, lang)]) * n, "x" + rng.choice(BLANKS) * n + "x", (plain(rng, lang) + " ") * n, rng.choice(PUNCT) * n,
         "".join(plain(rng, lang) + rng.choice([" ", "  ", ", ", "-"]) for _ in range(n)), (rng.choice(sorted(skips(lang)) or ["y"]) + " ") * n,
         rng.choice(COMB) * n, "x" + rng.choice(COMB) * n, ", " * n]
    if numbers:
        cards = sorted(cardinals(lang))
        c = rng.choice(cards)
        gap = rng.choice([" ", " ", ", ", " x ", "\n", " " + rng.choice(sorted(skips(lang)) or ["y"]) + " "])
        w += [(c + gap) * n, gap.join(rng.choice(cards) for _ in range(n)), c + " " * n + c, c + " " + rng.choice(w), rng.choice(w) + " " + c,
              gap.join([c] + [rng.choice(sorted(skips(lang)) or ["y"])] * n + [c])]
    t = rng.choice(w)
    if not numbers and any(is_number_word(x, lang) for x in tokens(t, lang)):
        return "cows " * n
    return t


def plaintext(rng, lang):
    """A text without number words."""
    for _ in range(50):
        t = ""
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            k = rng.random()
            if k < 0.5:
                t += plain(rng, lang)
            elif k < 0.6:
                t += rng.choice(sorted(skips(lang)) or ["y"])
            elif k < 0.75:
                t += rng.choice(PUNCT + [",", ".", "-"])
            elif k < 0.9:
                t += rng.choice(ODD + COMB)
            else:
                t += str(rng.randrange(10000))
            t += rng.choice(["", " ", " ", " ", rng.choice(BLANKS), "\xad"])
        if not any(is_number_word(x, lang) for x in tokens(t, lang)):
            return t
    return "cows"


def c09_gen(rng):
    for lang in LANGS:
        for w in PLAIN[lang] + PUNCT + ODD + COMB + sorted(skips(lang)):
            for f in ("{}", "({})", " {} ", "{0} {0}", "x {}, y", "{}."):
                t = f.format(w)
                if not any(is_number_word(x, lang) for x in tokens(t, lang)):
                    yield Case([("parse", (t, lang))], is_str(t.replace("\xad", "").strip()), "word")
        for w in sorted(number_like(lang)):
            for t in (w + "s", "x" + w, w + "2", "_" + w, w + w):
                if norm(t) not in number_like(lang) and tok_ok(t, lang):
                    yield Case([("parse", (t, lang))], is_str(t), "near word")
    paths = walked(rng, LANGS, numbers=False)
    while True:
        lang = rng.choice(LANGS)
        t = plaintext(rng, lang) if rng.random() < 0.96 else longtext(rng, lang, False)
        yield Case([("parse", (t, lang))], is_str(t.replace("\xad", "").strip()), "text")
        lang, p = next(paths)
        yield Case([("parse", (p.text, lang))], is_str(p.output()), "path")


def c10_judge(text, lang):
    toks = nonblank(text, lang)
    num = [is_number_word(x, lang) for x in toks]
    skp = [is_skip(x, lang) for x in toks]

    def beside(order):  # is there a number word before i, across connectives?
        near, last = {}, False
        for i in order:
            near[i] = last
            if not skp[i]:
                last = num[i]
        return near

    before, after = beside(range(len(toks))), beside(range(len(toks) - 1, -1, -1))
    keep = []
    for i, x in enumerate(toks):
        if num[i]:
            continue
        must = not skp[i] or not (before[i] and after[i])
        keep.append((x, must))
    nnum = sum(num)
    # p -> the next word from p on that must be there; p -> {word: its first place from p up to that one}
    nextmust, first, where = {len(keep): len(keep)}, {}, {}
    for p in range(len(keep) - 1, -1, -1):
        nextmust[p] = p if keep[p][1] else nextmust[p + 1]
        where = {} if keep[p][1] else dict(where)  # few connectives: small
        where[keep[p][0]] = p
        first[p] = where

    def judge(res):
        if res[0][0] != "str":
            return f"no text returned: {show(res[0])}"
        out = nonblank(res[0][1], lang)
        # align: out = kept tokens in order, with numerals in between
        i, extra = 0, 0
        # dynamic programming over (position in keep, numerals used)
        states = {0: 0}
        for o in out:
            nxt = {}
            for p, e in states.items():
                # the first match, or the word that must be there (any other match leaves less to match)
                for q in (first.get(p, {}).get(o), nextmust[p]):
                    if q is not None and q < len(keep) and keep[q][0] == o:
                        nxt[q + 1] = min(nxt.get(q + 1, 1 << 30), e)
                if o.isascii() and o.isdigit() and e < nnum:
                    nxt[p] = min(nxt.get(p, 1 << 30), e + 1)
            states = nxt
            if not states:
                return f"unexpected {o!r} in the output {res[0][1]!r}"
        for p in states:
            if not any(m for _, m in keep[p:]):
                return None
        lost = [w for w, m in keep if m]
        return f"a word or symbol was lost (to be kept: {lost}) in the output {res[0][1]!r}"
    return judge


def comb_after_number(t, lang):
    ts = tokens(t, lang)
    return False


def odd_texts(rng, lang, comb=False):
    t = anytext(rng, lang, comb)
    return t


def structured(rng, lang):
    """numbers, several connectives and separators in all interleavings"""
    cards = sorted(cardinals(lang))
    alpha = {"num": lambda: recase(rng, rng.choice(cards), lang), "plain": lambda: plain(rng, lang),
             "skip": lambda: rng.choice(sorted(skips(lang)) or ["y"]), "sep": lambda: rng.choice(",."),
             "sym": lambda: rng.choice("(!)"), "big": lambda: rng.choice([w for w in cards if cardinals(lang)[w][0] == "scale"]),
             "ord": lambda: rng.choice(sorted(ordinals()) if lang == "en" else cards),
             "digit": lambda: rng.choice(["7", "٣", "42"])}
    ks = list(alpha)
    return [alpha[k]() for k in (rng.choice(ks) for _ in range(rng.choice([2, 3, 4, 5, 6, 7])))]


def weave(rng, lang, ws):
    t = ""
    for w in ws:
        if t:
            t += glue(rng, lang, t, w)
        t += w
    return t


def path_texts(rng):
    gens = [walked(rng, LANGS, trailing=True, two=True), walked(rng, LANGS, connectives=True), walked(rng, ["en"], connectives=True, ordinal=True)]
    while True:
        lang, p = next(rng.choice(gens))
        yield lang, p.text


def c10_gen(rng):
    paths = path_texts(rng)
    while True:
        lang = rng.choice(LANGS + ["en", "es"])
        if rng.random() < 0.2:
            lang, t = next(paths)
        elif rng.random() < 0.03:
            t = longtext(rng, lang)
        elif rng.random() < 0.6:
            t = weave(rng, lang, structured(rng, lang))
        else:
            t = anytext(rng, lang)
        yield Case([("parse", (t, lang))], c10_judge(t, lang), "text " + lang)


def c11_judge(lang):
    def j(res):
        if res[0][0] != "str":
            return f"no text returned: {show(res[0])}"
        for x in tokens(res[0][1], lang):
            if is_number_word(x, lang):
                return f"number word {x!r} survives in {res[0][1]!r}"
    return j


class Idem(Case):
    pass


def c11_gen(rng):
    paths = path_texts(rng)
    while True:
        if rng.random() < 0.2:
            lang, t = next(paths)
            yield Case([("parse", (t, lang)), ("parse2", (t, lang))], c11_two(t, lang), "path " + lang)
            continue
        lang = rng.choice(LANGS + ["en", "es"])
        t = weave(rng, lang, structured(rng, lang)) if rng.random() < 0.6 else anytext(rng, lang)
        if rng.random() < 0.03:
            t = longtext(rng, lang)
        yield Case([("parse", (t, lang)), ("parse2", (t, lang))], c11_two(t, lang), "text " + lang)


def c11_two(t, lang):
    a = c11_judge(lang)
    words = set(tokens(t, lang))

    def j(res):
        m = a(res)
        if m:
            return m
        for x in nonblank(res[0][1], lang):
            if x not in words and not (x.isascii() and x.isdecimal()):
                return f"{x!r} in the output {res[0][1]!r} is not a word of the text: something is glued"
        if res[1] != res[0]:
            return f"parsing the output {res[0][1]!r} again gives {show(res[1])}"
    return j


FUNCS = ["parse", "parse_number", "parse_ordinal", "parse_fraction"]


def no_raise(res):
    for r in res:
        if r[0] == "exc":
            return f"raised {r[1]}: {r[2]}"


SPECIAL = ["", " ", "\n", "-", "and", "y", "'", "’", "''", "\xad", "\u0301", ",", ".", ",,", ". .", "/", "over", "by", "divided by", "//",
           "²", "½", "五", "٣", "७", "1_0", "+1", "-1", "1.5", "1e3", "\x00", "\ud7ff", "two\u0301", "and and", "- -", "-,", "and.", "y y",
           "zero zero", "hundred", "thousand thousand", "th", "ieth", "first", "firstfirst", "zeroth", "\u2028", "\x1f\x1e",
           "\u200b", "\ufeff", "two\xadthree", " and ,", "two and", "two - -", "first and", ", and", "and ,", "mil", "y mil y"]


def c12_gen(rng):
    for t in SPECIAL:
        for lang in LANGS + [None]:
            yield Case([(f, (t,) + ((lang,) if lang else ())) for f in FUNCS], no_raise, "special")
    while True:
        lang = rng.choice(LANGS)
        t = anytext(rng, lang, comb=True)
        if rng.random() < 0.3:
            t = weave(rng, lang, structured(rng, lang))
        if rng.random() < 0.05:
            t = longtext(rng, lang)
        a = (t,) if rng.random() < 0.15 else (t, lang)
        yield Case([(f, a) for f in FUNCS], no_raise, "text")


def c13_judge(blank):
    def j(res):
        p, n, o, f = res
        if p[0] != "str" or p[1] != p[1].strip():
            return f"parse returned {show(p)}"
        for x, nm in ((n, "parse_number"), (o, "parse_ordinal")):
            if not (x[0] == "NoneType" or x[0] == "int" and x[1] >= 0):
                return f"{nm} returned {show(x)}"
        if not (f[0] == "NoneType" or f[0] == "str" and re.fullmatch("[0-9]+/[0-9]+", f[1])):
            return f"parse_fraction returned {show(f)}"
        if blank and (p[1] != "" or n[0] != "NoneType" or o[0] != "NoneType" or f[0] != "NoneType"):
            return f"blank text gave {[show(r) for r in res]}"
    return j


def c13_gen(rng):
    for t in SPECIAL:
        for lang in LANGS + [None]:
            yield Case([(f, (t,) + ((lang,) if lang else ())) for f in FUNCS], c13_judge(not t.strip()), "special")
    while True:
        lang = rng.choice(LANGS)
        k = rng.random()
        t = anytext(rng, lang, comb=True) if k < 0.5 else weave(rng, lang, structured(rng, lang))
        if k < 0.1:
            t = "".join(rng.choice(BLANKS) for _ in range(rng.randrange(4)))
        if rng.random() < 0.03:
            t = longtext(rng, lang)
        if 0.9 < k:
            t = t + rng.choice([" over ", "/", " by "]) + rng.choice([anytext(rng, lang, maxlen=4), "two", "7"])
        a = (t,) if rng.random() < 0.15 else (t, lang)
        yield Case([(f, a) for f in FUNCS], c13_judge(not t.strip()), "text")


def foreign(rng, lang, ordinal=False):
    for _ in range(100):
        k = rng.random()
        if k < 0.45:
            w = plain(rng, lang)
        elif k < 0.65:
            w = rng.choice(PUNCT)
        elif k < 0.75:
            w = rng.choice([",", ".", "/", "+"])
        elif k < 0.9:
            w = rng.choice(ODD)
        else:
            w = str(rng.randrange(1000))
        q = w.replace("'", "").replace("’", "").replace("\xad", "")
        ts = nonblank(q, lang)
        if ts and not any(is_number_word(x, lang) or is_skip(x, lang) for x in ts) and not any(
                is_number_word(x, lang) for x in nonblank(w, lang)):
            return w
    return "cows"


def insert_word(rng, text, words_pos, w):
    return text


def c14_gen(rng):
    for lang in LANGS:
        for s in sorted(skips(lang)):
            for f in ("{}", "{} {}", " {}", "{} two", "{0}{0}"):
                t = f.format(s, s)
                yield Case([("parse_number", (t, lang))], is_none, "connective only")
        for t in ("'", "’", "''", "' ’", "\xad", " \xad\t\xad", "\u0301", "\u0308 \u0301", "\xad'"):
            for f in ("parse_number", "parse_ordinal")[:1 if "'" in t or "’" in t else 2]:
                yield Case([(f, (t, lang))], is_none, "no number word")
    while True:
        lang = rng.choice(LANGS)
        ws = walk(rng, lang, maxlen=rng.choice([1, 2, 3, 5]))[0]
        k = rng.random()
        ordi = False
        toks = [recase(rng, rng.choice(originals(lang)[w]), lang) for w in ws]
        if lang != "hi":
            toks = [x.replace("'", "").replace("’", "") for x in toks]
        if lang in ("en", "es") and rng.random() < 0.3:
            toks.insert(rng.randint(1, len(toks)), rng.choice(sorted(skips(lang))))
        if k < 0.8 or lang not in ("en", "es"):
            toks.insert(rng.randrange(len(toks) + 1), foreign(rng, lang))
            kind = "foreign"
        else:
            toks.insert(0, rng.choice(sorted(skips(lang))))
            kind = "leading connective"
        t = ""
        for x in toks:
            t += (glue(rng, lang, t, x) if t else "") + x
        if t.strip().isdecimal():
            continue
        calls = [("parse_number", (t, lang))]
        if not any(q in t for q in "'’"):
            calls.append(("parse_ordinal", (t, lang)))
        yield Case(calls, is_none, kind)


def two_phrases(rng, lang):
    for _ in range(200):
        a, va, ca, na = pwalk(rng, lang, maxlen=rng.choice([1, 2, 3, 4, 6, 9]))
        cls = rng.choice(["unit", "direct", "tens", "hundreds"])
        if not incompatible(lang, ca, cls):
            continue
        if not any(e.cls == cls for e in phrase(lang).out["S"]):
            continue
        b, vb, cb, nb = pwalk(rng, lang, maxlen=rng.choice([1, 2, 3, 4, 6]), must_start=cls)
        if not b:
            continue
        first = cardinals(lang)[b[0]]
        if first[0] != cls:
            continue
        # zero is a phrase on its own
        return a, va, b, vb
    return None


def c15_gen(rng):
    paths = walked(rng, LANGS, keep=lambda q: "|" in q, connectives=True, trailing=True, two=True)
    while True:
        lang, p = next(paths)
        yield Case([("parse", (p.text, lang))], is_str(p.output()), "path " + lang)
        lang = rng.choice(LANGS)
        x = two_phrases(rng, lang)
        if x is None:
            continue
        a, va, b, vb = x
        k = rng.choice(["", "", "s"]) if skips(lang) else ""
        mid = rng.choice(sorted(s for s in skips(lang) if s.isalpha())) if k else None
        ta, tb = render_parse(rng, a, lang), render_parse(rng, b, lang)
        t = ta + (f" {mid} " if mid else " ") + tb
        e = f"{va} {mid + ' ' if mid else ''}{vb}"
        yield Case([("parse_number", (t, lang)), ("parse", (t, lang)), ("parse", (f"x1 {t} x2", lang))],
                   both((0, is_none), (1, is_str(e)), (2, is_str(f"x1 {e} x2"))), lang)


def c16_gen(rng):
    paths = walked(rng, ["en", "es"], keep=lambda q: q[-1] == "+", connectives=True)
    while True:
        lang, p = next(paths)
        yield Case([("parse", ("".join(p.plain()), lang)), ("parse", (p.text, lang))], given(p.output(), p.output()), "path " + lang)
        lang = rng.choice(["en", "es"]) if rng.random() < 0.8 else rng.choice(LANGS)
        if rng.random() < 0.07:
            ws, v, c, n = walk(rng, lang, full=True)
            sk = sorted(s for s in skips(lang) if s.isalpha())
            m = rng.choice([0, 1, 3, 10, 40])
            gap = lambda: (" " + " ".join(rng.choice(sk) for _ in range(rng.randrange(m + 1))) + " ") if sk and m else rng.choice([" ", " " * 30])
            if for_parse(ws, lang):
                t = "".join(w + gap() for w in ws[:-1]) + ws[-1]
                yield Case([("parse_number", (t, lang)), ("parse", (f"x1 {t} x2", lang))], both((0, is_int(v)), (1, is_str(f"x1 {v} x2"))), "long")
        ws, v, c, n = pwalk(rng, lang)
        t1, t2 = render_parse(rng, ws, lang), render_parse(rng, ws, lang)
        yield Case([("parse_number", (t1, lang)), ("parse_number", (t2, lang)), ("parse", (f"x1 {t1} x2", lang))],
                   both((0, is_int(v)), (1, is_int(v)), (2, is_str(f"x1 {v} x2"))), lang)


def c17_gen(rng):
    for lang in LANGS:
        for w in sorted(cardinals(lang)):
            for o in originals(lang)[w]:
                for f in (o.upper(), o.capitalize(), o.swapcase(), o[:-1] + o[-1].upper(), norm(o), norm(o).upper()):
                    if norm(f) == norm(o):
                        yield Case([("parse_number", (f, lang))], is_int(cardinals(lang)[w][1]), "word")
    for o, c in sorted(ordinals().items()):
        for f in (o.upper(), o.capitalize(), o.swapcase(), o[:-1] + o[-1].upper()):
            yield Case([("parse_ordinal", (f, "en")), ("parse", (f"a {f} b", "en"))],
                       both((0, is_int(cardinals("en")[c][1])), (1, is_str(f"a {cardinals('en')[c][1]} b"))), "ordinal")
    gens = [walked(rng, LANGS, casing=0, **o) for o in (dict(connectives=True), dict(trailing=True), dict(connectives=True, ordinal=True),
                                                        dict(trailing=True, two=True))]
    while True:
        lang, p = next(rng.choice(gens))
        ts = p.respelt(rng)
        yield Case([("parse", (p.text, lang)), ("parse", ("".join(ts), lang))], given(p.output(), p.output(ts)), "path " + lang)
        lang = rng.choice(LANGS)
        ws = pwalk(rng, lang)[0]
        if lang == "en" and rng.random() < 0.3:
            back = {c: o for o, c in ordinals().items()}
            ws = ws[:-1] + [back.get(ws[-1], ws[-1])]
        sk = sorted(s for s in skips(lang) if s.isalpha())
        out, ref = [], []
        for i, w in enumerate(ws):
            if i and sk and rng.random() < 0.3:
                s = rng.choice(sk)
                ref.append(s)
                out.append(rng.choice([s.upper(), s.capitalize(), s]))
            o = rng.choice([x for x in originals(lang).get(w, [w]) if tok_ok(x, lang)])
            ref.append(o)
            r = recase(rng, o, lang) if rng.random() < 0.7 else o.upper()
            out.append(r if norm(r) == norm(o) and tok_ok(r, lang) else o)
        a, b = " ".join(ref), " ".join(out)
        j = rng.random()
        for f in ("parse_number", "parse_ordinal"):
            yield Case([(f, (a, lang)), (f, (b, lang))], all_equal, "phrase")
        yield Case([("parse", (f"x1 {a} x2", lang)), ("parse", (f"x1 {b} x2", lang))], all_equal, "sentence")


DIGITS = [chr(c) for c in range(0x110000) if unicodedata.category(chr(c)) == "Nd"]
ZEROS = [c for c in DIGITS if unicodedata.decimal(c) == 0]


def numeral(rng):
    n = rng.choice([1, 1, 2, 3, 5, 9, 20, 60, 300, rng.choice([1000, 4000])])
    if rng.random() < 0.1:
        return "".join(rng.choice(DIGITS) for _ in range(n))
    z = ord(rng.choice(ZEROS)) if rng.random() < 0.6 else 48
    return "".join(chr(z + rng.randrange(10)) for _ in range(n))


def c18_gen(rng):
    for d in DIGITS:
        v = unicodedata.decimal(d)
        yield Case([("parse_number", (d, "en")), ("parse_ordinal", (d, "ru")), ("parse_number", (d,))],
                   both((0, is_int(v)), (1, is_int(v)), (2, is_int(v))), "digit")
    while True:
        t = numeral(rng)
        v = int("".join(str(unicodedata.decimal(c)) for c in t))
        pad = rng.choice(["", " ", "\n", "\t "])
        lang = rng.choice(LANGS)
        t2 = numeral(rng)
        v2 = int(t2)
        yield Case([("parse_number", (pad + t + pad, lang)), ("parse_number", (t,)), ("parse_ordinal", (pad + t, lang)),
                    ("parse", (f"x1 {t} x2", lang)), ("parse_fraction", (f"{t} over {t2}", lang)),
                    ("parse_fraction", (f"{t}/{t2}", "en")), ("parse_ordinal", (t,))],
                   both((0, is_int(v)), (1, is_int(v)), (2, is_int(v)), (3, is_str(f"x1 {t} x2")),
                        (4, is_str(f"{v}/{v2}")), (5, is_str(f"{v}/{v2}")), (6, is_int(v))), "numeral")


def c19_gen(rng):
    while True:
        lang = rng.choice(["en", "es", "ru", "uk"])
        f = lambda: weave(rng, lang, structured(rng, lang)) if rng.random() < 0.6 else " ".join(walk(rng, lang)[0])
        a, b = f().strip(), f().strip()
        if a[-1:] == "\xad" or not a or not b:
            continue
        sep = rng.choice([",", "."]) + rng.choice([" ", " ", "", "  ", "\n"])

        def judge(res, sep=sep):
            for r in res:
                if r[0] != "str":
                    return f"no text: {show(r)}"
            if res[2][1] != res[0][1] + sep + res[1][1]:
                return f"expected {res[0][1] + sep + res[1][1]!r}, got {res[2][1]!r}"
        yield Case([("parse", (a, lang)), ("parse", (b, lang)), ("parse", (a + sep + b, lang))], judge, lang)
        wa, wb = pwalk(rng, lang, maxlen=3)[0], pwalk(rng, lang, maxlen=3)[0]
        yield Case([("parse_number", (" ".join(wa) + sep + " ".join(wb), lang))], is_none, "parse_number")


def detect(t):
    best, n = "en", 0
    for lang in LANGS:
        c = sum(1 for x in tokens(t, lang) if is_number_word(x, lang) or is_skip(x, lang))
        if c > n:
            best, n = lang, c
    return best


def c20_gen(rng):
    while True:
        k = rng.random()
        ls = [rng.choice(LANGS) for _ in range(rng.choice([1, 2, 2, 3]))]
        parts = []
        for lang in ls:
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                parts.append(rng.choice(originals(lang)[rng.choice(sorted(cardinals(lang)))]) if r < 0.6 else
                             rng.choice(sorted(skips(lang)) or ["cow"]) if r < 0.7 else
                             plain(rng, lang) if r < 0.85 else rng.choice(sorted(ordinals())))
        if rng.random() < 0.3:
            parts.append(rng.choice([",", ".", "over", "/", "by"]))
        if rng.random() < 0.08:  # a long text, one language after another
            parts = []
            for lang in ls + [rng.choice(LANGS)]:
                m = rng.choice([10, 30, 80, 200, 600])
                w = [rng.choice(originals(lang)[rng.choice(sorted(cardinals(lang)))]) for _ in range(4)] + ["cow"]
                parts += [rng.choice(w) for _ in range(m)]
        elif rng.random() < 0.9:
            rng.shuffle(parts)
        t = " ".join(parts)
        if rng.random() < 0.1:
            t = rng.choice(SPECIAL)
        lang = detect(t)
        calls = []
        for f in FUNCS:
            calls += [(f, (t,)), (f, (t, lang))]

        def judge(res, t=t, lang=lang):
            for i in range(0, len(res), 2):
                if res[i] != res[i + 1]:
                    return f"{FUNCS[i // 2]} without a language gives {show(res[i])}, as {lang} {show(res[i + 1])}"
        yield Case(calls, judge, "text")


BADLANGS = ["de", "fr", "EN", "En", "en-IN", "en_US", "es-419", "", " ", "en ", " en", "uk.", "xx", "root", "pt", "../parser", "data", "be",
            "english", "e", "n", "en\n", "ru-RU", "__init__", "os", "zh", "ja", "hi-IN", "enes", "es.", "UK", "None", "hi,en", "0"]


def raises_value(res):
    for r in res:
        if r[0] != "exc" or r[1] != "ValueError":
            return f"expected ValueError, got {show(r)}"


def c21_gen(rng):
    import os
    from .harness import REPO
    codes = list(BADLANGS)
    try:
        codes += [f[:-3] for f in sorted(os.listdir(os.path.join(REPO, "number_parser/data"))) if f.endswith(".py")]
    except OSError:
        pass
    codes += source_strings()
    codes = [c for c in dict.fromkeys(codes) if c not in LANGS]
    for c in codes:
        for t in ("", " ", "7", "two", "cows"):
            yield Case([("parse", (t, c)), ("parse_ordinal", (t, c))], raises_value, "code")
        for t in ("two", "cows", "-", "两", "dos y uno", "5.5", "'", "\xad"):
            yield Case([("parse_number", (t, c))], raises_value, "code")
    while True:
        c = rng.choice(codes) if rng.random() < 0.6 else "".join(rng.choice("enshiruk-._E") for _ in range(rng.randint(1, 4)))
        if c in LANGS:
            continue
        t = anytext(rng, rng.choice(LANGS))
        calls = [("parse", (t, c)), ("parse_ordinal", (t, c))]
        if t.strip() and not t.strip().isdecimal():
            calls.append(("parse_number", (t, c)))
        yield Case(calls, raises_value, "text")


def lookalikes(rng, t):
    """Texts that are easily taken for t: the same beginning, end, letters,
    length, words, or t up to case, blanks, accents."""
    other = rng.choice(LANGS)
    o = " ".join(walk(rng, other)[0])
    ws = t.split(" ")
    k = rng.choice([1, 5, 10, 20, 30, 50, 100])
    mixed = ws[:]
    rng.shuffle(mixed)
    out = [t[:k] + " " + o, t[:k] + o, o + " " + t[-k:], t.upper(), t.swapcase(), " " + t + "\n", t.replace(" ", "  "), norm(t),
           " ".join(mixed), t[::-1], (o * (len(t) // max(1, len(o)) + 1))[:len(t)], t + " " + t, t + ",", t + " " + o, o + " " + t,
           " ".join(ws[:2] + o.split(" ")), " ".join(o.split(" ") + ws[-2:]), t.replace("-", " "), t + "x", "".join(ws)]
    return [x for x in out if x != t]


def c22_gen(rng):
    """A history of calls; each must give what it gives without a history."""
    while True:
        hist, seen = [], []
        for _ in range(rng.choice([2, 4, 10])):
            lang = rng.choice(LANGS)
            t = rng.choice([anytext(rng, lang, comb=True), weave(rng, lang, structured(rng, lang)), rng.choice(SPECIAL),
                            " ".join(walk(rng, lang)[0]), " ".join(" ".join(walk(rng, lang)[0]) for _ in range(6))])
            near = [t] + rng.sample(lookalikes(rng, t), 3)
            free = 0.4
            if rng.random() < 0.4:  # the same part, in texts of several languages
                free = 0.95
                part = t[:rng.choice([4, 10, 40])] + " "
                many = lambda: " ".join(rng.choice(originals(l)[rng.choice(sorted(cardinals(l)))]) for l in [rng.choice(LANGS)] for _ in range(20))
                near = [part + many() for _ in range(3)] if rng.random() < 0.7 else [many() + " " + part for _ in range(3)]
            rng.shuffle(near)
            for x in near:
                for _ in range(rng.choice([1, 1, 2])):
                    k = rng.random()
                    a = (x,) if k < free else (x, rng.choice(BADLANGS)) if k < 0.45 else (x, rng.choice(LANGS)) if k < 0.6 else (x, lang)
                    hist.append((rng.choice(FUNCS), a))
        if rng.random() < 0.3:
            rng.shuffle(hist)
        n = len(hist)
        probe = rng.sample(range(n), min(n, 6)) + [n - 1]
        calls = hist + hist[::-1] + [("isolated:" + hist[i][0], hist[i][1]) for i in probe]

        def judge(res, n=n, probe=probe, hist=hist):
            for i in range(n):
                if res[i] != res[2 * n - 1 - i]:
                    return f"{hist[i][0]}{hist[i][1]} gave {show(res[i])} first, then {show(res[2 * n - 1 - i])} after other calls"
            for j, i in enumerate(probe):
                if res[2 * n + j] != res[i]:
                    return f"{hist[i][0]}{hist[i][1]} gives {show(res[2 * n + j])} alone, {show(res[i])} after other calls"
        yield Case(calls, judge, "history", fresh=True)


def c25_gen(rng):
    for lang in LANGS:
        for w, (c, v) in sorted(cardinals(lang).items()):
            for o in originals(lang)[w]:
                yield Case([("parse_number", (o, lang))], is_int(v), "word")
                if tok_ok(o, lang):
                    yield Case([("parse", (f"x {o} x", lang))], is_str(f"x {v} x"), "word in a sentence")
        for other in LANGS:
            if other == lang:
                continue
            for w in sorted(cardinals(other)):
                if w not in number_like(lang) and w not in skips(lang) and norm(w.replace("'", "")) not in cardinals(lang):
                    yield Case([("parse_number", (w, lang))], is_none, "other language")
        for w in sorted(number_like(lang)):
            for t in (w + "s", w + "es", "x" + w, w + "й", w[:-1], w[1:], w + "०", w + "_", w + "1", w + "а"):
                if norm(t) not in number_like(lang) and norm(t) not in skips(lang) and t.strip() and not t.isdecimal():
                    yield Case([("parse_number", (t, lang)), ("parse", (t, lang))],
                               both((0, is_none), (1, is_str(t.strip()))) if tok_ok(t, lang) and "'" not in t else
                               both((0, lambda r: None)), "near word")
    while True:
        lang = rng.choice(LANGS)
        t = plain(rng, lang)
        if t.isdecimal():
            continue
        if norm(t.replace("'", "")) in cardinals(lang):
            continue
        yield Case([("parse_number", (t, lang)), ("parse", (t, lang))], both((0, is_none), (1, is_str(t.strip()))), "word")


GENERATORS = {"C06": ordinals_gen, "C07": fractions_gen, "C08": c08_gen, "C09": c09_gen, "C10": c10_gen, "C11": c11_gen,
              "C12": c12_gen, "C13": c13_gen, "C14": c14_gen, "C15": c15_gen, "C16": c16_gen, "C17": c17_gen, "C18": c18_gen,
              "C19": c19_gen, "C20": c20_gen, "C21": c21_gen, "C22": c22_gen, "C25": c25_gen}
for _p, _l in CARD.items():
    GENERATORS[_p] = cardinals_gen(_l)
