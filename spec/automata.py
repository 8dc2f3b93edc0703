"""Specification automata: the number grammars of the five languages with the
value a phrase denotes carried in registers.  Updates and guards are plain
arithmetic, so the same definition is used symbolically by the verifier and
concretely by the sampler / oracle.
"""
import functools

from .lex import LEX, cardinals, norm, skips, table, ordinals

REGS = ("N", "m", "g", "lim")


class E:
    """One word edge: any of `words` (normalised word -> value v)."""

    __slots__ = ("src", "dst", "cls", "words", "upd", "guard", "lo", "hi")

    def __init__(self, src, dst, cls, words, upd, guard=None):
        self.src, self.dst, self.cls, self.words = src, dst, cls, dict(words)
        self.upd, self.guard = upd, guard
        vs = self.words.values()
        self.lo, self.hi = min(vs), max(vs)

    def __repr__(self):
        return f"{self.src}-{self.cls}[{self.lo}..{self.hi}]->{self.dst}"


class Phrase:
    """Well-formed cardinals of one language."""

    def __init__(self, lang):
        self.lang = lang
        self.edges = []
        self.inv = {}
        self.accept = set()
        self.start = "S"
        getattr(self, "_" + lang)()
        self.out = {}
        for e in self.edges:
            self.out.setdefault(e.src, []).append(e)
        self.nodes = list(self.inv)
        # value classes of the last word read, per node (for C15)
        self.last = {}
        for e in self.edges:
            self.last.setdefault(e.dst, set()).add(e.cls)

    # -------------------------------------------------------------- helpers
    def w(self, cls, pred=lambda v: True):
        return {w: v for w, v in table(self.lang, cls).items() if pred(v)}

    def node(self, name, inv, accept=True):
        self.inv[name] = inv
        if accept:
            self.accept.add(name)

    def edge(self, src, dst, cls, words, upd, guard=None):
        if words:
            self.edges.append(E(src, dst, cls, words, upd, guard))

    def scales(self, lo=1000):
        by = {}
        for w, v in table(self.lang, "scale").items():
            if v >= lo:
                by.setdefault(v, {})[w] = v
        return sorted(by.items())

    def base(self):
        self.node("S", lambda r: [r["N"] == 0, r["m"] == 0, r["g"] == 0, r["lim"] == 0], accept=False)
        self.node("ZERO", lambda r: [r["N"] == 0, r["m"] == 0, r["g"] == 0, r["lim"] == 0])
        self.edge("S", "ZERO", "unit", self.w("unit", lambda v: v == 0), lambda r, v: {})

    def level(self, lv, lo, hi):
        """invariant of a node inside a group of value lo..hi at level 0 / 1"""
        if lv == 0:
            return lambda r: [r["N"] == 0, r["lim"] == 0, r["m"] == 0, r["g"] >= lo, r["g"] <= hi]
        return lambda r: [r["lim"] >= 1000, r["N"] >= r["lim"], r["m"] == 0, r["g"] >= lo, r["g"] <= hi]

    def value(self, r):
        return r["N"] + r["m"] + r["g"]

    # ------------------------------------------------------------ languages
    def _en(self):
        self.base()
        unit, direct = self.w("unit", lambda v: v > 0), self.w("direct")
        tens = self.w("tens")
        hund = self.w("scale", lambda v: v == 100)
        add = lambda r, v: {"g": r["g"] + v}
        times = lambda r, v: {"g": r["g"] * 100}
        self.node("Z", lambda r: [r["lim"] >= 1000, r["N"] >= r["lim"], r["m"] == 0, r["g"] == 0])
        for lv in (0, 1):
            for n, lo, hi in (("U", 1, 9), ("D", 10, 19), ("T", 20, 90), ("TU", 21, 99), ("H", 100, 900),
                              ("HU", 101, 999), ("HT", 120, 990)):
                self.node(n + str(lv), self.level(lv, lo, hi))
            s = "SZ"[lv]
            l = str(lv)
            self.edge(s, "U" + l, "unit", unit, add)
            self.edge(s, "D" + l, "direct", direct, add)
            self.edge(s, "T" + l, "tens", tens, add)
            self.edge("T" + l, "TU" + l, "unit", unit, add)
            self.edge("U" + l, "H" + l, "scale", hund, times)
            self.edge("H" + l, "HU" + l, "unit", unit, add)
            self.edge("H" + l, "HU" + l, "direct", direct, add)
            self.edge("H" + l, "HT" + l, "tens", tens, add)
            self.edge("HT" + l, "HU" + l, "unit", unit, add)
            for v, ws in self.scales():
                for n in ("U", "D", "T", "TU", "H", "HU", "HT"):
                    self._scale(n + l, "Z", ws, v, lv)
        # bare hundred / scale at the very beginning
        self.edge("S", "H0", "scale", hund, lambda r, v: {"g": 100})
        for v, ws in self.scales():
            self.edge("S", "Z", "scale", ws, lambda r, v: {"N": v, "lim": v})
        # nineteen hundred (and six): only as the first and last group
        x = lambda lo, hi: (lambda r: [r["N"] == 0, r["lim"] == 0, r["m"] == 0, r["g"] >= lo, r["g"] <= hi])
        self.node("XH", x(1000, 9900))
        self.node("XU", x(1001, 9999))
        self.node("XT", x(1020, 9990))
        for n in ("D0", "T0", "TU0"):
            self.edge(n, "XH", "scale", hund, times)
        self.edge("XH", "XU", "unit", unit, add)
        self.edge("XH", "XU", "direct", direct, add)
        self.edge("XH", "XT", "tens", tens, add)
        self.edge("XT", "XU", "unit", unit, add)

    def _scale(self, src, dst, ws, s, lv):
        upd = lambda r, v: {"N": r["N"] + (r["m"] + r["g"]) * s, "m": 0, "g": 0, "lim": s}
        guard = (lambda r, v: r["lim"] > s) if lv else None
        self.edge(src, dst, "scale", ws, upd, guard)

    def _hi(self):
        self.base()
        small = {**self.w("unit", lambda v: v > 0), **self.w("direct")}
        digit = self.w("unit", lambda v: v > 0)
        hund = self.w("scale", lambda v: v == 100)
        add = lambda r, v: {"g": r["g"] + v}
        self.node("Z", lambda r: [r["lim"] >= 1000, r["N"] >= r["lim"], r["m"] == 0, r["g"] == 0])
        for lv in (0, 1):
            l = str(lv)
            s = "SZ"[lv]
            self.node("U" + l, self.level(lv, 1, 9))
            self.node("D" + l, self.level(lv, 10, 99))
            self.node("H" + l, self.level(lv, 100, 900))
            self.node("HU" + l, self.level(lv, 101, 999))
            self.edge(s, "U" + l, "unit", digit, add)
            self.edge(s, "D" + l, "direct", self.w("direct"), add)
            self.edge("U" + l, "H" + l, "scale", hund, lambda r, v: {"g": r["g"] * 100})
            self.edge("H" + l, "HU" + l, "unit", digit, add)
            self.edge("H" + l, "HU" + l, "direct", self.w("direct"), add)
            for v, ws in self.scales():
                for n in ("U", "D"):
                    self._scale(n + l, "Z", ws, v, lv)
        self.edge("S", "H0", "scale", hund, lambda r, v: {"g": 100})
        for v, ws in self.scales():
            self.edge("S", "Z", "scale", ws, lambda r, v: {"N": v, "lim": v})

    def _slavic(self):
        self.base()
        unit, direct, tens, hund = (self.w("unit", lambda v: v > 0), self.w("direct"), self.w("tens"), self.w("hundreds"))
        add = lambda r, v: {"g": r["g"] + v}
        self.node("Z", lambda r: [r["lim"] >= 1000, r["N"] >= r["lim"], r["m"] == 0, r["g"] == 0])
        for lv in (0, 1):
            l = str(lv)
            s = "SZ"[lv]
            for n, lo, hi in (("U", 1, 9), ("D", 10, 19), ("T", 20, 90), ("TU", 21, 99), ("H", 100, 900),
                              ("HU", 101, 919), ("HT", 120, 990), ("HTU", 121, 999)):
                self.node(n + l, self.level(lv, lo, hi))
            self.edge(s, "U" + l, "unit", unit, add)
            self.edge(s, "D" + l, "direct", direct, add)
            self.edge(s, "T" + l, "tens", tens, add)
            self.edge(s, "H" + l, "hundreds", hund, add)
            self.edge("T" + l, "TU" + l, "unit", unit, add)
            self.edge("H" + l, "HU" + l, "unit", unit, add)
            self.edge("H" + l, "HU" + l, "direct", direct, add)
            self.edge("H" + l, "HT" + l, "tens", tens, add)
            self.edge("HT" + l, "HTU" + l, "unit", unit, add)
            for v, ws in self.scales():
                for n in ("U", "D", "T", "TU", "H", "HU", "HT", "HTU"):
                    self._scale(n + l, "Z", ws, v, lv)
                self.edge(s, "Z", "scale", ws, (lambda r, v: {"N": r["N"] + v, "lim": v}),
                          (lambda r, v: r["lim"] > v) if lv else None)

    _ru = _slavic
    _uk = _slavic

    def _es(self):
        self.base()
        unit, direct, tens, hund = (self.w("unit", lambda v: v > 0), self.w("direct"), self.w("tens"), self.w("hundreds"))
        mil = self.w("scale", lambda v: v == 1000)
        add = lambda r, v: {"g": r["g"] + v}
        periods = [(v, ws) for v, ws in self.scales(10 ** 6) if v != 10 ** 9]
        millardo = [(v, ws) for v, ws in self.scales(10 ** 6) if v == 10 ** 9]
        lvl = lambda lv: (lambda r: [r["N"] == 0, r["lim"] == 0]) if lv == 0 else (
            lambda r: [r["lim"] >= 10 ** 6, r["N"] >= r["lim"]])
        self.node("Z", lambda r: [r["lim"] >= 10 ** 6, r["N"] >= r["lim"], r["m"] == 0, r["g"] == 0])
        for lv in (0, 1):
            for th in ("", "m"):
                l = str(lv) + th
                mi = (lambda r: [r["m"] == 0]) if not th else (lambda r: [r["m"] >= 1000, r["m"] <= 999000])

                def inv(lo, hi, lv=lv, mi=mi):
                    return lambda r: lvl(lv)(r) + mi(r) + [r["g"] >= lo, r["g"] <= hi]

                src = "SZ"[lv] if not th else "M" + str(lv)
                if th:
                    self.node(src, inv(0, 0))
                for n, lo, hi in (("U", 1, 9), ("D", 10, 29), ("T", 30, 90), ("TU", 31, 99), ("H", 100, 900),
                                  ("HU", 101, 929), ("HT", 130, 990), ("HTU", 131, 999)):
                    self.node(n + l, inv(lo, hi))
                self.edge(src, "U" + l, "unit", unit, add)
                self.edge(src, "D" + l, "direct", direct, add)
                self.edge(src, "T" + l, "tens", tens, add)
                self.edge(src, "H" + l, "hundreds", hund, add)
                self.edge("T" + l, "TU" + l, "unit", unit, add)
                self.edge("H" + l, "HU" + l, "unit", unit, add)
                self.edge("H" + l, "HU" + l, "direct", direct, add)
                self.edge("H" + l, "HT" + l, "tens", tens, add)
                self.edge("HT" + l, "HTU" + l, "unit", unit, add)
                groups = [n + l for n in ("U", "D", "T", "TU", "H", "HU", "HT", "HTU")]
                if not th:
                    for n in groups:
                        self.edge(n, "M" + str(lv), "scale", mil, lambda r, v: {"m": r["g"] * 1000, "g": 0})
                    self.edge(src, "M" + str(lv), "scale", mil, lambda r, v: {"m": 1000})
                    for v, ws in millardo:
                        for n in groups:
                            self._scale(n, "Z", ws, v, lv)
                for v, ws in periods:
                    for n in groups + ([src] if th else []):
                        self._scale(n, "Z", ws, v, lv)


@functools.lru_cache(None)
def phrase(lang):
    return Phrase(lang)


def incompatible(lang, last_cls, cls):
    """C15: the next word class can never continue a number ending in last_cls."""
    small = ("unit", "direct")
    if last_cls in small and cls in small:
        return True
    if last_cls == "tens" and cls in ("direct", "tens"):
        return True
    if last_cls in small and cls == "tens":
        return True
    if cls == "hundreds" and last_cls != "scale":
        return True
    return False


def ordinal_edges():
    """English ordinal form of each cardinal word: normalised ordinal -> cardinal."""
    return ordinals()
