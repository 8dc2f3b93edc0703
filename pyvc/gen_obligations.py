"""C24: contracts of the data generator's functions."""
import json
import os
import pathlib

from oracle import datagen

from .gen import *
from .obligations import theorem

TABLES = ("UNIT_NUMBERS", "DIRECT_NUMBERS", "TENS", "HUNDREDS", "BIG_POWERS_OF_TEN")
RULE = ("rule text",)


def gen_theorem(*pids):
    def deco(f):
        f.session = GenSession
        return theorem(*pids, langs=None)(f)
    return deco


def zeros_of(n):
    """zeros(n) by its definition (as `unfold` states it)."""
    return 0 if n <= 9 or n % 10 else 1 + zeros_of(n // 10)


@gen_theorem("C24")
def zero_count(P, S, lang):
    """_count_zero(n) == zeros(n) for every n >= 0."""
    def path():
        n = S.nonneg()
        r = S.call("_count_zero", n)
        S.ctx.assume(unfold(n.t))
        ok = r[0] == "ret" and isinstance(r[1], (int, SInt)) and P.eq(r[1], Z(n.t))
        P.check("_count_zero counts the zeros", ok, r)
    S.explore(path)
    P.spec += 1
    if any(zeros_of(n) != (len(str(n)) - len(str(n).rstrip("0")) if n > 9 else 0) for n in range(20000)):
        raise SpecError("zeros")


def zeros_contract(S):
    def c(I, f, args, kw):
        v = next(iter(I.bind(f, args, kw).values()))
        if not isinstance(v, SInt):
            return MISSING
        S.ctx.assume(Z(v.t) >= 0)
        S.ctx.assume(unfold(v.t))
        return SInt(Z(v.t))
    return c


class Filing:
    """What the statement of C24 asks for, on the terms of the rule text."""

    def __init__(self, S, n):
        self.S, self.n = S, n
        self.lib, self.truth = S.I.lib, S.I.truth

    def is_(self, t):
        return self.truth(SBool(t)) if not isinstance(t, bool) else t

    def word(self, t):
        return ("strip", ("before", "[" if self.lib.has("[", t) else ">", t))

    def expected(self):
        """[(table, term, value)], or ("each", term of the text, value)"""
        L, n, z = self.lib, self.n.t, Z(self.n.t)
        t = ("rm", ";", RULE)
        if self.is_(L.count("=", t) != 0):
            return []
        gt, lt = L.count(">", t), L.count("<", t)
        if self.is_(z3.And(gt == 0, lt == 0)):
            if L.str_eq(RText(t), "ERROR") or L.str_eq(RText(t), ""):
                return []
            return [("UNIT_NUMBERS", t, n)] if self.is_(n <= 9) else [("DIRECT_NUMBERS", t, n)] if self.is_(n <= 99) else []
        if self.is_(z3.And(gt == 2, lt == 0)):
            if self.is_(z3.And(z != 1, z != 2)):
                return []
            if L.str_eq(L.str_getitem(NumStr(self.n), 0), "1"):
                return []
            w = self.word(t)
            return [] if L.str_eq(RText(w), "") else [("TENS" if self.is_(z == 1) else "HUNDREDS", w, n)]
        if self.is_(z3.And(gt == 2, lt == 2)):
            rest = ("afterlast", "<", t)
            if not L.str_method(RText(rest), "startswith", [" "], {}) or self.is_(z < 2):
                return []
            if L.has("$", rest):
                return ("each", rest, POW(z))
            w = self.word(rest)
            return [] if L.str_eq(RText(w), "") else [("BIG_POWERS_OF_TEN", w, POW(z))]
        return []


@gen_theorem("C24")
def filing(P, S, lang):
    """_extract_information files every rule (n, text), n >= 0, as C24 states
    (_count_zero taken by its contract): nothing more, nothing less."""
    S.I.contracts[NAME + ":_count_zero"] = zeros_contract(S)

    def path():
        n = S.nonneg()
        S.ctx.assume(Z(n.t) >= 0)
        S.ctx.assume(unfold(n.t))
        spec = Filing(S, n)
        ld = S.ctx.new(VDict, d={t: S.ctx.new(VDict, d={}) for t in TABLES})
        tabs = {ld.d[t].oid: t for t in TABLES}

        def same(got, want):
            """the same tables and values; the same words, or else the words
            are computed in a way that is not understood"""
            ok = len(got) == len(want) and all(a[0] == b[0] and P.eq(a[2], b[2]) for a, b in zip(got, want))
            if ok and any(a[1] != b[1] for a, b in zip(got, want)):
                raise Unsupported(f"the words {[show(a[1]) for a in got]} instead of {[show(b[1]) for b in want]}")
            return ok

        def element(name, writes, calls, alls):
            want = spec.expected()
            got = [(tabs.get(o.oid), k.term, v) for o, k, v in writes if isinstance(k, RText)]
            if len(got) != len(writes) or alls:
                raise Unsupported("nested collections")
            if want and want[0] == "each" and name != ("findall", want[1]):
                raise Unsupported("words of another text")
            each = isinstance(want, tuple)
            w = [("BIG_POWERS_OF_TEN", ("word found in", want[1]), want[2])] if each else []
            P.check("each word in braces is filed with its power of ten", same(got, w), (got, w))
            P.reached.add("each" if each else "no word")
        S.I.element = element
        r = S.call("_extract_information", NumStr(n), RText(RULE), ld)
        if r[0] != "ret":
            P.check("a rule does not raise", False, r)
            return
        want = spec.expected()
        got = [(t, k.term if isinstance(k, RText) else k, v) for t in TABLES for k, v in ld.d[t].d.items()] if set(ld.d) == set(TABLES) else None
        if isinstance(want, tuple):
            P.check("the words in braces are filed", not got and got is not None and ("findall", want[1]) in S.ctx.alls, (got, S.ctx.alls))
            return
        P.check(f"filed as {want[0][0] if want else 'nothing'}", got is not None and same(got, want), (got, want))
        P.reached.add(want[0][0] if want else "nothing")

    S.explore(path)
    P.check("every table is reached", P.reached >= set(TABLES) | {"nothing", "each"}, P.reached)


@gen_theorem("C24")
def set_names(P, S, lang):
    """_is_valid accepts exactly the cardinal and numbering rule sets without
    'cents' in their name."""
    def path():
        t = ("set name",)
        r = S.call("_is_valid", RText(t))
        has = lambda c: S.I.truth(S.I.lib.has(c, t))
        want = (has("spellout-cardinal") or has("spellout-numbering")) and not has("cents")
        P.check("cardinal rule sets and no others", r[0] == "ret" and S.I.truth(r[1]) == want, r)
        P.reached.add(want)
    S.explore(path)
    P.check("both answers occur", len(P.reached) == 2, P.reached)


class World:
    def __init__(self, S):
        self.S, self.files, self.seen = S, ("xx.json",), []

    def listdir(self, path="."):
        return self.S.ctx.list(self.files)

    def open(self, path, mode):
        parts = path.split("/")
        if "supplementary_translation_data" in parts:
            raise Done()
        if mode not in ("r", "rt") or parts[-2:] != ["raw_cldr_translation_data", "xx.json"]:
            raise Unsupported(f"open of {path}")
        return File(path, mode)

    def load(self, f):
        new = lambda **d: self.S.ctx.new(VDict, d=d)
        rules = lambda: RMap("rules", lambda: (RText(("rule key",)), RText(RULE)))
        sets = RMap("rule sets", lambda: (RText(("set name",)), rules()))
        return new(rbnf=new(rbnf=new(SpelloutRules=sets)))


@gen_theorem("C24")
def collection(P, S, lang):
    """For each file write_complete_data hands every rule of every valid rule
    set, without soft hyphens, to _extract_information exactly once, with five
    empty tables, and files nothing else before the supplementary data."""
    I = S.I
    I.world = World(S)
    valid = SBool(z3.Bool("valid set name"))
    passed = []

    def extract(I, f, args, kw):
        b = list(I.bind(f, args, kw).values())
        S.ctx.setattr_ctx("calls", S.ctx.calls + (tuple(b),))
        passed.append(1)

    def is_valid(I, f, args, kw):
        v = list(I.bind(f, args, kw).values())
        if len(v) != 1 or not isinstance(v[0], RText) or v[0].term != ("set name",):
            raise Unsupported("another text is taken for a set name")
        return valid
    I.contracts[NAME + ":_extract_information"] = extract
    I.contracts[NAME + ":_is_valid"] = is_valid

    def element(name, writes, calls, alls):
        if name == "rules":
            ok = not writes and not alls and len(calls) == 1
            if ok:
                k, t, ld = calls[0]
                ok = isinstance(k, RText) and isinstance(t, RText) and k.term == ("rule key",)
                if ok and t.term != ("rm", "\xad", RULE):
                    if t.term == RULE:
                        ok = False
                    else:
                        raise Unsupported(f"the rule text {t}")
                ok = ok and isinstance(ld, VDict) and set(ld.d) == set(TABLES) and all(isinstance(x, VDict) and not x.d for x in ld.d.values())
            P.check("every rule of a valid set is passed on once", ok, (writes, calls, alls))
            P.reached.add("rule")
        elif name == "rule sets":
            v = I.truth(valid)
            ok = not writes and not calls and alls == (("rules",) if v else ())
            P.check(f"a {'valid' if v else 'non-cardinal'} rule set is {'gone through' if v else 'left out'}", ok, (writes, calls, alls))
            P.reached.add(v)
    I.element = element

    def path():
        S.ctx.setattr_ctx("alls", ())
        try:
            r = S.call("write_complete_data")
        except Done:
            P.check("all rule sets are gone through once", S.ctx.alls == ("rule sets",) and not S.ctx.calls, S.ctx.alls)
            P.reached.add("file")
            return
        raise Unsupported(f"the supplementary data are not read: {r}")
    S.explore(path)
    if not passed:
        raise Unsupported("_extract_information is not called")
    P.check("rules, both kinds of sets, and the file are reached", P.reached == {"rule", True, False, "file"}, P.reached)


class Tree:
    """The files as they are, read by path; what is written is recorded."""

    def __init__(self, S):
        self.S, self.root = S, S.I.repo
        self.dir = (self.root / SCRIPT).parent
        self.raw = self.root / "number_parser_data" / "raw_cldr_translation_data"
        self.target = self.root / "number_parser" / "data"

    def path(self, p):
        return pathlib.Path(os.path.normpath(self.dir / p))

    def listdir(self, p="."):
        if self.path(p) != self.raw:
            raise Unsupported(f"listing of {p}")
        return RColl("file", None, sorted(os.listdir(self.raw)))

    def open(self, p, mode):
        q = self.path(p)
        if mode in ("w", "w+", "wt") and q.parent == self.target:
            self.S.ctx.setattr_ctx("calls", self.S.ctx.calls + (("open", q.name),))
            return File(q.name, mode)
        if mode in ("r", "rt") and self.root / "number_parser_data" in q.parents:
            if not q.is_file():
                self.S.I.raise_(FileNotFoundError, p)
            return File(p, mode, q.read_text(encoding="utf-8"))
        raise Unsupported(f"open of {p} for {mode}")

    def load(self, f):
        return self.S.I.lift(json.loads(f.content))

    def write(self, f, text):
        self.S.ctx.setattr_ctx("calls", self.S.ctx.calls + (("write", f.path, text),))


@gen_theorem("C23")
def regeneration(P, S, lang):
    """write_complete_data's loop over the source files, in any order: the
    invariant is that nothing but the files written so far has changed; each
    iteration, for every source file there is and whatever the iterations
    before left in the locals, writes the module of its own language only, with
    the shipped tables, and reads no written file."""
    I = S.I
    I.world = Tree(S)
    wrote = {}
    shipped = lambda q: datagen.load(str(I.world.target / q))

    def element(name, writes, calls, alls):
        if not isinstance(name, tuple) or name[0] != "file" or alls:
            raise Unsupported("loop over another collection")
        if writes:
            raise Unsupported("an iteration that changes what is shared with the others")
        opened = [c[1] for c in calls if c[0] == "open"]
        if len(opened) != len(set(opened)) or any(c[1] not in opened for c in calls):
            raise Unsupported("a file opened twice")
        P.check(f"{name[1]} writes at most one module", len(opened) <= 1, opened)
        for q in opened:
            P.check(f"{q} is written for one source file only", wrote.setdefault(q, name[1]) == name[1], (q, wrote[q], name[1]))
            if "root.py" in opened:
                continue
            ns, text = {}, "".join(c[2] for c in calls if c[0] == "write")
            try:
                exec(compile(text, q, "exec"), ns)
            except Exception as e:
                P.check(f"{q} is a module", False, repr(e))
            d = datagen.diff(ns.get("info"), shipped(q))
            P.check(f"{q} has the shipped tables", d is None, d)
    I.element = element

    def path():
        S.ctx.setattr_ctx("alls", ())
        S.ctx.setattr_ctx("calls", ())
        r = S.call("write_complete_data")
        if r[0] == "exc":
            P.check("the generator does not fail", False, r)
        if S.ctx.alls != ("file",) or S.ctx.calls:
            raise Unsupported("files are written outside the loop over the source files")
        P.reached.add("end")
    S.explore(path)
    P.check("the end is reached", "end" in P.reached)
    want = {f for f in os.listdir(I.world.target) if f.endswith(".py")} - {"__init__.py", "root.py"}
    P.check("every shipped module is written, and no other", set(wrote) - {"root.py"} == want, sorted((set(wrote) ^ want) - {"root.py"})[:5])
