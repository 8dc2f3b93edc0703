"""Contracts of the Python language, its builtins and the standard library
functions the repository uses, on symbolic values."""
import ast
import functools
import importlib
import itertools
import operator
import pkgutil
import re
import sys
import unicodedata

import z3

from . import audit
from .interp import BINOPS, CMPOPS, CONCRETE, PURE_NATIVE, is_concrete, assigned_names
from .values import *

STR_TO_STR = {"lower", "upper", "casefold", "title", "capitalize", "swapcase", "strip", "lstrip", "rstrip", "replace",
              "removesuffix", "removeprefix", "translate", "expandtabs", "zfill", "ljust", "rjust", "center"}
STR_PRED = {"startswith", "endswith", "isdecimal", "isdigit", "isnumeric", "isalpha", "isalnum", "isspace", "isupper",
            "islower", "istitle", "isidentifier", "isascii", "isprintable", "__contains__"}
STR_INT = {"find", "rfind", "count", "index", "__len__"}
STRS = (str, SStr, NumStr, SCat, SOp, AText, AnyStr)

_DROP_MN = frozenset(c for c in map(chr, range(sys.maxunicode + 1)) if unicodedata.category(c) == "Mn")


class Lib:
    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.ctx.known_empty = self.known_empty
        self.tabs = {}
        self.charops = {}
        b = {}
        for n in ("len", "int", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "enumerate", "range", "map",
                  "filter", "zip", "reversed", "sorted", "any", "all", "sum", "max", "min", "abs", "isinstance",
                  "getattr", "hasattr", "setattr", "iter", "next", "type", "print", "repr", "ord", "chr", "id",
                  "callable", "staticmethod", "classmethod", "property", "locals", "super", "vars", "hash", "divmod",
                  "pow", "round", "float", "issubclass", "object", "globals", "format"):
            b[n] = VSpecial("native", functools.partial(self.builtin, n))
        b["locals"] = self._locals
        b["super"] = self._super
        for n in ("True", "False", "None"):
            pass
        b["object"] = object
        b["float"] = float
        b["bytes"] = bytes
        self.builtins = b
        self.types = {}
        for n, t in (("int", int), ("str", str), ("bool", bool), ("list", list), ("tuple", tuple), ("dict", dict),
                     ("set", set), ("frozenset", frozenset), ("type", type)):
            self.types[id(b[n])] = t

    def builtin(self, name, *args, **kw):
        return getattr(self, "b_" + name, self._nob(name))(*args, **kw)

    def _nob(self, name):
        def f(*a, **k):
            raise Unsupported(f"builtin {name}()")
        return f

    def _locals(self, fr):
        raise Unsupported("locals()")

    def _super(self, fr):
        raise Unsupported("super()")

    # ------------------------------------------------------------- strings
    def tab(self, s, tab):
        """SStr for a finite table over the evaluated strings of s."""
        key = tuple(sorted(tab.items()))
        i = self.tabs.get(key)
        if i is None:
            i = self.tabs[key] = f"tab{len(self.tabs)}"
            OPS[i] = dict(tab)
        chain = s.chain
        d = self.ctx.dom[s.atom.id]
        if not isinstance(d, Fin):
            chain = canon_chain(chain)
        return SStr(s.atom, chain + (("tab", i),))

    def strop(self, s, op):
        if type(s) is AnyStr:
            raise Refine(s.origin)
        if isinstance(s, str):
            return apply_op(op, s)
        if isinstance(s, SStr):
            r = SStr(s.atom, s.chain + (op,))
            p = self.ctx.possible(r)
            if p is not None and len(p) == 1:
                return next(iter(p))
            return r
        raise Unsupported(f"string operation {op[:2]} on {type(s).__name__}")

    def known_empty(self, v):
        """Emptiness of a form of an opaque string, when it is known."""
        d = self.ctx.dom[v.atom.id]
        chain = canon_chain(v.chain)
        rest = chain[1:] if chain and chain[0] == ("NORM",) else chain
        normed = rest is not chain and len(rest) != len(chain)
        # (letters put for letters do not make a string blank or non-blank)
        rest = tuple(o for o in rest if not (o[0] == "m" and o[1] == "replace" and keeps_normal(o)))
        if all(o == ("m", "strip", ()) for o in rest):
            if rest or normed:
                # emptiness after normalising and/or stripping
                nb = d.cls.nonblank
                if normed and nb is not None:
                    if rest:
                        return not nb
                    if nb:
                        return False
                if not normed and d.cls.facts.get("rawblank") is not None:
                    return d.cls.facts["rawblank"]
                if not normed and nb:
                    return False
            elif d.cls.nonempty is not None:
                return not d.cls.nonempty
        return None

    def is_empty_str(self, v):
        if type(v) is AnyStr:
            raise Refine(v.origin)
        ctx = self.ctx
        if isinstance(v, str):
            return v == ""
        if isinstance(v, NumStr):
            return False
        if isinstance(v, SStr):
            sp = ctx.finite(v)
            if sp is not None:
                return sp(v, lambda w: w == "")
            e = self.known_empty(v)
            if e is not None:
                return e
            chain = canon_chain(v.chain)
            if chain[:1] == (("NORM",),):
                return ctx.member(v, frozenset([""]))
            return ctx.fact(v, chain, ("empty",))
        if isinstance(v, SCat):
            out = True
            for p in v.parts:
                if isinstance(p, JoinPart):
                    raise Unsupported("emptiness of a join")
                if not self.is_empty_str(p):
                    return False
            return out
        if isinstance(v, SOp) and v.name == "strip" and isinstance(v.args[0], SCat):
            ps = v.args[0].parts
            if any(p.strip() if isinstance(p, str) else isinstance(p, NumStr) or isinstance(p, AText) and p.facts.get("nonblank")
                   for p in ps):
                return False
            raise Unsupported(f"emptiness of {v}")
        if isinstance(v, (AText, SOp)):
            f = v.facts
            ops = getattr(v, "ops", ())
            if "strip" in ops or "nonempty" not in f:
                if f.get("nonblank") is not None:
                    return not f["nonblank"]
            if f.get("nonempty") is not None:
                return not f["nonempty"]
            if f.get("any") and isinstance(v, AText):
                return self.textq(v, "blank" if "strip" in ops else "empty")
            raise Unsupported(f"emptiness of {v}")
        raise Unsupported("emptiness")

    def concat(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SCat):
                out.extend(p.parts)
            elif isinstance(p, STRS) or isinstance(p, JoinPart):
                out.append(p)
            else:
                raise Unsupported(f"concatenation with {type(p).__name__}")
        res = []
        for p in out:
            if isinstance(p, NumStr) and isinstance(p.v, int):
                p = str(p.v)
            if p == "" and isinstance(p, str):
                continue
            if isinstance(p, str) and res and isinstance(res[-1], str):
                res[-1] += p
            else:
                res.append(p)
        if not res:
            return ""
        if len(res) == 1 and not isinstance(res[0], JoinPart):
            return res[0]
        if len(res) == 2 and isinstance(res[0], SStr) and isinstance(res[1], str):
            return self.strop(res[0], ("rcat", res[1]))
        if len(res) == 2 and isinstance(res[1], SStr) and isinstance(res[0], str):
            return self.strop(res[1], ("lcat", res[0]))
        return SCat(res)

    def to_str(self, x):
        if isinstance(x, STRS):
            return x
        if isinstance(x, SInt):
            return NumStr(x)
        if isinstance(x, SBool):
            return "True" if self.I.truth(x) else "False"
        if is_concrete(x):
            return str(x)
        if isinstance(x, SOp):
            return SOp("str", (x,))
        if isinstance(x, VExc) and len(x.args) == 1:
            return self.to_str(x.args[0])
        raise Unsupported(f"str() of {type(x).__name__}")

    def concretize(self, v):
        """A concrete value equal to v, splitting a small finite domain."""
        if type(v) is AnyStr:
            raise Refine(v.origin)
        if is_concrete(v):
            return v
        if isinstance(v, SStr):
            p = self.ctx.possible(v)
            if p is not None and len(p) <= 64:
                return self.ctx.finite(v)(v, lambda w: w)
        if isinstance(v, NumStr) and isinstance(v.v, int):
            return str(v.v)
        if isinstance(v, SBool):
            return self.I.truth(v)
        if isinstance(v, tuple):
            return tuple(self.concretize(x) for x in v)
        raise Unsupported(f"concrete value needed, got {v}")

    def str_method(self, s, name, args, kw):
        if type(s) is AnyStr:
            raise Refine(s.origin)
        ctx = self.ctx
        if kw:
            if all(is_concrete(a) for a in kw.values()) and isinstance(s, str) and all(is_concrete(a) for a in args):
                return self.I.lift(getattr(s, name)(*args, **kw))
            raise Unsupported(f"str.{name} with keywords")
        if name == "join":
            return self.join(s, args[0])
        if name == "format" and isinstance(s, str):
            parts = re.split(r"(\{\w*\})", s)
            out, k = [], 0
            for p in parts:
                if re.fullmatch(r"\{\d*\}", p):
                    i = int(p[1:-1]) if p != "{}" else k
                    k += 1
                    out.append(self.to_str(args[i]))
                elif "{" in p or "}" in p:
                    raise Unsupported("format string")
                else:
                    out.append(p)
            return self.concat(out)
        if isinstance(s, str) and all(is_concrete(a) for a in args):
            try:
                r = getattr(s, name)(*args)
            except Exception as e:  # noqa
                self.I.raise_(type(e), *e.args)
            return self.I.lift(r)
        if isinstance(s, str) and len(args) == 1 and isinstance(args[0], (SStr, NumStr)) and name in (
                "startswith", "endswith", "__contains__", "find", "count"):
            a = self.concretize(args[0])
            return getattr(s, name)(a)
        if not all(is_concrete(a) for a in args):
            args = [self.concretize(a) for a in args]
            if isinstance(s, str):
                return self.str_method(s, name, args, kw)
        if isinstance(s, NumStr):
            if isinstance(s.v, int):
                return self.str_method(str(s.v), name, args, kw)
            if name in ("strip", "lower", "upper", "lstrip", "rstrip", "casefold", "title", "capitalize") and not args:
                return s
            if name in ("isdecimal", "isdigit", "isnumeric", "isalnum", "isascii"):
                return True
            if name in ("isalpha", "isspace", "isupper", "islower"):
                return False
            if name == "replace" and not args[0].isdigit() and args[0]:
                return s
            raise Unsupported(f"{name} of a number string")
        if isinstance(s, SStr):
            args = tuple(tuple(a) if isinstance(a, list) else a for a in args)
            if name in STR_TO_STR:
                return self.strop(s, ("m", name, args))
            if name in STR_PRED or name in STR_INT:
                sp = ctx.finite(s)
                if sp is not None:
                    def f(w):
                        try:
                            return getattr(w, name)(*args)
                        except Exception as e:  # noqa
                            return ("exc", type(e))
                    r = sp(s, f)
                    if isinstance(r, tuple):
                        self.I.raise_(r[1])
                    return r
                if name == "isspace" and not args:
                    blank = self.known_empty(SStr(s.atom, s.chain + (("m", "strip", ()),)))
                    if blank is not None:
                        return blank and not ctx.member(s, frozenset([""]))
                if name in STR_PRED:
                    d = ctx.dom[s.atom.id]
                    chain = canon_chain(s.chain)
                    known = d.cls.facts.get(("pred", name))
                    if known is not None and chain in ((), (("m", "strip", ()),)):
                        return known
                    if name in ("isdecimal", "isdigit", "isnumeric") and not args and chain == ():
                        pass
                    return ctx.fact(s, chain, (name, args))
                raise Unsupported(f"{name} of an opaque string")
            if name in ("split", "rsplit", "partition", "rpartition", "splitlines", "encode"):
                w = self.concretize(s)
                return self.str_method(w, name, args, kw)
            raise Unsupported(f"str.{name}")
        if isinstance(s, (SCat, SOp, AText)):
            return self.text_method(s, name, args)
        raise Unsupported(f"str.{name} on {type(s).__name__}")

    def text_method(self, s, name, args):
        """Methods of long texts."""
        if isinstance(s, AText):
            f = s.facts
            if name == "strip" and not args:
                return AText(s.seq, s.style, f, s.ops + ("strip",)) if "strip" not in s.ops else s
            if name in ("isdecimal", "isdigit", "isnumeric") and f.get("decimal") is not None and (
                    "strip" in s.ops or f["decimal"] is False):
                if f["decimal"] is True and name != "isdecimal":
                    return True
                return f["decimal"]
            if name in ("isdecimal", "isdigit", "isnumeric") and f.get("any"):
                return self.textq(s, name)
            if name == "replace" and len(args) == 2 and len(args[0]) == 1 and args[1] == "":
                # the token sequence describes the text without these characters
                if args[0] in f.get("absent", ()):
                    return s
                if args[0] in f.get("removable", ()):
                    return AText(s.seq, s.style, f, s.ops + (("rm", args[0]),))
            if name == "isspace" and f.get("nonblank"):
                return False
            if name == "isspace" and f.get("any"):
                return self.textq(s, "blank") and not self.textq(s, "empty")
            h = f.get("methods", {}).get(name)
            if h is not None:
                return h(self, s, args)
        if isinstance(s, (AText, SCat)) and name in ("find", "index", "partition", "split", "__contains__") and args and isinstance(
                args[0], str):
            r = self.cut_method(s, name, args)
            if r is not MISSING:
                return r
        if isinstance(s, SOp):
            h = s.facts.get("methods", {}).get(name)
            if h is not None:
                return h(self, s, args)
        if isinstance(s, SCat):
            if name == "strip" and not args:
                return SOp("strip", (s,))
            if name in ("isdecimal", "isdigit", "isnumeric"):
                for p in s.parts:
                    if isinstance(p, str) and not getattr(p, name)():
                        return False
        if isinstance(s, SOp) and name == "strip" and not args and s.name == "strip":
            return s
        if isinstance(s, AText) and name in ("lstrip", "rstrip") and not args:
            return SOp(name, (s,))
        raise Unsupported(f"{name} of {s}")

    # ------------------------------------------- finding a word in a long text
    def cut(self, s, sep):
        """None: `sep` does not occur in the text; else (what comes before its
        first occurrence, what comes after)."""
        if isinstance(s, AText):
            if s.ops or not s.facts.get("any"):
                if not s.ops and self.excludes(s, sep):
                    return None
                raise Unsupported(f"search for {sep!r} in {s}")
            tid = s.facts.get("tid", s.seq.id)
            tf = self.ctx.textfacts
            key = (tid, ("has", sep), False)
            if key not in tf:
                if not sep or sep != sep.strip() or sep.isnumeric():
                    raise Unsupported(f"search for {sep!r}")
                if any(tf.get((tid, q, x)) for q in ("blank", "empty") + self.NUMERIC for x in (True, False)):
                    return None
                r = self.ctx.choose(2) == 0
                self.ctx.setattr_ctx("textfacts", {**tf, key: r})
            if not self.ctx.textfacts[key]:
                return None
            return self.part((tid, sep, "before")), self.part((tid, sep, "after"))
        if isinstance(s, SCat):
            if not sep or sep != sep.strip():
                raise Unsupported(f"search for {sep!r}")
            for i, p in enumerate(s.parts):
                if isinstance(p, str):
                    k = p.find(sep)
                    if k >= 0:
                        return self.concat(s.parts[:i] + (p[:k],)), self.concat((p[k + len(sep):],) + s.parts[i + 1:])
                elif isinstance(p, AText) and not p.ops and self.excludes(p, sep):
                    # (with blanks, or nothing, next to it: no occurrence overlaps it)
                    for q, at in ((s.parts[i - 1] if i else " ", -1), (s.parts[i + 1] if i + 1 < len(s.parts) else " ", 0)):
                        if not isinstance(q, str) or not q[at].isspace():
                            raise Unsupported(f"search for {sep!r} in {s}")
                else:
                    raise Unsupported(f"search for {sep!r} in {s}")
            return None
        raise Unsupported(f"search in {s}")

    def excludes(self, s, sep):
        """No word of the text contains a word of `sep` as a part."""
        runs = [x for x in re.split(r"(\W)", sep) if x.strip()]
        if not runs or not sep.isascii():
            return False
        for e in s.seq.auto.edges:
            t = e.tok
            if t.words is not None:
                if any(r.lower() in w for w in t.words for r in runs):
                    return False
            elif t.cls.name == "numeral":
                if any(ch.isdecimal() for ch in sep):
                    return False
            elif t.cls.name != "blank":
                return False
        return True

    def part(self, key):
        """A text about which nothing is known but what it is a part of."""
        from .auto import anything
        ps = self.ctx.parts
        if key not in ps:
            seq = Seq(anything(), str(key), ("part",) + key)
            self.ctx.setattr_ctx("parts", {**ps, key: AText(seq, "W", dict(
                any=True, nonblank=None, decimal=None, nonempty=None, removable=frozenset("'’\xad")))})
        return self.ctx.parts[key]

    def cut_method(self, s, name, args):
        ctx = self.ctx
        sep = args[0]
        if name == "split" and (len(args) != 2 or args[1] != 1) or name != "split" and len(args) != 1:
            return MISSING
        c = self.cut(s, sep)
        if name == "__contains__":
            return c is not None
        if name == "partition":
            return (s, "", "") if c is None else (c[0], sep, c[1])
        if name == "split":
            return ctx.list([s] if c is None else list(c))
        if c is None:
            if name == "index":
                self.I.raise_(ValueError, "substring not found")
            return -1
        v = ctx.int_var("pos")
        ctx.assume(v >= 0)
        ctx.setattr_ctx("cuts", ctx.cuts + ((v, s, len(sep), c),))
        return SInt(v)

    def cut_slice(self, s, k):
        """text[:pos] and text[pos + len(sep):] for a position found before."""
        if k.step is None and (k.start is None) != (k.stop is None):
            b = k.stop if k.start is None else k.start
            if isinstance(b, SInt):
                for v, t, n, c in self.ctx.cuts:
                    if t is not s:
                        continue
                    d = z3.simplify(b.t - v)
                    if z3.is_int_value(d):
                        if k.start is None and d.as_long() == 0:
                            return c[0]
                        if k.stop is None and d.as_long() == n:
                            return c[1]
        if isinstance(s, AText) and s.facts.get("any"):
            return self.part((s.facts.get("tid", s.seq.id), str(k), "slice"))
        raise Unsupported("slice of a text")

    NUMERIC = ("isdecimal", "isdigit", "isnumeric")  # each implies the next

    def textq(self, s, q):
        """Answer of a yes/no question about an arbitrary text: guessed both
        ways, kept consistent along the path."""
        ctx = self.ctx
        st = "strip" in s.ops
        tf = ctx.textfacts
        tid = s.facts.get("tid", s.seq.id)
        key = (tid, q, st and q in self.NUMERIC)
        if key in tf:
            return tf[key]
        get = lambda n, t=False: tf.get((tid, n, t))
        if q == "blank" and get("empty"):
            return True
        if q == "empty" and get("blank") is False:
            return False
        if q in self.NUMERIC:
            if get("blank") or (not st and get("empty")):
                return False
            i = self.NUMERIC.index(q)
            if any(get(n, st) or get(n, False) for n in self.NUMERIC[:i + 1]):
                return True
            if any(get(n, st) is False for n in self.NUMERIC[i:]) or not st and any(
                    get(n, True) is False for n in self.NUMERIC[i:]):
                return False
        if q == "blank" and any(get(n, t) for n in self.NUMERIC for t in (True, False)):
            return False
        r = ctx.choose(2) == 0
        ctx.setattr_ctx("textfacts", {**tf, key: r})
        return r

    def join(self, sep, it):
        if not isinstance(sep, str):
            raise Unsupported("join with symbolic separator")
        if isinstance(it, VPipe) and it.kind == "genexp":
            r = self.char_join(sep, it)
            if r is not MISSING:
                return r
        if isinstance(it, STRS) and not isinstance(it, str):
            if sep == "":
                return it
            raise Unsupported("join over characters")
        if isinstance(it, VList) and len(it.items) == 1 and isinstance(it.items[0], CharSeq):
            cs = it.items[0]
            if sep:
                raise Unsupported("join of characters with separator")
            return cs.joined(self)
        items = self.items_of(it)
        for x in items:
            if isinstance(x, EntrySeg):
                raise Refine(x.key)
            if not isinstance(x, Seg) and not isinstance(x, STRS):
                self.I.raise_(TypeError, "sequence item: expected str instance")
        if any(isinstance(x, Seg) for x in items):
            r = self.rejoined(sep, items)
            return SCat([JoinPart(sep, items)]) if r is None else r
        out = []
        for i, x in enumerate(items):
            if i and sep:
                out.append(sep)
            out.append(x)
        return self.concat(out)

    def rejoined(self, sep, items):
        """The tokens of a text, each possibly changed, joined with blanks: a
        text whose own tokens are the changed ones with more blanks between
        them (and foreign words possibly in several pieces, see audit.py)."""
        if not sep or not sep.isspace() or len(items) != 1 or not isinstance(items[0], TokSeg):
            return None
        seg = items[0]
        a = seg.seq.auto
        if any(k != "map" for k, _ in seg.stages) or a.style not in ("W", "s"):
            return None
        if a.numeral:
            return self.rejoined_numeral(seg)
        if not a.closed():
            return None
        img = self.image(seg)
        if img is None:
            return None
        vocab = frozenset().union(*(t for t in img.values())) | frozenset().union(*(e.tok.excl for e in a.edges))
        if not all(isinstance(w, str) for w in vocab):
            return None
        audit.codepoints(vocab)
        wordy = a.wordy()
        for lab, ws in img.items():
            for w in ws:
                # still one token, that is not blank, no numeral and without removed characters
                pieces = re.split(r"(\W)" if a.style == "W" else r"(\s+)", w)
                if [x for x in pieces if x.strip()] != [w] or w.isdecimal() or set(w) & set("'’\xad"):
                    raise Unsupported(f"changed token {w!r}")
        f = dict(absent=seg.seq.absent | {"\xad"})
        f.update(nonblank=True if wordy else None, decimal=False if wordy else None, nonempty=True if wordy else None,
                 any=True, removable=frozenset(), stages=seg.stages, tid=(seg.seq.id, "joined"))
        return AText(seg.seq, a.style, f)

    def rejoined_numeral(self, seg):
        """blanks numeral blanks, each token changed by ops that leave digits
        alone, joined with blanks: the same numeral."""
        ctx = self.ctx
        audit.decimals()
        for tok in (e.tok for e in seg.seq.auto.edges):
            def one():
                v, _ = tok.make(ctx)
                for _, f in seg.stages:
                    v = f(v)
                return isinstance(v, SStr) and all(o == ("NORM",) or keeps_normal(o) for o in canon_chain(v.chain)) or (
                    isinstance(v, str) and tok.cls.nonblank is False and not v.strip())
            save = ctx.pkey
            ctx.pkey = (ctx.pkey, "image", tok.label)
            try:
                res = ctx.explore(one)
            finally:
                ctx.pkey = save
            if not all(res):
                return None
        f = dict(absent=frozenset("'’\xad"), removable=frozenset(), decimal=True, nonblank=True, nonempty=True)
        return AText(seg.seq, seg.seq.auto.style, f)

    def image(self, seg):
        """What the pipeline makes of the words the automaton names:
        label -> set of strings; and its effect on the others is one that
        keeps blank tokens blank and normalises (None: something else)."""
        ctx = self.ctx
        out = {}
        toks = {}
        for e in seg.seq.auto.edges:
            toks.setdefault((e.tok.label, e.tok.words), e.tok)
        for tok in toks.values():
            def one():
                v, _ = tok.make(ctx)
                for _, f in seg.stages:
                    v = f(v)
                if isinstance(v, str):
                    return frozenset([v])
                if not isinstance(v, SStr):
                    return None
                if tok.words is not None:
                    return ctx.possible(v)
                c = canon_chain(v.chain)
                if not c or c[0] != ("NORM",) or canon_chain(c + NORM) != c:
                    return None
                return frozenset()
            save = ctx.pkey
            ctx.pkey = (ctx.pkey, "image", tok.label)
            try:
                res = ctx.explore(one)
            finally:
                ctx.pkey = save
            if any(r is None for r in res):
                return None
            if tok.words is not None:
                out[(tok.label, tok.words)] = frozenset().union(*res)
        return out

    # comprehension over the characters of a symbolic string
    def char_join(self, sep, pipe):
        e, fr = pipe.args
        if len(e.generators) != 1 or sep != "":
            return MISSING
        g = e.generators[0]
        it = self.I.ev(g.iter, fr)
        if isinstance(it, SStr):
            return self.char_op(e, g, fr, it)
        return MISSING

    def char_op(self, e, g, fr, s):
        if self.ctx.finite(s) is None:
            # opaque string: only a pure filter that keeps the character
            if not (isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
                raise Unsupported("character comprehension on an opaque string")
        opid = self.char_opid(e, g, fr)
        return self.strop(s, ("char", opid))

    def char_opid(self, e, g, fr):
        key = (ast.dump(g.target), ast.dump(e.elt), tuple(ast.dump(c) for c in g.ifs))
        env = {}
        for n in ast.walk(ast.Tuple([e.elt] + list(g.ifs), ast.Load())):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not (
                    isinstance(g.target, ast.Name) and n.id == g.target.id):
                v = self.I.load(n.id, fr)
                if v in self.builtins.values() if not isinstance(v, HObj) else False:
                    continue
                if isinstance(v, (VFunc, VObj, VModule, VClass)):
                    raise Unsupported("user function in character comprehension")
                if isinstance(v, (VList, VDict, VSet)):
                    k = self.I.contentkey(v)
                    if k is None:
                        raise Unsupported("symbolic container in character comprehension")
                    v = v.items if isinstance(v, VList) else v.d
                env[n.id] = v
        key += (tuple(sorted((k, id(v) if not is_concrete(v) else v) for k, v in env.items())),) if all(
            is_concrete(v) or not isinstance(v, dict) for v in env.values()) else (object(),)
        if key in self.charops:
            return self.charops[key]
        comp = ast.fix_missing_locations(ast.Expression(ast.Lambda(
            ast.arguments([], [ast.arg("_s")], None, [], [], None, []),
            ast.ListComp(e.elt, [ast.comprehension(g.target, ast.Name("_s", ast.Load()), list(g.ifs), 0)]))))
        fn = eval(compile(comp, "<char comprehension of /repo>", "eval"), dict(env))
        opid = f"char{len(self.charops)}"
        if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
            kept = fn("".join(map(chr, list(range(0xD800)) + list(range(0xE000, sys.maxunicode + 1)))))
            ks = set(kept)
            if all((c in ks) != (c in _DROP_MN) for c in map(chr, range(sys.maxunicode + 1))
                   if not 0xD800 <= ord(c) < 0xE000):
                opid = "dropMn"
        OPS[opid] = fn
        self.charops[key] = opid
        self.keep = getattr(self, "keep", [])
        self.keep.append(env)
        return opid

    # ------------------------------------------------------------ operators
    def binop(self, op, a, b):
        t = type(op)
        if isinstance(a, SBool):
            a = self.I.truth(a)
        if isinstance(b, SBool):
            b = self.I.truth(b)
        if t is ast.Add:
            if isinstance(a, STRS) and isinstance(b, STRS):
                return self.concat([a, b])
            if isinstance(a, VList):
                if not isinstance(b, VList):
                    self.I.raise_(TypeError, "can only concatenate list")
                return self.ctx.list(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and (isinstance(a, SInt) or isinstance(b, SInt)):
            return self.int_op(t, a, b)
        if is_concrete(a) and is_concrete(b):
            try:
                if t is ast.Pow and isinstance(b, int) and b > 10000:
                    raise Unsupported("huge power")
                return BINOPS[t](a, b)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
                self.I.raise_(type(e), *e.args)
        if t is ast.Mult and isinstance(a, VList) and isinstance(b, int):
            return self.ctx.list(a.items * b)
        if t is ast.Mod and isinstance(a, str):
            args = b if isinstance(b, tuple) else (b,)
            parts = re.split(r"(%[sd])", a)
            out, k = [], 0
            for p in parts:
                if p in ("%s", "%d"):
                    out.append(self.to_str(args[k]))
                    k += 1
                elif "%" in p:
                    raise Unsupported("% format")
                else:
                    out.append(p)
            return self.concat(out)
        if isinstance(a, (VSet, frozenset)) and isinstance(b, (VSet, frozenset)):
            x, y = self.setof(a), self.setof(b)
            r = {ast.BitOr: x | y, ast.BitAnd: x & y, ast.Sub: x - y, ast.BitXor: x ^ y}.get(t)
            if r is not None:
                return self.ctx.new(VSet, d={k: None for k in sorted(r, key=repr)})
        if isinstance(a, VDict) and isinstance(b, VDict) and t is ast.BitOr:
            return self.ctx.new(VDict, d={**a.d, **b.d})
        if isinstance(a, (SStr, NumStr, SCat, SOp, AText)) or isinstance(b, (SStr, NumStr, SCat, SOp, AText)):
            if t is ast.Add and (a is None or b is None or isinstance(a, (int, SInt)) or isinstance(b, (int, SInt))):
                self.I.raise_(TypeError, "unsupported operand")
        if a is None or b is None:
            self.I.raise_(TypeError, "unsupported operand type(s)")
        raise Unsupported(f"{t.__name__} of {type(a).__name__} and {type(b).__name__}")

    def int_op(self, t, a, b):
        x, y = term(a), term(b)
        if t is ast.Add:
            return mk_int(x + y)
        if t is ast.Sub:
            return mk_int(x - y)
        if t is ast.Mult:
            if isinstance(a, SInt) and isinstance(b, SInt):
                return self.product(a, b)
            return mk_int(x * y)
        if t in (ast.FloorDiv, ast.Mod) and isinstance(y, int) and y > 0:
            return mk_int(x / y if t is ast.FloorDiv else x % y)
        if t is ast.Pow and isinstance(x, int) and isinstance(b, SInt):
            raise Unsupported("symbolic exponent")
        if t is ast.Pow and isinstance(y, int) and 0 <= y <= 3:
            r = 1
            for _ in range(y):
                r = self.binop(ast.Mult(), r, a)
            return r
        raise Unsupported(f"integer {t.__name__}")

    def product(self, a, b):
        """Product of two unknowns: exact when one is determined by the path,
        otherwise a fresh value with sound bounds."""
        ctx = self.ctx
        v = ctx.int_var("prod")
        x, y = a.t, b.t
        if ctx.valid(z3.And(x >= 0, y >= 0)):
            ctx.assume(v >= 0)
            ctx.assume(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(v >= x, v >= y)))
            ctx.assume(z3.Implies(z3.Or(x == 0, y == 0), v == 0))
            ctx.guess("nonlinear product abstracted")
            return SInt(v)
        ctx.guess("nonlinear product abstracted")
        return SInt(v)

    def eq(self, a, b):
        """== ; returns bool or SBool, may fork for strings."""
        if type(a) is AnyStr:
            raise Refine(a.origin)
        if type(b) is AnyStr:
            raise Refine(b.origin)
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
            if isinstance(a, SBool):
                a = self.I.truth(a)
            if isinstance(b, SBool):
                b = self.I.truth(b)
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return mk_bool(term(a) == term(b))
        if is_concrete(a) and is_concrete(b):
            return a == b
        if isinstance(a, STRS) and isinstance(b, STRS):
            return self.str_eq(a, b)
        if isinstance(a, STRS) != isinstance(b, STRS):
            return False
        if a is None or b is None:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.I.truth(self.eq(x, y)) for x, y in zip(a, b))
        if isinstance(a, VList) and isinstance(b, VList):
            if any(isinstance(x, Seg) for x in a.items + b.items):
                if not a.items:
                    return self.list_empty(b)
                if not b.items:
                    return self.list_empty(a)
                raise Unsupported("equality of symbolic lists")
            if len(a.items) != len(b.items):
                return False
            return all(self.I.truth(self.eq(x, y)) for x, y in zip(a.items, b.items))
        if isinstance(a, (VDict, VSet)) and isinstance(b, (VDict, VSet)):
            if list(a.d) and set(a.d) != set(b.d):
                return False
            if isinstance(a, VSet) or isinstance(b, VSet):
                return set(a.d) == set(b.d) and type(a) is type(b)
            if set(a.d) != set(b.d):
                return False
            return all(self.I.truth(self.eq(a.d[k], b.d[k])) for k in a.d)
        if isinstance(a, HObj) or isinstance(b, HObj):
            return a is b
        if type(a) is not type(b):
            return False
        raise Unsupported(f"equality of {type(a).__name__}")

    def str_eq(self, a, b):
        if isinstance(a, str) and not isinstance(b, str):
            a, b = b, a
        if isinstance(b, str):
            if isinstance(a, (SStr, NumStr)):
                return self.ctx.member(a, frozenset([b]))
            if isinstance(a, (AText, SOp)):
                if b == "":
                    return self.is_empty_str(a)
            if isinstance(a, SCat):
                if b == "":
                    return self.is_empty_str(a)
                if any(isinstance(p, str) and p not in b for p in a.parts):
                    return False
            raise Unsupported(f"comparison of {a} with {b!r}")
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a.atom is b.atom:
                if canon_chain(a.chain) == canon_chain(b.chain):
                    return True
                d = self.ctx.dom[a.atom.id]
                if isinstance(d, Fin):
                    parts = {}
                    for x in sorted(d.s):
                        parts.setdefault(apply_chain(a.chain, x) == apply_chain(b.chain, x), []).append(x)
                    v = list(parts)
                    i = self.ctx.choose(len(v))
                    self.ctx.refine(a.atom, parts[v[i]])
                    return v[i]
                raise Unsupported("equality of two forms of one opaque string")
            pa, pb = self.ctx.possible(a), self.ctx.possible(b)
            if pa is not None and pb is not None and not (pa & pb):
                return False
            if pa is not None and len(pa & (pb or pa)) <= 64:
                w = self.ctx.finite(a)(a, lambda w: w if pb is None or w in pb else None)
                return False if w is None else self.ctx.member(b, frozenset([w]))
            raise Unsupported("equality of two unknown strings")
        if isinstance(a, NumStr) and isinstance(b, NumStr):
            return mk_bool(term(a.v) == term(b.v))
        if isinstance(a, NumStr) or isinstance(b, NumStr):
            n, s = (a, b) if isinstance(a, NumStr) else (b, a)
            if isinstance(s, SStr):
                p = self.ctx.possible(s)
                if p is not None and not any(w.isdecimal() for w in p):
                    return False
        if isinstance(a, AText) and isinstance(b, AText) and a.seq is b.seq and a.ops == b.ops and a.facts.get("tid") == b.facts.get("tid"):
            return True
        raise Unsupported("equality of unknown texts")

    def compare(self, op, a, b):
        if type(a) is AnyStr:
            raise Refine(a.origin)
        if type(b) is AnyStr:
            raise Refine(b.origin)
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = self.is_(a, b)
            return r if t is ast.Is else (not r)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            r = self.eq(a, b)
            return mk_bool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            r = self.contains(b, a)
            return mk_bool(z3.Not(r.t)) if isinstance(r, SBool) else (not r)
        if isinstance(a, SBool):
            a = self.I.truth(a)
        if isinstance(b, SBool):
            b = self.I.truth(b)
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return mk_bool(CMPOPS[t](term(a), term(b)))
        if is_concrete(a) and is_concrete(b):
            try:
                return CMPOPS[t](a, b)
            except TypeError as e:
                self.I.raise_(TypeError, *e.args)
        if a is None or b is None:
            self.I.raise_(TypeError, "ordering of None")
        raise Unsupported(f"ordering of {type(a).__name__} and {type(b).__name__}")

    def is_(self, a, b):
        if isinstance(a, SBool):
            a = self.I.truth(a)
        if isinstance(b, SBool):
            b = self.I.truth(b)
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, HObj) and isinstance(b, HObj):
            return a is b
        if isinstance(a, HObj) != isinstance(b, HObj):
            return False
        if a is b:
            return True
        if isinstance(a, type) and isinstance(b, type):
            return a is b
        raise Unsupported("identity of values")

    def setof(self, v):
        return set(v.d) if isinstance(v, VSet) else set(v)

    def contains(self, c, x):
        if type(c) is AnyStr:
            raise Refine(c.origin)
        if type(x) is AnyStr:
            raise Refine(x.origin)
        if isinstance(c, (VDict, VSet)):
            keys = c.d
        elif isinstance(c, VList):
            keys = c.items
        elif isinstance(c, (tuple, frozenset)):
            keys = c
        elif isinstance(c, VPipe) and c.kind in ("keys",):
            keys = c.args[0].d
        elif isinstance(c, VPipe) and c.kind == "values":
            keys = list(c.args[0].d.values())
        elif isinstance(c, STRS):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if not isinstance(x, STRS):
                self.I.raise_(TypeError, "'in <string>' requires string")
            return self.str_method(c, "__contains__", [x], {})
        elif isinstance(c, VObj):
            f = self.class_attr(c.cls, "__contains__")
            if f is MISSING:
                raise Unsupported("in object")
            return self.I.truth(self.I.call(f, [c, x], {}))
        else:
            raise Unsupported(f"in {type(c).__name__}")
        if isinstance(x, (SStr, NumStr)):
            if all(is_concrete(k) for k in keys):
                return self.ctx.member(x, frozenset(k for k in keys if isinstance(k, str)))
        elif is_concrete(x) and all(is_concrete(k) for k in keys):
            try:
                return x in keys
            except TypeError as e:
                self.I.raise_(TypeError, *e.args)
        elif isinstance(x, (AText, SOp, SCat)) and all(is_concrete(k) for k in keys):
            h = getattr(x, "facts", {}).get("member")
            if h is not None:
                return h(self, x, frozenset(keys))
            return any(self.I.truth(self.eq(x, k)) for k in keys if isinstance(k, str))
        for k in keys:
            if isinstance(k, Seg):
                raise Unsupported("membership in a symbolic list")
            if self.I.truth(self.eq(k, x)):
                return True
        return False

    # ------------------------------------------------------------ subscripts
    def dict_lookup(self, d, k, default=MISSING):
        """d[k] for a possibly symbolic string key."""
        if type(k) is AnyStr:
            raise Refine(k.origin)
        ctx = self.ctx
        if is_concrete(k):
            if k in d:
                return d[k]
            return MISSING
        if isinstance(k, NumStr):
            if not ctx.member(k, frozenset(x for x in d if isinstance(x, str))):
                return MISSING
            raise Unsupported("number string as key")
        if isinstance(k, tuple):
            return self.dict_lookup(d, self.concretize(k))
        if not isinstance(k, SStr):
            raise Unsupported("symbolic key")
        if not ctx.member(k, frozenset(x for x in d if isinstance(x, str))):
            return MISSING
        poss = ctx.possible(k)
        if poss is None:
            raise Unsupported("lookup of an opaque string")
        poss = [w for w in poss if w in d]
        vals = {w: d[w] for w in poss}
        if not all(is_concrete(v) for v in vals.values()):
            ids = {id(v) for v in vals.values()}
            if len(ids) == 1:
                return next(iter(vals.values()))
            w = ctx.finite(k)(k, lambda w: id(d[w]))
            return next(v for v in vals.values() if id(v) == w)
        distinct = {(type(v), v) for v in vals.values()}
        if len(distinct) == 1:
            return next(iter(vals.values()))
        if all(isinstance(v, str) for v in vals.values()):
            return self.tab(k, vals)
        if all(type(v) is int for v in vals.values()):
            a = k.atom
            dm = ctx.dom[a.id]
            if a.vals is not None:
                if isinstance(dm, Fin):
                    dom, ch = dm.s, k.chain
                else:
                    dom, ch = dm.normfin, canon_chain(k.chain)[1:]
                if all(d[apply_chain(ch, x)] == a.vals[x] for x in dom):
                    return mk_int(a.var)
            if ctx.fuzzy and len(distinct) > 2:
                key = ("fuzz", a.id, tuple(sorted(vals.items())))
                v = ctx.fuzz.get(key)
                if v is None:
                    vs = sorted(set(vals.values()))
                    t = ctx.int_var("val")
                    ctx.assume(z3.And(t >= vs[0], t <= vs[-1]) if vs[-1] - vs[0] == len(vs) - 1 or len(vs) > 60
                               else z3.Or([t == x for x in vs]))
                    v = SInt(t)
                    ctx.setattr_ctx("fuzz", {**ctx.fuzz, key: v})
                return v
        w = ctx.finite(k)(k, lambda w: (type(d[w]).__name__, d[w]))
        return w[1]

    def getitem(self, o, k):
        I = self.I
        if isinstance(o, VDict):
            v = self.dict_lookup(o.d, k)
            if v is MISSING:
                I.raise_(KeyError, k)
            return v
        if isinstance(o, VList):
            if isinstance(k, slice):
                return self.list_slice(o, k)
            return self.list_get(o, k)
        if isinstance(o, tuple):
            if isinstance(k, slice):
                return o[k]
            k = self.concretize(k)
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                I.raise_(type(e), *e.args)
        if isinstance(o, STRS):
            return self.str_getitem(o, k)
        if isinstance(o, VObj):
            f = self.class_attr(o.cls, "__getitem__")
            if f is not MISSING:
                return I.call(f, [o, k], {})
        if isinstance(o, type) or isinstance(o, VSpecial):
            return o
        if o is None:
            I.raise_(TypeError, "'NoneType' object is not subscriptable")
        raise Unsupported(f"subscript of {type(o).__name__}")

    def affix_slice(self, s, parts):
        """The slice that takes off an ending or beginning the string is known
        to have."""
        start, stop, step = parts
        if step in (None, 1) and isinstance(s, SStr) and not isinstance(self.ctx.dom[s.atom.id], Fin):
            q = ("endswith", "removesuffix", -stop) if start in (None, 0) and stop is not None and stop < 0 else (
                "startswith", "removeprefix", start) if stop is None and start is not None and start > 0 else None
            for (chain, f), r in self.ctx.dom[s.atom.id].facts if q else ():
                if r and chain == canon_chain(s.chain) and f[0] == q[0] and len(f[1]) == 1 and isinstance(f[1][0], str) and len(f[1][0]) == q[2]:
                    return ("m", q[1], f[1])
        return None

    def str_getitem(self, s, k):
        if type(s) is AnyStr:
            raise Refine(s.origin)
        I = self.I
        if isinstance(k, slice):
            parts = [k.start, k.stop, k.step]
            if isinstance(s, (AText, SCat, SOp)):
                h = getattr(s, "facts", {}).get("slice") if not isinstance(s, SCat) else None
                if h is not None:
                    return h(self, s, k)
                return self.cut_slice(s, k)
            if not all(p is None or isinstance(p, int) for p in parts):
                raise Unsupported("symbolic slice bounds")
            if isinstance(s, str):
                return s[k]
            return self.strop(s, self.affix_slice(s, parts) or ("slice", tuple(parts)))
        if isinstance(s, str) and isinstance(k, int):
            try:
                return s[k]
            except IndexError as e:
                I.raise_(IndexError, *e.args)
        if isinstance(s, SStr) and isinstance(k, int):
            sp = self.ctx.finite(s)
            if sp is not None:
                def f(w):
                    try:
                        return w[k]
                    except IndexError:
                        return None
                r = sp(s, f)
                if r is None:
                    I.raise_(IndexError, "string index out of range")
                return r
        raise Unsupported("index of a symbolic string")

    def setitem(self, o, k, v):
        if isinstance(o, VDict):
            if not is_concrete(k):
                k = self.concretize(k)
            d = dict(o.d)
            d[k] = v
            self.ctx.set(o, "d", d)
            return
        if isinstance(o, VList):
            if isinstance(k, slice):
                raise Unsupported("slice assignment")
            i = self.list_pos(o, k)
            its = list(o.items)
            its[i] = v
            self.ctx.set(o, "items", tuple(its))
            return
        if isinstance(o, VObj):
            f = self.class_attr(o.cls, "__setitem__")
            if f is not MISSING:
                self.I.call(f, [o, k, v], {})
                return
        raise Unsupported("item assignment")

    def delitem(self, o, k):
        if isinstance(o, VDict):
            k = self.concretize(k)
            if k not in o.d:
                self.I.raise_(KeyError, k)
            d = dict(o.d)
            del d[k]
            self.ctx.set(o, "d", d)
            return
        if isinstance(o, VList) and not isinstance(k, slice):
            self.list_pop(o, k)
            return
        if isinstance(o, VList) and k == slice(None, None, None):
            self.ctx.set(o, "items", ())
            return
        raise Unsupported("del item")

    # ----------------------------------------------------------------- lists
    def list_append(self, l, v):
        self.ctx.set(l, "items", l.items + (v,))

    def list_extend(self, l, it):
        self.ctx.set(l, "items", l.items + tuple(self.items_of(it)))

    def seg_empty(self, s):
        """True / False / None (unknown)"""
        if isinstance(s, EntrySeg):
            raise Refine(s.key)
        if isinstance(s, TraceSeg):
            return False
        if isinstance(s, SumSeg):
            return None if s.empty else False
        if isinstance(s, TokSeg):
            if any(k == "filter" for k, _ in s.stages):
                return None
            return False if s.seq.auto.nonempty else None
        return None

    def list_empty(self, l):
        unknown = []
        for i, x in enumerate(l.items):
            if not isinstance(x, Seg):
                return False
            e = self.seg_empty(x)
            if e is False:
                return False
            if e is None:
                unknown.append(i)
        if not unknown:
            return True
        if len(unknown) == 1 and isinstance(l.items[unknown[0]], SumSeg):
            i = unknown[0]
            s = l.items[i]
            if self.ctx.choose(2) == 0:
                n = SumSeg(s.kinds, s.first, s.last, s.pairs, False)
                self.ctx.set(l, "items", l.items[:i] + (n,) + l.items[i + 1:])
                return False
            self.ctx.set(l, "items", l.items[:i] + l.items[i + 1:])
            return True
        self.ctx.guess("emptiness of a ghost list guessed both ways")
        return self.ctx.choose(2) == 0

    def materialize_end(self, l, last=True):
        """Make the last (first) item of the list a plain element; False when
        the list is empty."""
        ctx = self.ctx
        while True:
            if not l.items:
                return False
            i = len(l.items) - 1 if last else 0
            x = l.items[i]
            if not isinstance(x, Seg):
                return True
            if isinstance(x, EntrySeg):
                raise Refine(x.key)
            rest = l.items[:i] if last else l.items[1:]
            if isinstance(x, SumSeg):
                opts = sorted(x.last if last else x.first, key=repr) + ([None] if x.empty else [])
                k = opts[ctx.choose(len(opts))]
                if k is None:
                    ctx.set(l, "items", rest)
                    continue
                el = self.I.driver.instantiate(x.kinds[k])
                if last:
                    pl = frozenset(a for a, b in x.pairs if b == k)
                    emp = k in x.first
                    if not pl and not emp:
                        raise Infeasible()
                    s2 = (SumSeg(x.kinds, x.first, pl, x.pairs, emp),) if pl else ()
                    ctx.set(l, "items", rest + s2 + (el,))
                else:
                    pf = frozenset(b for a, b in x.pairs if a == k)
                    emp = k in x.last
                    if not pf and not emp:
                        raise Infeasible()
                    s2 = (SumSeg(x.kinds, pf, x.last, x.pairs, emp),) if pf else ()
                    ctx.set(l, "items", (el,) + s2 + rest)
                return True
            if isinstance(x, TraceSeg) and last:
                rest2, el = self.I.driver.trace_last(x)
                ctx.set(l, "items", rest + rest2 + (el,))
                return True
            raise Unsupported(f"end of {x}")

    def list_pos(self, l, k):
        n = len(l.items)
        k = self.concretize(k)
        if isinstance(k, bool):
            k = int(k)
        if not isinstance(k, int):
            self.I.raise_(TypeError, "list indices must be integers")
        if not any(isinstance(x, Seg) for x in l.items):
            if not -n <= k < n:
                self.I.raise_(IndexError, "list index out of range")
            return k % n
        if k >= 0:
            for j in range(k + 1):
                if j >= len(l.items):
                    self.I.raise_(IndexError, "list index out of range")
                if isinstance(l.items[j], Seg):
                    if j == 0 and self.materialize_end(l, False):
                        continue
                    if not l.items:
                        self.I.raise_(IndexError, "list index out of range")
                    raise Unsupported("index into a symbolic list")
            return k
        for j in range(1, -k + 1):
            if j > len(l.items):
                self.I.raise_(IndexError, "list index out of range")
            if isinstance(l.items[-j], Seg):
                if j == 1 and self.materialize_end(l, True):
                    continue
                if not l.items:
                    self.I.raise_(IndexError, "list index out of range")
                raise Unsupported("index into a symbolic list")
        return len(l.items) + k

    def list_get(self, l, k):
        if k == -1 and l.items and isinstance(l.items[-1], TraceSeg):
            v = self.I.driver.trace_peek(l.items[-1])
            if v is not MISSING:
                return v
        i = self.list_pos(l, k)
        return l.items[i]

    def list_pop(self, l, k=-1):
        if not l.items:
            self.I.raise_(IndexError, "pop from empty list")
        if k in (-1, 0):
            if not self.materialize_end(l, k == -1):
                self.I.raise_(IndexError, "pop from empty list")
            v = l.items[k]
            self.ctx.set(l, "items", l.items[:-1] if k == -1 else l.items[1:])
            return v
        i = self.list_pos(l, k)
        v = l.items[i]
        self.ctx.set(l, "items", l.items[:i] + l.items[i + 1:])
        return v

    @staticmethod
    def reversed_items(items):
        out = []
        for x in reversed(items):
            if isinstance(x, SumSeg):
                x = SumSeg(x.kinds, x.last, x.first, type(x.pairs)((b, a) for a, b in x.pairs), x.empty)
            elif isinstance(x, Seg):
                raise Unsupported("reversed symbolic list")
            out.append(x)
        return type(items)(out)

    def list_slice(self, l, k):
        if not any(isinstance(x, Seg) for x in l.items):
            if all(p is None or isinstance(p, int) for p in (k.start, k.stop, k.step)):
                return self.ctx.list(l.items[k])
            raise Unsupported("symbolic slice")
        if (k.start, k.stop, k.step) == (None, None, None):
            return self.ctx.list(l.items)
        if (k.start, k.stop, k.step) == (None, None, -1):
            return self.ctx.list(self.reversed_items(l.items))
        if k.step in (None, 1) and k.start is None and isinstance(k.stop, int) and k.stop < 0:
            c = self.ctx.list(l.items)
            for _ in range(-k.stop):
                if not self.materialize_end(c, True):
                    break
                self.ctx.set(c, "items", c.items[:-1])
            return c
        if k.step in (None, 1) and k.stop is None and isinstance(k.start, int) and k.start >= 0:
            c = self.ctx.list(l.items)
            for _ in range(k.start):
                if not self.materialize_end(c, False):
                    break
                self.ctx.set(c, "items", c.items[1:])
            return c
        raise Unsupported("slice of a symbolic list")

    def list_method(self, l, name, args, kw):
        ctx, I = self.ctx, self.I
        if name == "append":
            self.list_append(l, args[0])
            return None
        if name == "extend":
            self.list_extend(l, args[0])
            return None
        if name == "pop":
            return self.list_pop(l, args[0] if args else -1)
        if name == "clear":
            ctx.set(l, "items", ())
            return None
        if name == "copy":
            return ctx.list(l.items)
        if name == "insert":
            k = args[0]
            if k == 0:
                ctx.set(l, "items", (args[1],) + l.items)
                return None
            if isinstance(k, int) and not any(isinstance(x, Seg) for x in l.items):
                its = list(l.items)
                its.insert(k, args[1])
                ctx.set(l, "items", tuple(its))
                return None
            raise Unsupported("insert")
        if name == "reverse" and not any(isinstance(x, Seg) for x in l.items):
            ctx.set(l, "items", tuple(reversed(l.items)))
            return None
        if name == "count":
            return self.fold_count(l, args[0])
        if name == "index":
            if any(isinstance(x, Seg) for x in l.items):
                raise Unsupported("index() of symbolic list")
            for i, x in enumerate(l.items):
                if I.truth(self.eq(x, args[0])):
                    return i
            I.raise_(ValueError, "not in list")
        if name == "remove":
            if any(isinstance(x, Seg) for x in l.items):
                raise Unsupported("remove() of symbolic list")
            for i, x in enumerate(l.items):
                if I.truth(self.eq(x, args[0])):
                    ctx.set(l, "items", l.items[:i] + l.items[i + 1:])
                    return None
            I.raise_(ValueError, "not in list")
        if name == "sort" and all(is_concrete(x) for x in l.items) and not kw:
            ctx.set(l, "items", tuple(sorted(l.items)))
            return None
        raise Unsupported(f"list.{name}")

    PRELUDE = '''
def count(lst, x):
    n = 0
    for e in lst:
        if e == x:
            n += 1
    return n
def sum_(it, start):
    n = start
    for e in it:
        n += e
    return n
def any_(it):
    for e in it:
        if e:
            return True
    return False
def all_(it):
    for e in it:
        if not e:
            return False
    return True
def len_(it):
    n = 0
    for e in it:
        n += 1
    return n
def list_(it):
    out = []
    for e in it:
        out.append(e)
    return out
def max_(it, key):
    first = True
    for e in it:
        k = key(e)
        if first or k > bk:
            best = e
            bk = k
            first = False
    if first:
        raise ValueError("max() arg is an empty sequence")
    return best
def min_(it, key):
    first = True
    for e in it:
        k = key(e)
        if first or k < bk:
            best = e
            bk = k
            first = False
    if first:
        raise ValueError("min() arg is an empty sequence")
    return best
def ident(x):
    return x
'''

    def prelude(self, name, *args):
        if not hasattr(self, "_prelude"):
            ctx = self.ctx
            with ctx.importing():
                fr = ctx.new(Frame, vars={"__name__": "<prelude>"}, parent=None, name="<prelude>", globals_=None,
                             nonlocals=set(), globalnames=set(), locals_=None)
                fr.globals_ = fr
                self.I.block(ast.parse(self.PRELUDE).body, fr)
            self._prelude = fr
        f = self._prelude.vars[name]
        w = self.I.where
        r = self.I.run_func(f, self.I.bind(f, list(args), {}))
        self.I.where = w
        return r

    def fold_count(self, l, x):
        return self.prelude("count", l, x)

    # ------------------------------------------------------------- iterables
    def items_of(self, it):
        """All items (possibly with segments) of an iterable value."""
        if isinstance(it, VList):
            for x in it.items:
                if isinstance(x, EntrySeg):
                    raise Refine(x.key)
            return list(it.items)
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, (VDict, VSet)):
            return list(it.d)
        if isinstance(it, (range, frozenset)):
            return list(it)
        if isinstance(it, (map, filter, zip, list, set, dict)):
            return list(it)
        if isinstance(it, VPipe):
            k, a = it.kind, it.args
            if k == "genexp":
                return list(self.comprehension(a[0], a[1], "list").items)
            if k == "keys":
                return list(a[0].d)
            if k == "values":
                return list(a[0].d.values())
            if k == "items":
                return [(x, y) for x, y in a[0].d.items()]
            if k == "enumerate":
                its = self.items_of(a[0])
                if any(isinstance(x, Seg) for x in its):
                    raise Unsupported("materialised enumerate")
                return [(i + a[1], x) for i, x in enumerate(its)]
            if k == "map":
                its = self.items_of(a[1])
                f = a[0]
                return [self.map_seg(x, ("map", lambda e: self.I.call(f, [e], {}))) if isinstance(x, Seg)
                        else self.I.call(f, [x], {}) for x in its]
            if k == "filter":
                its = self.items_of(a[1])
                f = a[0]
                g = (lambda e: self.I.truth(e)) if f is None else (lambda e: self.I.truth(self.I.call(f, [e], {})))
                out = []
                for x in its:
                    if isinstance(x, Seg):
                        out.append(self.map_seg(x, ("filter", g)))
                    elif g(x):
                        out.append(x)
                return out
            if k == "reversed":
                return self.reversed_items(self.items_of(a[0]))
            if k == "zip":
                ls = [self.items_of(x) for x in a]
                if any(isinstance(x, Seg) for l in ls for x in l):
                    raise Unsupported("zip of symbolic lists")
                return [tuple(t) for t in zip(*ls)]
            if k == "iter":
                return list(a[0].v)
            if k == "chain":
                return [x for y in a for x in self.items_of(y)]
        if isinstance(it, VCell):
            return list(it.v)
        if isinstance(it, (SStr, NumStr)):
            return list(self.concretize(it))
        if it is None or isinstance(it, (int, SInt)):
            self.I.raise_(TypeError, "object is not iterable")
        raise Unsupported(f"iteration over {type(it).__name__}")

    def map_seg(self, seg, stage):
        if isinstance(seg, TokSeg):
            return TokSeg(seg.seq, seg.stages + (stage,))
        raise Unsupported(f"mapping over {seg}")

    def unpack(self, v):
        its = self.items_of(v)
        if any(isinstance(x, Seg) for x in its):
            raise Unsupported("unpacking a symbolic list")
        return its

    def comprehension(self, e, fr, kind):
        I, ctx = self.I, self.ctx
        names, _, _ = assigned_names([ast.Expr(g.target) for g in e.generators])
        cf = ctx.new(Frame, vars={}, parent=fr, name=fr.name + "<comp>", globals_=fr.globals_, nonlocals=set(),
                     globalnames=set(), locals_=frozenset(names))
        out = []
        outd = {}

        def emit():
            if kind == "dict":
                k = I.ev(e.key, cf)
                if not is_concrete(k):
                    k = self.concretize(k)
                outd[k] = I.ev(e.value, cf)
            else:
                out.append(I.ev(e.elt, cf))

        def rec(i):
            if i == len(e.generators):
                emit()
                return
            g = e.generators[i]
            it = I.ev(g.iter, fr if i == 0 else cf)
            if isinstance(it, SStr) and i == 0 and len(e.generators) == 1 and kind == "list":
                p = ctx.possible(it)
                if p is None or len(p) > 1:
                    out.append(CharSeq(it, self.char_opid(e, g, fr)))
                    return
            enum0 = None
            if isinstance(it, VPipe) and it.kind == "enumerate":
                inner = self.items_of(it.args[0])
                if any(isinstance(x, Seg) for x in inner):
                    raise Unsupported("comprehension over an enumerated symbolic list")
            items = self.items_of(it)
            if any(isinstance(x, Seg) for x in items):
                if kind != "list" or len(e.generators) != 1:
                    raise Unsupported("nested comprehension over a symbolic list")
                for x in items:
                    if isinstance(x, Seg):
                        out.append(self.lazy_map(e, g, fr, cf, x))
                    else:
                        I.assign(g.target, x, cf)
                        if all(I.truth(I.ev(c, cf)) for c in g.ifs):
                            emit()
                return
            for x in items:
                I.assign(g.target, x, cf)
                if all(I.truth(I.ev(c, cf)) for c in g.ifs):
                    rec(i + 1)

        rec(0)
        if kind == "list":
            return ctx.list(out)
        if kind == "set":
            return self.make_set(out)
        return ctx.new(VDict, d=outd)

    def lazy_map(self, e, g, fr, cf, seg):
        """[elt for target in seg if conds]: evaluated element by element when
        the result is consumed; the element code is required to be pure, and
        its free variables are frozen now."""
        I, ctx = self.I, self.ctx
        free = {n.id for x in [e.elt] + g.ifs for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        frozen = {}
        f = fr
        while f is not None and f is not f.globals_:
            for n in free:
                if n not in frozen and n in f.vars and n not in cf.locals_:
                    frozen[n] = f.vars[n]
            f = f.parent
        for v in frozen.values():
            if type(v) is Poison:
                I.driver.need_live(v)
        snap = ctx.new(Frame, vars=frozen, parent=None, name=fr.name, globals_=fr.globals_, nonlocals=set(),
                       globalnames=set(), locals_=frozenset(frozen))

        def run(x, exprs):
            mark, oid0 = len(ctx.log), ctx.oid
            c = ctx.new(Frame, vars={}, parent=snap, name=fr.name + "<comp>", globals_=fr.globals_, nonlocals=set(),
                        globalnames=set(), locals_=cf.locals_)
            I.assign(g.target, x, c)
            r = exprs(c)
            for o, field, _, _ in ctx.log[mark:]:
                if isinstance(o, HObj) and o.oid <= oid0 and not isinstance(o, Frame):
                    raise Unsupported("comprehension with side effects")
            return r

        ks = tuple((n, I.contentkey(v)) for n, v in sorted(frozen.items()))
        sk = (id(e), ks) if all(k is not None for _, k in ks) else None
        self.keep = getattr(self, "keep", [])
        self.keep.append(e)

        def stage(f, i):
            f.stagekey = sk and sk + (i,)
            return f

        for i, c in enumerate(g.ifs):
            seg = self.map_seg(seg, ("filter", stage(lambda x, c=c: run(x, lambda fr2: I.truth(I.ev(c, fr2))), i)))
        if not (isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id):
            seg = self.map_seg(seg, ("map", stage(lambda x: run(x, lambda fr2: I.ev(e.elt, fr2)), -1)))
        self.probe(seg)
        return seg

    def probe(self, seg):
        """The stages are evaluated when the list is consumed; see now that
        none of them raises an exception for any token the list may have."""
        if not isinstance(seg, TokSeg):
            return
        ctx, I = self.ctx, self.I
        keys = tuple((k, getattr(f, "stagekey", None)) for k, f in seg.stages)
        memo = None if any(k is None for _, k in keys) else (seg.seq.auto.name, keys, ctx.globalver)
        if memo in I.probed:
            return
        done = {}
        for e in seg.seq.auto.edges:
            t = e.tok
            done[(t.label, t.cls, t.words, t.excl, t.one)] = t

        for t in done.values():
            def one():
                v, _ = t.make(ctx)
                try:
                    for k, f in seg.stages:
                        if k == "map":
                            v = f(v)
                        elif not f(v):
                            break
                except PyExc as x:
                    ctx.feasible()
                    raise Unsupported(f"comprehension may raise {x}")
            save = ctx.pkey
            ctx.pkey = (ctx.pkey, "probe", t.label)
            try:
                ctx.explore(one)
            finally:
                ctx.pkey = save
        if memo is not None:
            I.probed.add(memo)

    def make_set(self, items):
        d = {}
        for x in items:
            if not is_concrete(x):
                x = self.concretize(x)
            d[x] = None
        return self.ctx.new(VSet, d=d)

    def set_update(self, s, it):
        d = dict(s.d)
        for x in self.unpack(it):
            d[self.concretize(x)] = None
        self.ctx.set(s, "d", d)

    # -------------------------------------------------------------- methods
    def method(self, o, name, args, kw):
        if isinstance(o, STRS):
            return self.str_method(o, name, args, kw)
        if isinstance(o, VList):
            return self.list_method(o, name, args, kw)
        if isinstance(o, VDict):
            return self.dict_method(o, name, args, kw)
        if isinstance(o, VSet):
            return self.set_method(o, name, args)
        if isinstance(o, (tuple, frozenset, int, bytes, float)):
            if name == "count" and isinstance(o, tuple):
                return self.fold_count(self.ctx.list(o), args[0])
            if all(is_concrete(a) for a in args) and is_concrete(o):
                try:
                    return self.I.lift(getattr(o, name)(*args, **kw))
                except Exception as e:  # noqa
                    self.I.raise_(type(e), *e.args)
        if isinstance(o, re.Pattern):
            return self.re_call(name, o, args, kw)
        raise Unsupported(f"method {name} of {type(o).__name__}")

    def dict_method(self, o, name, args, kw):
        if name == "get":
            v = self.dict_lookup(o.d, args[0])
            if v is MISSING:
                return args[1] if len(args) > 1 else kw.get("default")
            return v
        if name in ("keys", "values", "items"):
            return VPipe(name, self.ctx.new(VDict, d=o.d))
        if name == "copy":
            return self.ctx.new(VDict, d=dict(o.d))
        if name == "update":
            d = dict(o.d)
            if args:
                if isinstance(args[0], VDict):
                    d.update(args[0].d)
                else:
                    for p in self.unpack(args[0]):
                        k, v = self.unpack(p)
                        d[self.concretize(k)] = v
            d.update(kw)
            self.ctx.set(o, "d", d)
            return None
        if name == "setdefault":
            v = self.dict_lookup(o.d, args[0])
            if v is MISSING:
                v = args[1] if len(args) > 1 else None
                self.setitem(o, args[0], v)
            return v
        if name == "pop":
            k = self.concretize(args[0])
            if k in o.d:
                d = dict(o.d)
                v = d.pop(k)
                self.ctx.set(o, "d", d)
                return v
            if len(args) > 1:
                return args[1]
            self.I.raise_(KeyError, k)
        if name == "clear":
            self.ctx.set(o, "d", {})
            return None
        if name == "__contains__":
            return self.contains(o, args[0])
        if name == "__getitem__":
            return self.getitem(o, args[0])
        raise Unsupported(f"dict.{name}")

    def set_method(self, o, name, args):
        if name == "add":
            self.set_update(o, (args[0],))
            return None
        if name == "update":
            for a in args:
                self.set_update(o, a)
            return None
        if name in ("union", "intersection", "difference"):
            r = set(o.d)
            for a in args:
                r = getattr(r, name)(set(self.concretize(x) for x in self.unpack(a)))
            return self.ctx.new(VSet, d={k: None for k in sorted(r, key=repr)})
        if name == "copy":
            return self.ctx.new(VSet, d=dict(o.d))
        if name in ("discard", "remove"):
            k = self.concretize(args[0])
            if k in o.d:
                d = dict(o.d)
                del d[k]
                self.ctx.set(o, "d", d)
            elif name == "remove":
                self.I.raise_(KeyError, k)
            return None
        if name in ("issubset", "issuperset", "isdisjoint"):
            return getattr(set(o.d), name)(set(self.unpack(args[0])))
        raise Unsupported(f"set.{name}")

    # ----------------------------------------------------------- attributes
    def mro(self, c):
        out = [c]
        for b in c.bases if isinstance(c, VClass) else ():
            out.extend(self.mro(b) if isinstance(b, VClass) else [b])
        return out

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, VClass):
                if name in k.attrs:
                    return k.attrs[name]
        return MISSING

    def getattr(self, o, name):
        I = self.I
        if isinstance(o, VObj):
            if name in o.attrs:
                v = o.attrs[name]
                if type(v) is Poison:
                    I.driver.need_live(v)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.ctx.new(VDict, d=dict(o.attrs))
            v = self.class_attr(o.cls, name)
            if v is MISSING:
                I.raise_(AttributeError, name)
            return self.bind_attr(v, o, o.cls)
        if isinstance(o, VClass):
            if name == "__name__":
                return o.name
            v = self.class_attr(o, name)
            if v is MISSING:
                I.raise_(AttributeError, name)
            if isinstance(v, VSpecial) and v.kind == "classmethod":
                return BMethod(o, v.fn)
            if isinstance(v, VSpecial) and v.kind == "staticmethod":
                return v.fn
            return v
        if isinstance(o, VModule):
            if name in o.frame.vars:
                return o.frame.vars[name]
            if (o.name + "." + name) in I.modules:
                return I.modules[o.name + "." + name]
            I.raise_(AttributeError, name)
        if isinstance(o, STRS) or isinstance(o, (VList, VDict, VSet, tuple, frozenset, bytes, re.Pattern)):
            t = str if isinstance(o, STRS) else {VList: list, VDict: dict, VSet: set}.get(type(o), type(o))
            if not hasattr(t, name):
                I.raise_(AttributeError, name)
            return BMethod(o, name)
        if isinstance(o, VFunc):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            I.raise_(AttributeError, name)
        if isinstance(o, VExc):
            if name == "args":
                return tuple(o.args)
            I.raise_(AttributeError, name)
        if isinstance(o, VSpecial) and o.kind == "native":
            t = self.types.get(id(o))
            if t is not None and hasattr(t, name):
                def unbound(self_, *a, **k):
                    return I.call(I.getattr(self_, name), list(a), k)
                if name == "fromkeys":
                    return VSpecial("native", lambda it, v=None: self.ctx.new(
                        VDict, d={self.concretize(x): v for x in self.unpack(it)}))
                if name == "maketrans":
                    return VSpecial("native", lambda *a: self._maketrans(*a))
                return VSpecial("native", unbound)
        if o is None:
            I.raise_(AttributeError, f"'NoneType' object has no attribute {name!r}")
        if isinstance(o, (int, SInt)):
            if not hasattr(int, name):
                I.raise_(AttributeError, name)
            return BMethod(o, name)
        if type(o).__name__ == "module":
            if not hasattr(o, name):
                I.raise_(AttributeError, name)
            return getattr(o, name)
        if isinstance(o, re.Match):
            return BMethod(o, name)
        if isinstance(o, type):
            return getattr(o, name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def _maketrans(self, *a):
        a = [dict(x.d) if isinstance(x, VDict) else x for x in a]
        return self.I.lift(str.maketrans(*a))

    def bind_attr(self, v, o, cls):
        if isinstance(v, VFunc):
            return BMethod(o, v)
        if isinstance(v, VSpecial):
            if v.kind == "staticmethod":
                return v.fn
            if v.kind == "classmethod":
                return BMethod(cls, v.fn)
            if v.kind == "property":
                return self.I.call(v.fn, [o], {})
        return v

    def instantiate(self, c, args, kw):
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in self.mro(c)):
            return VExc(c, tuple(args))
        if any(isinstance(b, type) and b is not object for b in self.mro(c) if not isinstance(b, VClass)):
            raise Unsupported("class with native base")
        o = self.ctx.new(VObj, cls=c, attrs={})
        init = self.class_attr(c, "__init__")
        if init is not MISSING:
            self.I.call(init, [o] + list(args), kw)
        elif args or kw:
            self.I.raise_(TypeError, f"{c.name}() takes no arguments")
        return o

    def hashable(self, x):
        if isinstance(x, (VList, VDict, VSet)):
            self.I.raise_(TypeError, "unhashable type")
        if isinstance(x, tuple):
            for y in x:
                self.hashable(y)
        elif not isinstance(x, (str, int, bool, float, type(None), SStr, NumStr, SCat, SOp, AnyStr, AText, SInt, HObj)):
            raise Unsupported(f"hash of {type(x).__name__}")

    # ---------------------------------------------------------------- native
    def call_native(self, f, args, kw):
        I, ctx = self.I, self.ctx
        if isinstance(f, type) and issubclass(f, BaseException):
            return VExc(f, tuple(args))
        if f is importlib.import_module:
            n = self.concretize_lang(args[0])
            return I.import_module(n)
        if f is pkgutil.get_data:
            p = I.repo.joinpath(*args[0].split("."), args[1])
            return p.read_bytes() if p.is_file() else None
        if f in (functools.lru_cache, functools.cache) or (
                f is functools.wraps):
            if f is functools.wraps:
                return VSpecial("native", lambda g: g)
            def cached(g):
                if not isinstance(g, VFunc) or g.is_gen:
                    raise Unsupported("cache of something else than a function")
                g.attrs["\0cached"] = True
                return g
            ctx.notes.add("a cached function is called again; what it returns may not be written to")
            if args and isinstance(args[0], HObj):
                return cached(args[0])
            return VSpecial("native", cached)
        if f is functools.partial:
            return VSpecial("partial", (args[0], args[1:], kw))
        if f is functools.reduce:
            its = self.unpack(args[1])
            if len(args) > 2:
                acc = args[2]
            elif its:
                acc, its = its[0], its[1:]
            else:
                I.raise_(TypeError, "reduce() of empty iterable")
            for x in its:
                acc = I.call(args[0], [acc, x], {})
            return acc
        if f is operator.itemgetter and len(args) == 1:
            k = args[0]
            return VSpecial("native", lambda o: self.getitem(o, k))
        if f is operator.attrgetter and len(args) == 1:
            k = args[0]
            return VSpecial("native", lambda o: self.getattr(o, k))
        if f is itertools.chain:
            return VPipe("chain", *args)
        if getattr(f, "__module__", None) == "operator" and len(args) == 2:
            m = {"add": ast.Add, "sub": ast.Sub, "mul": ast.Mult}.get(f.__name__)
            if m:
                return self.binop(m(), *args)
            m = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}.get(f.__name__)
            if m:
                return self.compare(m(), *args)
        if f is unicodedata.normalize:
            if isinstance(args[1], SStr) and isinstance(args[0], str):
                return self.strop(args[1], ("norm", args[0]))
            if isinstance(args[1], NumStr):
                return args[1]
        if getattr(f, "__module__", None) == "re" and f is not re.compile:
            pat = args[0]
            flags = kw.pop("flags", 0) if kw else 0
            if isinstance(pat, str):
                pat = re.compile(pat, int(flags))
            return self.re_call(f.__name__, pat, list(args[1:]), kw)
        if f in PURE_NATIVE or isinstance(f, type(str.lower)):
            if all(is_concrete(a) or isinstance(a, re.RegexFlag) for a in args) and all(
                    is_concrete(a) or isinstance(a, re.RegexFlag) for a in kw.values()):
                try:
                    return I.lift(f(*args, **kw))
                except Exception as e:  # noqa
                    I.raise_(type(e), *e.args)
            if len(args) == 1 and isinstance(args[0], SStr):
                return self.strop_native(f, args[0])
        if getattr(f, "__objclass__", None) is str:
            return self.str_method(args[0], f.__name__, list(args[1:]), kw)
        if type(f).__name__ in ("type",) and f.__module__ in ("typing", "collections") or getattr(
                f, "__module__", "") == "typing":
            raise Unsupported("typing call")
        raise Unsupported(f"call of {getattr(f, '__name__', f)}")

    def strop_native(self, f, s):
        p = self.ctx.possible(s)
        if p is None:
            raise Unsupported("native function of an opaque string")
        r = {w: f(w) for w in p}
        return self.I.pw_result(s, self.ctx.finite(s), {w: ("v", v) for w, v in r.items()})

    def concretize_lang(self, v):
        if isinstance(v, str):
            return v
        return self.concretize(v)

    def re_call(self, name, pat, args, kw):
        I, ctx = self.I, self.ctx
        p, flags = pat.pattern, pat.flags & ~re.UNICODE
        if name == "sub":
            repl, s = args[0], args[1]
            count = args[2] if len(args) > 2 else kw.get("count", 0)
            if isinstance(s, SStr) and isinstance(repl, str):
                return self.strop(s, ("resub", p, repl, count, int(flags)))
            if isinstance(s, str) and isinstance(repl, str):
                return pat.sub(repl, s, count)
            if isinstance(s, (AText, SOp, SCat)):
                h = getattr(s, "facts", {}).get("resub") if not isinstance(s, SCat) else None
                if h is not None:
                    return h(self, s, pat, repl)
            raise Unsupported("re.sub")
        s = args[0]
        if isinstance(s, str) and all(is_concrete(a) for a in args):
            r = getattr(pat, name)(*args, **kw)
            return I.lift(r) if not isinstance(r, re.Match) else r
        if name == "split" and len(args) == 1 and not kw:
            return self.re_split(p, int(flags), s)
        if name in ("match", "search", "fullmatch") and isinstance(s, SStr):
            sp = ctx.finite(s)
            if sp is not None:
                ok = sp(s, lambda w: getattr(pat, name)(w) is not None)
                if not ok:
                    return None
                w = self.concretize(s)
                return getattr(pat, name)(w)
        if name == "findall" and isinstance(s, SStr):
            w = self.concretize(s)
            return I.lift(pat.findall(w))
        raise Unsupported(f"re.{name} on {type(s).__name__}")

    def re_split(self, p, flags, s):
        style = {r"(\W)": "W", r"(\s+)": "s"}.get(p)
        if style is None or flags:
            raise Unsupported(f"re.split with pattern {p!r}")
        if isinstance(s, SStr):
            w = self.concretize(s)
            return self.ctx.list(re.split(p, w))
        if isinstance(s, AText):
            if s.facts.get("split"):
                return s.facts["split"](self, s, style)
            if s.style != style:
                raise Unsupported("text split in another style than specified")
            if "strip" in s.ops and not s.facts.get("any"):
                raise Unsupported("split of stripped text")
            for c in s.facts.get("removable", ()):
                if ("rm", c) not in s.ops:
                    raise Unsupported(f"{c!r} not removed before splitting")
            return self.ctx.list([TokSeg(s.seq, s.facts.get("stages", ()))])
        if isinstance(s, SCat):
            h = self.I.contracts.get("re.split:joined")
            if h is not None:
                return h(self.I, s, style)
        if isinstance(s, NumStr):
            return self.ctx.list([s])
        raise Unsupported(f"re.split of {s}")

    # -------------------------------------------------------------- builtins
    def b_len(self, v):
        if type(v) is AnyStr:
            raise Refine(v.origin)
        if isinstance(v, VList):
            n, unk = 0, []
            for i, x in enumerate(v.items):
                if isinstance(x, SumSeg) and x.empty:
                    # empty or not?
                    new = (SumSeg(x.kinds, x.first, x.last, x.pairs, False),) if self.ctx.choose(2) else ()
                    self.ctx.set(v, "items", v.items[:i] + new + v.items[i + 1:])
                    return self.b_len(v)
            for x in v.items:
                if isinstance(x, Seg):
                    unk.append(x)
                else:
                    n += 1
            if not unk:
                return n
            t = self.ctx.int_var("len")
            lo = n
            for x in unk:
                if self.seg_empty(x) is False:
                    lo += 1
                elif self.seg_empty(x) is True:
                    continue
            self.ctx.assume(t >= lo)
            if all(self.seg_empty(x) is True for x in unk):
                return n
            self.ctx.guess("length of a symbolic list abstracted")
            return SInt(t)
        if isinstance(v, (tuple, str, frozenset, bytes, range)):
            return len(v)
        if isinstance(v, (VDict, VSet)):
            return len(v.d)
        if isinstance(v, SStr):
            sp = self.ctx.finite(v)
            if sp is not None:
                return sp(v, len)
        if isinstance(v, AText) or isinstance(v, SOp):
            h = v.facts.get("len")
            if h is not None:
                return h(self, v)
        if isinstance(v, VObj):
            f = self.class_attr(v.cls, "__len__")
            if f is not MISSING:
                return self.I.call(f, [v], {})
        if v is None or isinstance(v, (int, SInt)):
            self.I.raise_(TypeError, "object has no len()")
        raise Unsupported(f"len of {type(v).__name__}")

    def b_int(self, v=0, base=None):
        if type(v) is AnyStr:
            raise Refine(v.origin)
        I = self.I
        if base is not None:
            raise Unsupported("int with base")
        if isinstance(v, (SInt, int)) and not isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return int(I.truth(v))
        if isinstance(v, NumStr):
            return v.v
        if isinstance(v, (str, bool, float)):
            try:
                return int(v)
            except (ValueError, OverflowError) as e:
                I.raise_(type(e), *e.args)
        if isinstance(v, SStr):
            sp = self.ctx.finite(v)
            if sp is not None:
                def f(w):
                    try:
                        return int(w)
                    except ValueError:
                        return None
                r = sp(v, f)
                if r is None:
                    I.raise_(ValueError, "invalid literal")
                return r
            w = self.decimal_fact(v)
            if w:
                return SOp("int", (v,), {"int": True})
            I.raise_(ValueError, "invalid literal for int()")
        if isinstance(v, AText):
            if v.facts.get("decimal") is True:
                return SOp("int", (v.facts.get("tid", v.seq.id),), {"int": True})
            if v.facts.get("any"):
                if self.textq(v, "isdecimal"):
                    return SOp("int", (v.facts.get("tid", v.seq.id),), {"int": True})
                I.raise_(ValueError, "invalid literal for int(): text not known to be decimal")
            I.raise_(ValueError, "invalid literal for int()")
        if v is None:
            I.raise_(TypeError, "int() argument must be a string")
        if isinstance(v, SOp) and v.facts.get("int"):
            return v
        raise Unsupported(f"int() of {type(v).__name__}")

    def decimal_fact(self, v):
        d = self.ctx.dom[v.atom.id]
        return any(isinstance(k, tuple) and len(k) == 2 and k[1] == ("isdecimal", ()) and r for k, r in d.facts)

    def b_str(self, v=""):
        return self.to_str(v)

    def b_repr(self, v):
        if is_concrete(v):
            return repr(v)
        return SOp("repr", (v,))

    def b_bool(self, v=False):
        return self.I.truth(v)

    def b_list(self, it=()):
        if isinstance(it, VPipe) and it.kind == "enumerate":
            pass
        return self.ctx.list(self.items_of(it))

    def b_tuple(self, it=()):
        its = self.items_of(it)
        if any(isinstance(x, Seg) for x in its):
            return self.ctx.list(its)
        return tuple(its)

    def b_dict(self, *a, **kw):
        d = self.ctx.new(VDict, d={})
        self.dict_method(d, "update", list(a), kw)
        return d

    def b_set(self, it=()):
        return self.make_set(self.unpack(it))

    def b_frozenset(self, it=()):
        return frozenset(self.concretize(x) for x in self.unpack(it))

    def b_enumerate(self, it, start=0):
        return VPipe("enumerate", it, start)

    def b_range(self, *a):
        return range(*[self.concretize(x) for x in a])

    def b_map(self, f, *its):
        if len(its) != 1:
            raise Unsupported("map with several iterables")
        return VPipe("map", f, its[0])

    def b_filter(self, f, it):
        return VPipe("filter", f, it)

    def b_zip(self, *its, strict=False):
        return VPipe("zip", *its)

    def b_reversed(self, it):
        return VPipe("reversed", it)

    def b_sorted(self, it, key=None, reverse=False):
        its = self.unpack(it)
        if all(is_concrete(x) for x in its) and (key is None):
            return self.ctx.list(sorted(its, reverse=bool(reverse)))
        if all(is_concrete(x) for x in its):
            ks = [self.I.call(key, [x], {}) for x in its]
            if all(is_concrete(k) for k in ks):
                o = sorted(range(len(its)), key=lambda i: ks[i], reverse=bool(reverse))
                return self.ctx.list([its[i] for i in o])
        raise Unsupported("sorted of symbolic values")

    def b_any(self, it):
        return self.prelude("any_", it)

    def b_all(self, it):
        return self.prelude("all_", it)

    def b_sum(self, it, start=0):
        return self.prelude("sum_", it, start)

    def b_max(self, *a, key=None, default=MISSING):
        return self._minmax("max_", a, key, default)

    def b_min(self, *a, key=None, default=MISSING):
        return self._minmax("min_", a, key, default)

    def _minmax(self, n, a, key, default):
        it = a[0] if len(a) == 1 else tuple(a)
        its = self.unpack(it)
        if not its and default is not MISSING:
            return default
        if key is None:
            self.prelude("ident", None)
            key = self._prelude.vars["ident"]
        return self.prelude(n, tuple(its), key)

    def b_abs(self, v):
        if isinstance(v, SInt):
            return mk_int(z3.If(v.t >= 0, v.t, -v.t))
        return abs(v)

    def b_isinstance(self, v, t):

        if isinstance(t, tuple):
            return any(self.b_isinstance(v, x) for x in t)
        n = self.types.get(id(t))
        if n is None and isinstance(t, VClass):
            return isinstance(v, VObj) and t in self.mro(v.cls)
        if n is None and isinstance(t, type):
            n = t
        if n is str:
            return isinstance(v, STRS) and not (isinstance(v, SOp) and v.facts.get("int"))
        if n is int:
            return isinstance(v, (int, SInt, SBool)) or (isinstance(v, SOp) and bool(v.facts.get("int")))
        if n is bool:
            return isinstance(v, (bool, SBool))
        if n is list:
            return isinstance(v, VList)
        if n is dict:
            return isinstance(v, VDict)
        if n is set:
            return isinstance(v, VSet)
        if n is tuple:
            return isinstance(v, tuple)
        if n is float:
            return isinstance(v, float)
        if n is type(None):
            return v is None
        if n is frozenset:
            return isinstance(v, frozenset)
        raise Unsupported("isinstance")

    def b_getattr(self, o, name, default=MISSING):
        name = self.concretize(name)
        if default is MISSING:
            return self.I.getattr(o, name)
        try:
            return self.I.getattr(o, name)
        except PyExc as e:
            if e.exc.cls is AttributeError:
                return default
            raise

    def b_hasattr(self, o, name):
        try:
            self.I.getattr(o, self.concretize(name))
            return True
        except PyExc as e:
            if e.exc.cls is AttributeError:
                return False
            raise

    def b_setattr(self, o, name, v):
        self.I.setattr(o, self.concretize(name), v)

    def b_iter(self, it):
        its = self.items_of(it)
        if any(isinstance(x, Seg) for x in its):
            raise Unsupported("iter() of a symbolic list")
        return self.ctx.new(VCell, v=tuple(its))

    def b_next(self, it, default=MISSING):
        if isinstance(it, VPipe) and it.kind == "genexp":
            it = self.b_iter(self.comprehension(it.args[0], it.args[1], "list"))
        if not isinstance(it, VCell):
            raise Unsupported("next()")
        if it.v:
            x = it.v[0]
            self.ctx.set(it, "v", it.v[1:])
            return x
        if default is MISSING:
            self.I.raise_(StopIteration)
        return default

    def b_type(self, v):
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, VExc):
            return v.cls
        raise Unsupported("type()")

    def b_callable(self, v):
        return isinstance(v, (VFunc, VClass, BMethod)) or callable(v)

    def b_staticmethod(self, f):
        return VSpecial("staticmethod", f)

    def b_classmethod(self, f):
        return VSpecial("classmethod", f)

    def b_property(self, f):
        return VSpecial("property", f)

    def b_print(self, *a, **k):
        return None

    def b_ord(self, c):
        return ord(self.concretize(c))

    def b_chr(self, c):
        return chr(self.concretize(c))

    def b_pow(self, a, b):
        return self.binop(ast.Pow(), a, b)

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))


class CharSeq(Seg):
    """List of the characters a comprehension makes from a symbolic string."""

    def __init__(self, s, opid):
        self.s = s
        self.opid = opid

    def joined(self, lib):
        return lib.strop(self.s, ("char", self.opid))
