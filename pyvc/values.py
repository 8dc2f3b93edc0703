"""Symbolic values and heap objects of the verifier.

Concrete immutable Python values (None, bool, int, str, bytes, tuple, native
modules/functions) represent themselves.  Everything symbolic or mutable is one
of the classes below.
"""
import functools
import re
import unicodedata

import z3


class Unsupported(Exception):
    """The code uses something outside the verifier's fragment: undecided."""


class SolverUnknown(Exception):
    """The SMT solver gave up: undecided."""


class SpecError(Exception):
    """The specification automaton itself is inconsistent."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class NeedRestart(Exception):
    """A loop hint changed (liveness, modified set, ...): redo the current path."""


# ------------------------------------------------------------------ scalars


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


def mk_int(t):
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def mk_bool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def term(v):
    """z3 term (or python int) of an integer value."""
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, bool):
        return int(v)
    return v


# ------------------------------------------------------------------ strings


class Fin:
    """Finite domain of an unknown string."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return f"Fin({len(self.s)}:{sorted(self.s)[:3]})"


class OpaqueClass:
    """A class of strings described by a predicate on the *normalised* string
    (lower case, accents dropped); closed under nothing else."""

    def __init__(self, name, pred, nonblank=None, nonempty=None, facts=None):
        self.name = name
        self.pred = pred  # normalised candidate -> may it be in the class?
        self.nonempty = nonempty
        self.nonblank = nonblank  # True / False / None: norm(x).strip() != ""
        self.facts = facts or {}

    def __repr__(self):
        return f"<{self.name}>"


class Cof:
    """Members of an opaque class except (normalised) `excl`; `facts`: results
    already assumed for uninterpreted queries."""

    __slots__ = ("cls", "excl", "facts", "normfin")

    def __init__(self, cls, excl=frozenset(), facts=(), normfin=None):
        self.cls, self.excl, self.facts = cls, excl, facts
        self.normfin = normfin  # finite set of possible normal forms, once known

    def __repr__(self):
        return f"Cof({self.cls.name}-{len(self.excl)})"


class Atom:
    """An unknown string.  Its domain lives in the path state (ctx.dom)."""

    __slots__ = ("id", "name", "vals", "var")

    def __init__(self, id_, name, vals=None, var=None):
        self.id = id_
        self.name = name
        self.vals = vals  # raw word -> int (spec value), or None
        self.var = var  # z3 variable standing for vals[word]

    def __repr__(self):
        return f"{self.name}"


class SStr:
    """op_n(...op_1(atom))."""

    __slots__ = ("atom", "chain")

    def __init__(self, atom, chain=()):
        self.atom = atom
        self.chain = chain

    def __repr__(self):
        return f"SStr({self.atom}{''.join('|' + str(o[:2]) for o in self.chain)})"


class NumStr:
    """Decimal rendering of a non-negative integer term."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"NumStr({self.v})"


class SCat:
    """Concatenation of string parts (str, SStr, NumStr, JoinPart)."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return f"SCat{self.parts}"


class JoinPart:
    """sep.join(items) where items contain symbolic segments."""

    __slots__ = ("sep", "items")

    def __init__(self, sep, items):
        self.sep = sep
        self.items = tuple(items)

    def __repr__(self):
        return f"Join({self.sep!r},{self.items})"


class SOp:
    """Uninterpreted pure function of symbolic values (usually a string)."""

    __slots__ = ("name", "args", "facts")

    def __init__(self, name, args, facts=None):
        self.name = name
        self.args = tuple(args)
        self.facts = facts or {}

    def __repr__(self):
        return f"SOp({self.name},{self.args})"


class AnyStr:
    """Some string nothing is known about: an item of a list whose items the
    loop analysis took to be irrelevant (origin: which list of which loop)."""

    __slots__ = ("origin",)

    def __init__(self, origin):
        self.origin = origin

    def __repr__(self):
        return "AnyStr"


class Refine(Exception):
    """Something about the items of these lists is needed after all."""

    def __init__(self, origin):
        self.origin = origin


class AText:
    """Text whose token sequence is generated by an automaton (spec side).
    style: 'W' tokens by (\\W), 's' tokens by (\\s+)."""

    __slots__ = ("seq", "style", "facts", "ops")

    def __init__(self, seq, style, facts, ops=()):
        self.seq = seq
        self.style = style
        self.facts = facts  # nonblank, decimal
        self.ops = ops

    def __repr__(self):
        return f"AText({self.seq.name})"


STRING_TYPES = (str, SStr, NumStr, SCat, SOp, AText, AnyStr)

# native callables used inside string ops, by id
OPS = {}


def apply_op(op, s):
    k = op[0]
    if k == "m":
        return getattr(str, op[1])(s, *op[2])
    if k == "resub":
        return re.sub(op[1], op[2], s, count=op[3], flags=op[4])
    if k == "norm":
        return unicodedata.normalize(op[1], s)
    if k == "slice":
        return s[slice(*op[1])]
    if k == "rcat":
        return s + op[1]
    if k == "lcat":
        return op[1] + s
    if k == "char":
        return "".join(OPS[op[1]](s))
    if k == "tab":
        return OPS[op[1]][s]
    if k == "NORM":
        s = unicodedata.normalize("NFD", s.lower())
        return "".join(c for c in s if unicodedata.category(c) != "Mn")
    raise Unsupported(f"string op {op}")


_chain_cache = {}


def apply_chain(chain, s):
    if not chain:
        return s
    key = (chain, s)
    r = _chain_cache.get(key)
    if r is None:
        r = s
        for op in chain:
            r = apply_op(op, r)
        if len(_chain_cache) > 2000000:
            _chain_cache.clear()
        _chain_cache[key] = r
    return r


NORM = (("NORM",),)
_LOWER, _NFD = ("m", "lower", ()), ("norm", "NFD")


def _plain(s):
    return s.isascii() and s.isalpha() and s.islower()


def keeps_normal(op):
    """Does the op map normal forms to normal forms?  (ASCII letters put for
    ASCII letters, or cut off at the end: no accent, capital or reordering of
    combining characters can result.)"""
    if op[0] == "m" and op[1] == "replace" and len(op[2]) == 2:
        return _plain(op[2][0]) and _plain(op[2][1])
    if op[0] == "resub":
        lit = _regex_literal_end(op[1])
        return lit is not None and not op[4] and (op[2] == "" or _plain(op[2]))
    if op[0] == "m" and op[1] in ("removesuffix", "removeprefix"):
        return _plain(op[2][0])
    return False


@functools.lru_cache(100000)
def canon_chain(chain):
    """Recognise lower ; NFD ; drop-Mn (the drop-Mn predicate has been compared
    with the real one on every code point, see lib.char_op) as NORM, and use
    NORM ; NORM == NORM (checked over all code points by audit.py), also with
    ops in between that keep normal forms normal."""
    c = list(chain)
    i = 0
    out = []
    normal = False
    while i < len(c):
        triple = c[i] == _LOWER and i + 2 < len(c) and c[i + 1] == _NFD and c[i + 2] == ("char", "dropMn")
        if triple or c[i] == ("NORM",):
            if not normal:
                out.append(("NORM",))
            normal = True
            i += 3 if triple else 1
            continue
        if normal and (c[i] == _LOWER or c[i] == _NFD or c[i] == ("char", "dropMn")):
            i += 1
            continue
        normal = normal and keeps_normal(c[i])
        out.append(c[i])
        i += 1
    return tuple(out)


def _occurrence_choices(c, b, a):
    """All strings obtained from c by putting back `a` for some non-overlapping
    occurrences of b (b non-empty)."""
    out = set()

    def rec(i, acc):
        if i >= len(c):
            out.add(acc)
            return
        if c.startswith(b, i):
            rec(i + len(b), acc + a)
        rec(i + 1, acc + c[i])

    rec(0, "")
    return out


def _regex_literal_end(pattern):
    """'lit$' -> lit ; None when the pattern has another form."""
    if pattern.endswith("$") and re.fullmatch(r"\w+", pattern[:-1]):
        return pattern[:-1]
    if pattern.endswith(r"\Z") and re.fullmatch(r"\w+", pattern[:-2]):
        return pattern[:-2]
    return None


def pre_op(op, targets):
    """Exact preimage of a finite set under a string op, or None when it is not
    known to be finite.  (Strings without line breaks are assumed by 'lit$':
    the opaque word classes contain none.)"""
    k = op[0]
    out = set()
    if k == "m" and op[1] == "replace" and len(op[2]) == 2:
        a, b = op[2]
        if not a or not b:
            return None
        for c in targets:
            out |= _occurrence_choices(c, b, a)
    elif k == "m" and op[1] == "removesuffix":
        for c in targets:
            out |= {c, c + op[2][0]}
    elif k == "m" and op[1] == "removeprefix":
        for c in targets:
            out |= {c, op[2][0] + c}
    elif k == "resub":
        lit = _regex_literal_end(op[1])
        if lit is None or op[4] or op[3] not in (0, 1) or "\\" in op[2]:
            return None
        r = op[2]
        for c in targets:
            if "\n" in c:
                return None
            out.add(c)
            # one anchored match at most: x == base + lit, c == base + r
            if c.endswith(r):
                out.add(c[: len(c) - len(r)] + lit)
    elif k == "rcat":
        for c in targets:
            if c.endswith(op[1]):
                out.add(c[: len(c) - len(op[1])] if op[1] else c)
    elif k == "lcat":
        for c in targets:
            if c.startswith(op[1]):
                out.add(c[len(op[1]):])
    else:
        return None
    return {x for x in out if apply_op(op, x) in targets}


# --------------------------------------------------------------- sequences


class Seg:
    """Base class of symbolic list segments."""


class TokSeg(Seg):
    """The whole token sequence of an automaton, with pipeline stages applied
    to every token: ('map', f) | ('filter', f) with f a python callable."""

    def __init__(self, seq, stages=()):
        self.seq = seq
        self.stages = tuple(stages)

    def __repr__(self):
        return f"TokSeg({self.seq.name}{'+' + str(len(self.stages)) if self.stages else ''})"


class TraceSeg(Seg):
    """What the trace `tr` (ghost.py) of a list holds when the automaton is at
    `node` with register values `regs`."""

    def __init__(self, tr, node, regs):
        self.tr = tr
        self.node = node
        self.regs = regs

    def __repr__(self):
        return f"Trace({self.node})"


class SumSeg(Seg):
    """A list described by a local language over element kinds: possible first
    kinds, last kinds, adjacent pairs; maybe empty."""

    def __init__(self, kinds, first, last, pairs, empty):
        self.kinds = kinds  # kind key -> abstract element
        self.first, self.last, self.pairs, self.empty = first, last, pairs, empty

    def __repr__(self):
        return f"Sum({sorted(map(str, self.kinds))}{'?' if self.empty else ''})"


class GhostSeg(Seg):
    """Opaque content, only comparable with itself."""

    def __init__(self, id_, name):
        self.id = id_
        self.name = name

    def __repr__(self):
        return f"Ghost({self.name}#{self.id})"


class EntrySeg(Seg):
    """What a list held when the loop under analysis was entered."""

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"Entry({self.key})"


class Seq:
    """Identity of one symbolic token sequence (several loops may run over it)."""

    def __init__(self, auto, name, id_):
        self.auto = auto
        self.name = name
        self.id = id_
        self.absent = frozenset()  # characters the text does not contain


# ------------------------------------------------------------------- heap


class HObj:
    __slots__ = ("oid",)


class VList(HObj):
    __slots__ = ("items",)

    def __repr__(self):
        return f"VList#{self.oid}{self.items}"


class VSet(HObj):
    __slots__ = ("d",)  # dict used as ordered set

    def __repr__(self):
        return f"VSet{list(self.d)}"


class VDict(HObj):
    __slots__ = ("d",)

    def __repr__(self):
        return f"VDict#{self.oid}({len(self.d)})"


class VCell(HObj):
    __slots__ = ("v",)


class Frame(HObj):
    __slots__ = ("vars", "parent", "name", "globals_", "nonlocals", "globalnames", "locals_", "node")

    def __repr__(self):
        return f"<frame {self.name}#{self.oid}>"


class VObj(HObj):
    __slots__ = ("cls", "attrs")

    def __repr__(self):
        return f"<{self.cls.name}#{self.oid}>"


class VClass(HObj):
    __slots__ = ("name", "bases", "attrs", "native_base")

    def __repr__(self):
        return f"<class {self.name}>"


class VFunc(HObj):
    __slots__ = ("node", "closure", "defaults", "kwdefaults", "name", "module", "is_gen", "qual", "ident", "attrs")

    def __repr__(self):
        return f"<func {self.name}>"


class VModule(HObj):
    __slots__ = ("name", "frame")

    def __repr__(self):
        return f"<module {self.name}>"


class BMethod:
    """Bound method: of a user class (VFunc) or of a builtin type (name)."""

    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn

    def __repr__(self):
        return f"BMethod({self.self_},{self.fn})"


class VSpecial:
    """staticmethod / classmethod / property wrappers."""

    __slots__ = ("kind", "fn")

    def __init__(self, kind, fn):
        self.kind = kind
        self.fn = fn


class VPipe:
    """Lazy iterables: enumerate/map/filter/genexp/..."""

    __slots__ = ("kind", "args")

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args

    def __repr__(self):
        return f"VPipe({self.kind})"


class VExc:
    """A raised Python exception."""

    __slots__ = ("cls", "args")

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        n = self.cls.name if isinstance(self.cls, VClass) else self.cls.__name__
        return f"{n}{self.args}"


class Poison:
    """Value of a local that the loop analysis took to be dead."""

    __slots__ = ("loop", "name")

    def __init__(self, loop, name):
        self.loop, self.name = loop, name

    def __repr__(self):
        return f"<dead {self.name}>"


MISSING = type("Missing", (), {"__repr__": lambda s: "<missing>"})()


# ---------------------------------------------------------- control signals


class Signal(Exception):
    pass


class BreakEx(Signal):
    pass


class ContinueEx(Signal):
    pass


class ReturnEx(Signal):
    def __init__(self, v):
        self.v = v


class PyExc(Signal):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where

    def __str__(self):
        return f"{self.exc} at {self.where}"
