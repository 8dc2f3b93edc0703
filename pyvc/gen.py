"""The data generator under contract: rule texts and set names are terms of an
uninterpreted theory of strings, tables keep the order of what is filed, loops
over unknown collections are proved for an arbitrary element, and integer loops
with relational invariants over the zero count."""
import ast
import itertools
import json
import logging
import os
import re
import time

import z3

from .ctx import Ctx
from .interp import Interp
from .lib import Lib
from .loops import Driver
from .values import *

Z = z3.Function("zeros", z3.IntSort(), z3.IntSort())
POW = z3.Function("pow10", z3.IntSort(), z3.IntSort())
FIRST = z3.Function("first digit", z3.IntSort(), z3.IntSort())
SCRIPT = "number_parser_scripts/write_complete_language_data.py"
NAME = "number_parser_scripts.write_complete_language_data"
FINDALL = r"\{(.*?)\}"
MARKS = "<>[$="


class RText(SOp):
    """A text known by the term that computes it from a rule text."""

    __slots__ = ("term",)

    def __init__(self, term):
        SOp.__init__(self, "text", (), {})
        self.term = term

    def __hash__(self):
        return hash(self.term)

    def __eq__(self, o):
        return type(o) is RText and o.term == self.term

    def __repr__(self):
        return show(self.term)


def show(t):
    return t[0] if len(t) == 1 else f"{t[0]}({', '.join(show(x) if isinstance(x, tuple) else repr(x) for x in t[1:])})"


class RSplit:
    """text.split(sep): only its first and last items are known."""

    def __init__(self, sep, t, first=True, last=True):
        self.sep, self.t, self.first, self.last = sep, t, first, last


class RColl:
    """A collection of unknown size and order; elem(): its arbitrary element
    (or one after another, where all that can occur are known)."""

    def __init__(self, name, elem, elems=None):
        self.name, self.elem, self.elems = name, elem, elems


class RMap:
    """A dictionary of unknown content; item(): an arbitrary (key, value)."""

    def __init__(self, name, item):
        self.name, self.item = name, item


class File:
    def __init__(self, path, mode, content=None):
        self.path, self.mode, self.content = path, mode, content


class Done(Exception):
    """The function has reached the point up to which it is verified."""


class GenLib(Lib):
    # ---------------------------------------------------------- facts
    def count(self, c, t):
        """How often the character c occurs in the text of the term."""
        while t[0] == "rm" and t[1] != c:
            t = t[2]
        if t[0] == "rm" or t[0] in ("before", "afterlast") and t[1] == c:
            return 0
        v = z3.Int(f"count of {c!r} in {show(t)}")
        self.ctx.assume(v >= 0)
        if t[0] in ("before", "afterlast", "strip", "lstrip", "rstrip"):
            u = self.count(c, t[-1])
            if t[0].endswith("strip") and not c.isspace():
                self.ctx.assume(v == u)
            else:
                self.ctx.assume(v <= u)
        return v

    def prop(self, name, t):
        return z3.Bool(f"{name} {show(t)}")

    def empty(self, t):
        b = self.prop("empty:", t)
        for c in MARKS:
            self.ctx.assume(z3.Implies(b, self.count(c, t) == 0))
        if t[0] == "strip":
            self.ctx.assume(z3.Implies(self.prop("empty:", t[1]), b))
        return b

    def has(self, c, t):
        if len(c) != 1:
            return SBool(self.prop(f"{c!r} in", t)) if c else True
        n = self.count(c, t)
        return n >= 1 if isinstance(n, int) else self.I.truth(SBool(n >= 1))

    def known_empty(self, v):
        return None if isinstance(v, RText) else Lib.known_empty(self, v)

    def is_empty_str(self, v):
        if isinstance(v, RText):
            return self.I.truth(SBool(self.empty(v.term)))
        return Lib.is_empty_str(self, v)

    def str_eq(self, a, b):
        if isinstance(b, RText):
            a, b = b, a
        if isinstance(a, RText):
            if isinstance(b, RText):
                if a.term == b.term:
                    return True
            elif b == "":
                return self.is_empty_str(a)
            elif isinstance(b, str):
                p = self.prop(f"{b!r} is", a.term)
                self.ctx.assume(z3.Implies(p, z3.Not(self.empty(a.term))))
                for c in MARKS:
                    self.ctx.assume(z3.Implies(p, self.count(c, a.term) == b.count(c)))
                return self.I.truth(SBool(p))
            raise Unsupported("comparison of rule texts")
        return Lib.str_eq(self, a, b)

    # -------------------------------------------------------- methods
    def str_method(self, s, name, args, kw):
        if isinstance(s, NumStr) and not isinstance(s.v, int):
            if name == "startswith" and len(args) == 1 and isinstance(args[0], str) and len(args[0]) == 1:
                return self.str_eq(self.str_getitem(s, 0), args[0])
            raise Unsupported(f"{name} of a number string")
        if not isinstance(s, RText):
            return Lib.str_method(self, s, name, args, kw)
        t = s.term
        a = args[0] if args else None
        one = isinstance(a, str) and len(a) == 1 and not kw
        if name == "replace" and one and len(args) == 2 and args[1] == "":
            return RText(("rm", a, t))
        if name in ("strip", "lstrip", "rstrip") and not args:
            return s if t[0] in ("strip", name) else RText((name, t))
        if name == "count" and one and len(args) == 1:
            n = self.count(a, t)
            return n if isinstance(n, int) else SInt(n)
        if name in ("split", "rsplit") and one and (len(args) == 1 or args[1] in (-1, 1)):
            whole = len(args) == 1 or args[1] == -1
            return RSplit(a, t, whole or name == "split", whole or name == "rsplit")
        if name == "partition" and one:
            return (RText(("before", a, t)), SOp("separator", ()), SOp("rest", ()))
        if name == "rpartition" and one:
            return (SOp("front", ()), SOp("separator", ()), RText(("afterlast", a, t)))
        if name == "__contains__" and isinstance(a, str):
            return self.has(a, t)
        if name == "startswith" and isinstance(a, str) and a and len(args) == 1:
            p = self.prop(f"{a!r} starts", t)
            self.ctx.assume(z3.Implies(p, z3.Not(self.empty(t))))
            return self.I.truth(SBool(p))
        raise Unsupported(f"{name} of a rule text")

    def str_getitem(self, s, k):
        if isinstance(s, NumStr) and k == 0 and not isinstance(s.v, int):
            n = s.v.t
            f = FIRST(n)
            self.ctx.assume(z3.And(f >= 0, f <= 9, (f == 0) == (n == 0), z3.Implies(n <= 9, f == n)))
            return NumStr(SInt(f))
        return Lib.str_getitem(self, s, k)

    def getitem(self, o, k):
        if isinstance(o, RSplit):
            if k == 0 and o.first:
                return RText(("before", o.sep, o.t))
            if k == -1 and o.last:
                return RText(("afterlast", o.sep, o.t))
            raise Unsupported("part of a split rule text")
        if isinstance(o, VDict) and any(isinstance(x, RText) for x in o.d):
            raise Unsupported("look-up of what has been filed")
        return Lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        if isinstance(o, VDict) and isinstance(k, RText):
            d = dict(o.d)
            d.pop(k, None)
            d[k] = v  # (kept in the order of filing: the last one counts)
            self.ctx.set(o, "d", d)
            return
        if isinstance(o, VDict) and any(isinstance(x, RText) for x in o.d):
            raise Unsupported("key next to rule texts")
        Lib.setitem(self, o, k, v)

    def dict_method(self, o, name, args, kw):
        if any(isinstance(x, RText) for x in o.d) or any(isinstance(x, RText) for x in args):
            raise Unsupported(f"dict.{name} of what has been filed")
        return Lib.dict_method(self, o, name, args, kw)

    def method(self, o, name, args, kw):
        if isinstance(o, RMap) and name == "items" and not args:
            return RColl(o.name, o.item)
        if isinstance(o, RSplit):
            raise Unsupported("method of a split rule text")
        if isinstance(o, File):
            return self.method_file(o, name, args)
        return Lib.method(self, o, name, args, kw)

    def method_file(self, o, name, args):
        w = self.I.world
        if name == "read" and not args and o.content is not None:
            return o.content
        if name == "write" and len(args) == 1 and isinstance(args[0], str) and o.content is None:
            w.write(o, args[0])
            return len(args[0])
        raise Unsupported(f"{name} of a file")

    def getattr(self, o, name):
        if isinstance(o, (RMap, RColl, RSplit, File)):
            return BMethod(o, name)
        return Lib.getattr(self, o, name)

    def binop(self, op, a, b):
        if type(op) is ast.Pow and a == 10 and isinstance(b, SInt):
            p = POW(b.t)
            self.ctx.assume(p >= 1)
            return SInt(p)
        return Lib.binop(self, op, a, b)

    def b_print(self, *a, **k):
        return None

    def b_int(self, v=0, base=None):
        if isinstance(v, RText):
            raise Unsupported("int of a rule text")
        return Lib.b_int(self, v) if base is None else Lib.b_int(self, v, base)

    def lower(self, v):
        """A concrete value as a Python object."""
        if isinstance(v, VDict):
            return {k: self.lower(x) for k, x in v.d.items()}
        if isinstance(v, VList):
            return [self.lower(x) for x in self.unpack(v)]
        if isinstance(v, tuple):
            return tuple(self.lower(x) for x in v)
        if v is None or isinstance(v, (str, int, float, bool)):
            return v
        raise Unsupported(f"{v} as a native value")

    def b_sorted(self, it, key=None, reverse=False):
        if isinstance(it, RColl):
            return it  # (one of its orders)
        if isinstance(it, (VSet, RMap)):
            raise Unsupported("sorted of a set")
        return Lib.b_sorted(self, it, key, reverse)

    def b_list(self, it=()):
        return it if isinstance(it, RColl) else Lib.b_list(self, it)

    def items_of(self, it):
        if isinstance(it, (VSet, RColl, RMap)):
            raise Unsupported("items in no known order")
        return Lib.items_of(self, it)

    def comprehension(self, e, fr, kind):
        g = e.generators[0]
        if kind != "list" or len(e.generators) != 1:
            return Lib.comprehension(self, e, fr, kind)
        it = self.I.ev(g.iter, fr)
        if not isinstance(it, RColl):
            return Lib.comprehension(self, e, fr, kind)
        if it.elems is None:
            raise Unsupported("comprehension over a collection")
        ctx, limit, mark, out = self.ctx, self.ctx.oid, len(self.ctx.log), []
        n = ast.copy_location(ast.Name("<item>", ast.Load()), g.iter)
        one = ast.copy_location(ast.ListComp(e.elt, [ast.comprehension(g.target, n, g.ifs, 0)]), e)
        for x in it.elems:
            f = ctx.new(Frame, vars={"<item>": ctx.list([x])}, parent=fr, name=fr.name, globals_=fr.globals_, nonlocals=set(),
                        globalnames=set(), locals_=frozenset(["<item>"]))
            out += Lib.comprehension(self, one, f, "list").items
        if any(isinstance(o, HObj) and o.oid <= limit and o is not ctx.dom for o, *_ in ctx.log[mark:]):
            raise Unsupported("a comprehension over a collection that leaves something behind")
        return RColl(it.name, None, out)

    def call_native(self, f, args, kw):
        if f is os.chdir:
            return None
        if f is os.listdir and self.I.world is not None:
            return self.I.world.listdir(*args)
        if f is os.path.join and all(isinstance(a, str) for a in args):
            return os.path.join(*args)
        if f in (os.path.dirname, os.path.abspath):
            return f(*args)
        if getattr(f, "__module__", None) == "logging" or isinstance(getattr(f, "__self__", None), logging.Logger):
            return None
        if f is json.load and isinstance(args[0], File) and self.I.world is not None:
            return self.I.world.load(args[0])
        if f is json.dumps and args and self.I.world is not None:
            return json.dumps(self.lower(args[0]), **{k: self.lower(v) for k, v in kw.items()})
        if f is json.loads and len(args) == 1 and isinstance(args[0], str):
            return self.I.lift(json.loads(args[0]))
        if f is json.dump and len(args) == 2 and isinstance(args[1], File):
            return self.method_file(args[1], "write", [json.dumps(self.lower(args[0]), **kw)])
        if f is re.findall and len(args) == 2 and isinstance(args[1], RText):
            if args[0] != FINDALL or kw:
                raise Unsupported("pattern on a rule text")
            t = ("word found in", args[1].term)
            return RColl(("findall", args[1].term), lambda: RText(t))
        if any(isinstance(a, RText) for a in args):
            raise Unsupported(f"call of {getattr(f, '__name__', f)} on a rule text")
        return Lib.call_native(self, f, args, kw)


class GenDriver(Driver):
    def need_live(self, p):
        raise Unsupported(f"{p.name} is carried from one iteration to the next")

    def names(self, s):
        return {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}

    def run_for(self, s, fr, it):
        from .interp import BreakEx, ContinueEx, ReturnEx
        if not isinstance(it, RColl):
            if isinstance(it, (RMap, RSplit)):
                raise Unsupported("loop over a rule text")
            return Driver.run_for(self, s, fr, it)
        I, ctx = self.I, self.ctx
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}

        def kill():
            for n in self.names(s) | tnames:
                ctx.setvar(fr, n, Poison(id(s), n))

        def one(x=MISSING):
            kill()
            ctx.setattr_ctx("calls", ())
            ctx.setattr_ctx("alls", ())
            I.assign(s.target, it.elem() if x is MISSING else x, fr)
            mark = len(ctx.log)
            before = {o.oid: o.d for o in ctx.objs.values() if isinstance(o, VDict) and o.oid <= limit}
            try:
                I.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                raise Unsupported("a loop over a collection that is left early")
            for o, field, _, _ in ctx.log[mark:]:
                if isinstance(o, VDict) or o is ctx.dom:
                    continue
                if isinstance(o, HObj) and not (o is fr and type(field) is tuple and field[1] in self.names(s) | tnames) and o.oid <= limit:
                    raise Unsupported("an iteration that leaves something behind")
            ctx.feasible()
            writes = tuple((o, k, v) for oid, o in sorted(ctx.objs.items()) if isinstance(o, VDict) and oid in before and o.d is not before[oid]
                           for k, v in o.d.items() if before[oid].get(k, MISSING) is not v)
            if I.element is None:
                raise Unsupported("loop over a collection")
            if any(set(before[oid]) - set(o.d) for oid, o in ctx.objs.items() if isinstance(o, VDict) and oid in before and o.d is not before[oid]):
                raise Unsupported("entries are removed in an iteration")
            I.element(it.name if x is MISSING else (it.name, x), writes, ctx.calls, ctx.alls)

        limit = ctx.oid  # (objects after it are those of the iteration)
        self.passno += 1
        save, ctx.pkey = ctx.pkey, (ctx.pkey, "each", id(s), self.passno)
        try:
            if it.elems is None:
                ctx.explore(one)
            else:
                for x in it.elems:
                    ctx.explore(lambda: one(x))
        except ReturnEx:
            raise Unsupported("a loop over a collection that is left early")
        finally:
            ctx.pkey = save
        kill()
        ctx.setattr_ctx("alls", ctx.alls + (it.name,))
        self.report.setdefault(f"{fr.name}@{s.lineno}", dict(states=1, steps=0, times=0))["steps"] += 1
        I.block(s.orelse, fr)

    def run_while(self, s, fr):
        """Integer loop: invariants among a >= 0, a == (entry value) and
        a + zeros(b) == (its entry value) are kept while they are inductive."""
        from .interp import BreakEx, ContinueEx, ReturnEx
        I, ctx = self.I, self.ctx
        names = sorted(n for n in self.names(s) if fr.vars.get(n, MISSING) is not MISSING)
        if any(not isinstance(fr.vars[n], (int, SInt)) or isinstance(fr.vars[n], bool) for n in names) or all(
                isinstance(fr.vars[n], int) for n in names):
            return Driver.run_while(self, s, fr)
        val = lambda n: term(fr.vars[n])

        def zeros(t):
            t = z3.IntVal(t) if isinstance(t, int) else t
            ctx.assume(unfold(t))
            return Z(t)
        e = {n: val(n) for n in names}
        cands = [("nonneg", n) for n in names] + [("same", n) for n in names] + [
            ("zeros", a, b) for a, b in itertools.permutations(names, 2)]
        e0 = {c: e[c[1]] + zeros(e[c[2]]) for c in cands if c[0] == "zeros"}

        def holds(c):
            if c[0] == "nonneg":
                return val(c[1]) >= 0
            if c[0] == "same":
                return val(c[1]) == e[c[1]]
            return val(c[1]) + zeros(val(c[2])) == e0[c]
        truth = lambda c: (lambda r: r if isinstance(r, bool) else ctx.valid(r))(holds(c))
        cands = [c for c in cands if truth(c)]

        def havoc():
            for n in names:
                ctx.setvar(fr, n, SInt(ctx.int_var(n)))
            for n in self.names(s) - set(names):
                ctx.setvar(fr, n, Poison(id(s), n))
            for c in cands:
                ctx.assume(holds(c))
        steps = 0
        while True:
            bad = set()

            def one():
                havoc()
                if not I.truth(I.ev(s.test, fr)):
                    raise Infeasible()
                try:
                    I.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    raise Infeasible()
                ctx.feasible()
                bad.update(c for c in cands if not truth(c))
            self.passno += 1
            save, ctx.pkey = ctx.pkey, (ctx.pkey, "inv", id(s), self.passno)
            try:
                steps += len(ctx.explore(one))
            except ReturnEx:
                raise Unsupported("return from an integer loop")
            finally:
                ctx.pkey = save
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        self.report.setdefault(f"{fr.name}@{s.lineno}", dict(states=1, steps=0, times=0))["steps"] += len(cands) * steps
        havoc()
        if not I.truth(I.ev(s.test, fr)):
            I.block(s.orelse, fr)
            return
        try:
            I.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        raise Infeasible()  # (covered by the invariant)


def unfold(t):
    """zeros(t), by its definition: how often t > 9 can be divided by ten."""
    return Z(t) == z3.If(t <= 9, 0, z3.If(t % 10 == 0, 1 + Z(t / 10), 0))


class GenInterp(Interp):
    def __init__(self, ctx, repo):
        Interp.__init__(self, ctx, repo)
        self.lib = GenLib(self)
        self.driver = GenDriver(self)
        self.element = None
        self.world = None
        self.lib.builtins["open"] = VSpecial("native", self.open)

    def open(self, path, mode="r", **kw):
        if self.world is None or not isinstance(path, str):
            raise Unsupported("open")
        return self.world.open(path, mode)

    def s_With(self, s, fr):
        for i in s.items:
            f = self.ev(i.context_expr, fr)
            if not isinstance(f, File):
                raise Unsupported("with statement")
            if i.optional_vars is not None:
                self.assign(i.optional_vars, f, fr)
        self.block(s.body, fr)


class GenSession:
    def __init__(self, repo=None, budget=None, timeout_ms=10000):
        self.repo = repo or os.environ.get("VERIF_REPO", "/repo")
        self.ctx = Ctx(timeout_ms=timeout_ms, deadline=time.time() + budget if budget else None)
        self.ctx.alls = ()
        self.I = GenInterp(self.ctx, self.repo)
        src = self.I.repo / SCRIPT
        if not src.is_file():
            raise Unsupported("no generator script")
        self.module = self.I._import(NAME, src)
        self.ctx.init_oid = self.ctx.oid
        self.ctx.initialising = False

    def explore(self, fn):
        self.ctx.pkey = ("top", id(fn))
        self.I.stack = []
        self.I.depth = 0
        return self.ctx.explore(fn)

    def fn(self, name):
        v = self.module.frame.vars.get(name)
        if not isinstance(v, VFunc):
            raise Unsupported(f"no function {name}")
        return v

    def call(self, name, *args):
        try:
            return ("ret", self.I.call(self.fn(name), list(args), {}))
        except PyExc as e:
            return ("exc", e.exc, e.where)

    def nonneg(self):
        v = self.ctx.int_var("n")
        self.ctx.assume(v >= 0)
        return SInt(v)
