"""Symbolic interpreter for the Python subset the repository is written in.

It executes the *source of /repo as it is now*: no copy, no model.  Loops over
symbolic sequences are handed to loops.Driver (invariants), everything else is
executed path by path.
"""
import ast
import builtins
import importlib
import operator
import pathlib
import re
import unicodedata

import z3

from .ctx import Ctx
from .values import *

NATIVE_MODULES = {
    "re", "unicodedata", "functools", "itertools", "operator", "string", "math", "collections",
    "typing", "importlib", "pkgutil", "json", "logging", "os", "os.path", "__future__", "dataclasses",
    "collections.abc", "types", "enum", "abc",
}
PURE_NATIVE = {
    re.compile, re.escape, re.match, re.search, re.fullmatch, re.findall, re.split, re.sub,
    unicodedata.normalize, unicodedata.category, unicodedata.combining, unicodedata.name,
    unicodedata.decimal, unicodedata.digit, unicodedata.numeric, unicodedata.is_normalized,
}


def assigned_names(node):
    """Local names of a function body (not descending into nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in node if isinstance(node, list) else [node]:
        walk(s)
    return out - glob - nonl, glob, nonl


def has_yield(body):
    for s in body:
        st = [s]
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
    return False


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.Div: operator.truediv, ast.BitOr: operator.or_,
    ast.BitAnd: operator.and_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
}
CMPOPS = {
    ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
}
CONCRETE = (type(None), bool, int, float, str, bytes, type(Ellipsis))


def is_concrete(v):
    if isinstance(v, CONCRETE):
        return True
    if isinstance(v, (tuple, frozenset)):
        return all(is_concrete(x) for x in v)
    return False


class Interp:
    def __init__(self, ctx, repo="/repo"):
        from .lib import Lib
        from .loops import Driver

        self.ctx = ctx
        self.repo = pathlib.Path(repo)
        self.modules = {}
        self.stack = []  # frames of active calls
        self.lib = Lib(self)
        self.driver = Driver(self)
        self.memo = {}
        self.interned = {}
        self.idcache = {}
        self.covered = set()
        self.probed = set()
        self.watch = None  # called before every statement
        self.contracts = {}  # qualname -> python callable(interp, args, kwargs)
        self.depth = 0
        self.fuel = None
        self.where = None
        self.scope_cache = {}
        self.lines = set()

    # ------------------------------------------------------------- modules
    def find_source(self, name):
        base = self.repo.joinpath(*name.split("."))
        for p in (base / "__init__.py", base.with_suffix(".py")):
            if p.is_file():
                return p
        return None

    def import_module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        src = self.find_source(name)
        if src is None:
            if name in NATIVE_MODULES:
                return importlib.import_module(name)
            if name.split(".")[0] == "number_parser":
                raise PyExc(VExc(ModuleNotFoundError, (name,)), self.where)
            raise Unsupported(f"import of {name}")
        if "." in name:
            self.import_module(name.rsplit(".", 1)[0])
        if not self.ctx.initialising:
            with self.ctx.importing():
                return self._import(name, src)
        return self._import(name, src)

    def _import(self, name, src):
        text = src.read_text(encoding="utf-8")
        tree = ast.parse(text)
        ctx = self.ctx
        fr = ctx.new(Frame, vars={}, parent=None, name=name, globals_=None, nonlocals=set(),
                     globalnames=set(), locals_=None)
        fr.globals_ = fr
        pk = name if src.name == "__init__.py" else name.rpartition(".")[0]
        fr.vars.update(__name__=name, __package__=pk, __file__=str(src), __doc__=ast.get_docstring(tree))
        m = ctx.new(VModule, name=name, frame=fr)
        self.modules[name] = m
        # fast path for pure data modules
        if len(tree.body) == 1 and isinstance(tree.body[0], ast.Assign) and isinstance(tree.body[0].targets[0], ast.Name):
            try:
                fr.vars[tree.body[0].targets[0].id] = self.lift(ast.literal_eval(tree.body[0].value))
                return self._attach(name, m)
            except ValueError:
                pass
        self.stack.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.stack.pop()
        return self._attach(name, m)

    def _attach(self, name, m):
        if "." in name:
            p, _, c = name.rpartition(".")
            if p in self.modules:
                self.modules[p].frame.vars.setdefault(c, m)
        return m

    def lift(self, v):
        """Native data -> heap objects."""
        if isinstance(v, dict):
            return self.ctx.new(VDict, d={k: self.lift(x) for k, x in v.items()})
        if isinstance(v, list):
            return self.ctx.list([self.lift(x) for x in v])
        if isinstance(v, (set, frozenset)) and not isinstance(v, frozenset):
            return self.ctx.new(VSet, d={k: None for k in v})
        if isinstance(v, tuple):
            return tuple(self.lift(x) for x in v)
        return v

    def raise_(self, cls, *args):
        raise PyExc(VExc(cls, args), self.where)

    # ------------------------------------------------------------ variables
    def load(self, name, fr):
        f = fr
        first = True
        while f is not None:
            loc = f.locals_
            if loc is None or name in loc or name in f.vars:
                if name in f.vars and name not in f.globalnames:
                    v = f.vars[name]
                    if type(v) is Poison:
                        self.driver.need_live(v)
                    return v
                if loc is not None and name in loc:
                    if first:
                        self.raise_(UnboundLocalError, name)
                    self.raise_(NameError, name)
            if name in f.globalnames:
                break
            f = f.parent
            first = False
        g = fr.globals_
        if name in g.vars:
            v = g.vars[name]
            if type(v) is Poison:
                self.driver.need_live(v)
            return v
        b = self.lib.builtins.get(name)
        if b is not None:
            return b
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if isinstance(o, type) and issubclass(o, BaseException) or name in (
                    "NotImplemented", "Ellipsis", "__debug__", "object"):
                return o
            raise Unsupported(f"builtin {name}")
        self.raise_(NameError, name)

    def store(self, name, v, fr):
        ctx = self.ctx
        if name in fr.globalnames:
            ctx.setvar(fr.globals_, name, v)
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.locals_ is not None and name in f.locals_:
                    ctx.setvar(f, name, v)
                    return
                f = f.parent
            raise Unsupported("nonlocal")
        ctx.setvar(fr, name, v)

    # ----------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.where = (fr.name, s.lineno)
        if self.watch is not None:
            self.watch(s, fr)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        if self.fuel is not None:
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsupported("step limit")
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load(t.id, fr)
            self.store(t.id, self.augop(s.op, old, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, old, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            old = self.lib.getitem(o, k)
            self.lib.setitem(o, k, self.augop(s.op, old, self.ev(s.value, fr)))
        else:
            raise Unsupported("augassign target")

    def augop(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add):
            self.lib.list_extend(a, b)
            return a
        if isinstance(a, VSet) and isinstance(op, ast.BitOr):
            self.lib.set_update(a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.lib.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.lib.unpack(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.ctx.list(items[i:len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                self.raise_(ValueError, "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load(t.id, fr)
                self.ctx.delvar(fr, t.id)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self.ev(t.value, fr), self.ev_index(t.slice, fr))
            else:
                raise Unsupported("del")

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_(AssertionError)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, "handling", None):
                raise PyExc(self.handling[-1], self.where)
            self.raise_(RuntimeError)
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException) or isinstance(v, VClass):
            v = self.call(v, [], {})
        if isinstance(v, VObj):
            v = VExc(v.cls, ())
        if not isinstance(v, VExc):
            raise Unsupported("raise of non-exception")
        raise PyExc(v, self.where)

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        c = exc.cls
        if isinstance(c, VClass):
            return cls in self.lib.mro(c) or (isinstance(cls, type) and any(
                isinstance(b, type) and issubclass(b, cls) for b in self.lib.mro(c)))
        return isinstance(cls, type) and issubclass(c, cls)

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    cls = self.ev(h.type, fr) if h.type is not None else BaseException
                    if self.exc_matches(e.exc, cls):
                        if h.name:
                            self.store(h.name, e.exc, fr)
                        self.handling = getattr(self, "handling", []) + [e.exc]
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        if s.finalbody:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        raise Unsupported("with statement")

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_module(top), fr)

    def s_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            pk = fr.globals_.vars["__package__"]
            for _ in range(s.level - 1):
                pk = pk.rpartition(".")[0]
            name = pk + ("." + name if name else "")
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                raise Unsupported("import *")
            if isinstance(m, VModule):
                if a.name in m.frame.vars:
                    v = m.frame.vars[a.name]
                else:
                    v = self.import_module(name + "." + a.name)
            else:
                v = getattr(m, a.name)
            self.store(a.asname or a.name, v, fr)

    def scope(self, node, body):
        r = self.scope_cache.get(id(node))
        if r is None:
            names, glob, nonl = assigned_names(body)
            if hasattr(node, "args"):
                a = node.args
                for x in a.posonlyargs + a.args + a.kwonlyargs:
                    names.add(x.arg)
                for x in (a.vararg, a.kwarg):
                    if x:
                        names.add(x.arg)
            r = (frozenset(names), glob, nonl, has_yield(body))
            self.scope_cache[id(node)] = r
            self.keep = getattr(self, "keep", [])
            self.keep.append(node)
        return r

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, fr)
        self.store(s.name, f, fr)

    def decorate(self, d, f, fr):
        dv = self.ev(d, fr)
        return self.call(dv, [f], {})

    def make_func(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        body = node.body if isinstance(node.body, list) else [ast.Return(node.body, lineno=node.lineno)]
        sc = self.scope(node, body)
        # class frames are not enclosing scopes for functions
        clo = fr
        while clo is not None and getattr(clo, "locals_", None) == "class":
            clo = clo.parent
        f = self.ctx.new(VFunc, node=node, closure=clo if clo is not clo.globals_ else None, defaults=defaults,
                         kwdefaults=kwd, name=name, module=fr.globals_, is_gen=sc[3],
                         qual=(fr.globals_.vars.get("__name__", "?") + ":" +
                               (fr.name.rpartition(":")[2] + "." if fr is not fr.globals_ else "") + name),
                         ident=id(node), attrs={})
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        if s.keywords:
            raise Unsupported("class keywords")
        cf = self.ctx.new(Frame, vars={}, parent=fr if fr is not fr.globals_ else None, name=fr.name + ":" + s.name,
                          globals_=fr.globals_, nonlocals=set(), globalnames=set(), locals_="class")
        cf.locals_ = None
        cls_frame = cf
        self.stack.append(cf)
        try:
            self.block_class(s.body, cls_frame, fr)
        finally:
            self.stack.pop()
        c = self.ctx.new(VClass, name=s.name, bases=bases, attrs=dict(cf.vars), native_base=None)
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, fr)
        self.store(s.name, v, fr)

    def block_class(self, body, cf, fr):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, fr, cf.name.rpartition(":")[2] + "." + st.name)
                for d in reversed(st.decorator_list):
                    f = self.decorate(d, f, cf)
                self.store(st.name, f, cf)
            else:
                self.stmt(st, cf)

    # ---------------------------------------------------------------- loops
    def s_While(self, s, fr):
        self.driver.run_while(s, fr)

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.driver.run_for(s, fr, it)

    # ---------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elems(e.elts, fr))

    def e_List(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.lib.items_of(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return self.ctx.list(out)

    def elems(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.lib.unpack(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        return self.lib.make_set(self.elems(e.elts, fr))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, fr)
                if not isinstance(o, VDict):
                    raise Unsupported("** of non-dict")
                d.update(o.d)
            else:
                kk = self.ev(k, fr)
                if not is_concrete(kk):
                    kk = self.lib.concretize(kk)
                d[kk] = self.ev(v, fr)
        return self.ctx.new(VDict, d=d)

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.ev(x, fr)
            t = self.truth(v)
            if t != isand:
                return v if not isinstance(v, (SBool,)) else t
        return self.ev(e.values[-1], fr)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return mk_int(-term(v)) if isinstance(v, SInt) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported("unary op")

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b):
        return self.lib.binop(op, a, b)

    def e_Compare(self, e, fr):
        a = self.ev(e.left, fr)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(r, fr)
            v = self.lib.compare(op, a, b)
            if i == n - 1:
                return v
            if not self.truth(v):
                return False
            a = b

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.name.endswith("<comp>"):
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    if not is_concrete(x):
                        x = SOp("repr", (x,))
                    else:
                        x = repr(x)
                elif v.conversion not in (-1, 115):
                    raise Unsupported("f-string conversion")
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, fr)
                    if not (is_concrete(x) and is_concrete(spec)):
                        raise Unsupported("f-string format of symbolic value")
                    parts.append(format(x, spec))
                    continue
                parts.append(self.lib.to_str(x))
        return self.lib.concat(parts)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_index(self, sl, fr):
        if isinstance(sl, ast.Slice):
            f = lambda x: None if x is None else self.ev(x, fr)
            return slice(f(sl.lower), f(sl.upper), f(sl.step))
        return self.ev(sl, fr)

    def e_Subscript(self, e, fr):
        return self.lib.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Await(self, e, fr):
        raise Unsupported("await")

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        self.lib.list_append(self.gen_sink(fr), v)
        return None

    def e_YieldFrom(self, e, fr):
        self.lib.list_extend(self.gen_sink(fr), self.ev(e.value, fr))
        return None

    def gen_sink(self, fr):
        f = fr
        while f is not None:
            if "<yield>" in f.vars:
                return f.vars["<yield>"]
            f = f.parent
        raise Unsupported("yield outside generator")

    # -------------------------------------------------------- comprehension
    def e_ListComp(self, e, fr):
        return self.lib.comprehension(e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        return VPipe("genexp", e, fr)

    def e_SetComp(self, e, fr):
        return self.lib.comprehension(e, fr, "set")

    def e_DictComp(self, e, fr):
        return self.lib.comprehension(e, fr, "dict")

    # ----------------------------------------------------------- attributes
    def getattr(self, o, name):
        return self.lib.getattr(o, name)

    def setattr(self, o, name, v):
        if isinstance(o, VObj):
            d = dict(o.attrs)
            d[name] = v
            self.ctx.set(o, "attrs", d)
        elif isinstance(o, VClass):
            d = dict(o.attrs)
            d[name] = v
            self.ctx.set(o, "attrs", d)
        elif isinstance(o, VModule):
            self.ctx.setvar(o.frame, name, v)
        elif isinstance(o, VFunc):
            d = dict(o.attrs)
            d[name] = v
            self.ctx.set(o, "attrs", d)
        else:
            raise Unsupported(f"attribute assignment on {o}")

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if v is None or v is True or v is False:
            return bool(v)
        if isinstance(v, SBool):
            return self.ctx.decide(v.t)
        if isinstance(v, SInt):
            return self.ctx.decide(v.t != 0)
        if isinstance(v, CONCRETE):
            return bool(v)
        if isinstance(v, (SStr, NumStr, SCat, SOp, AText, AnyStr)):
            return not self.lib.is_empty_str(v)
        if isinstance(v, VList):
            return not self.lib.list_empty(v)
        if isinstance(v, (VDict, VSet)):
            return bool(v.d)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, (VFunc, VClass, VModule, BMethod, VExc, type)):
            return True
        if isinstance(v, VObj):
            f = self.lib.class_attr(v.cls, "__bool__")
            if f is not MISSING:
                return self.truth(self.call(f, [v], {}))
            f = self.lib.class_attr(v.cls, "__len__")
            if f is not MISSING:
                return self.truth(self.call(f, [v], {}))
            return True
        if isinstance(v, (frozenset, re.Match, re.Pattern)):
            return bool(v)
        raise Unsupported(f"truth of {type(v).__name__}")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = self.elems(e.args, fr) if not any(
            isinstance(a, ast.Starred) for a in e.args) else self.elems(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if not isinstance(d, VDict):
                    raise Unsupported("** argument")
                kw.update(d.d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        self.where = (fr.name, e.lineno)
        if f is self.lib.builtins["locals"] or f is self.lib.builtins["super"]:
            return f(fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, VFunc):
            if "\0cached" not in f.attrs:
                return self.call_func(f, args, kw)
            for x in (*args, *kw.values()):
                self.lib.hashable(x)
            r = self.call_func(f, args, kw)
            self.ctx.freeze(r)  # later calls may get the same object
            return r
        if isinstance(f, BMethod):
            if isinstance(f.fn, str):
                return self.lib.method(f.self_, f.fn, args, kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, VClass):
            return self.lib.instantiate(f, args, kw)
        if isinstance(f, VSpecial):
            if f.kind == "partial":
                fn, a0, k0 = f.fn
                return self.call(fn, list(a0) + list(args), {**k0, **kw})
            if f.kind == "native":
                return f.fn(*args, **kw)
            raise Unsupported("call of descriptor")
        return self.lib.call_native(f, args, kw)

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        for n, v in zip(pos, args):
            vals[n] = v
        if len(args) > len(pos):
            if not a.vararg:
                self.raise_(TypeError, f"{f.name}() takes {len(pos)} positional arguments")
            vals[a.vararg.arg] = tuple(args[len(pos):])
        elif a.vararg:
            vals[a.vararg.arg] = ()
        posonly = {x.arg for x in a.posonlyargs}
        for n in list(kw):
            if (n in pos and n not in posonly) or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    self.raise_(TypeError, f"multiple values for {n}")
                vals[n] = kw.pop(n)
        if kw:
            if not a.kwarg:
                self.raise_(TypeError, f"unexpected keyword {sorted(kw)}")
        if a.kwarg:
            vals[a.kwarg.arg] = self.ctx.new(VDict, d=kw)
        for n, d in zip(pos[len(pos) - len(f.defaults):], f.defaults):
            vals.setdefault(n, d)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in f.kwdefaults:
                    vals[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.raise_(TypeError, f"missing {x.arg}")
        for n in pos:
            if n not in vals:
                self.raise_(TypeError, f"missing argument {n}")
        return vals

    def call_func(self, f, args, kw):
        self.covered.add(f.qual)
        c = self.contracts.get(f.qual)
        if c is not None:
            r = c(self, f, args, kw)
            if r is not MISSING:
                return r
        if f.closure is None and not f.is_gen:
            r = self.pointwise(f, args, kw)
            if r is not MISSING:
                return r
        vals = self.bind(f, args, kw)
        if self.ctx.widen and self.depth and self.driver.mergeable(f):
            r = self.driver.run_call(f, vals)
            if r is not MISSING:
                return r
        return self.run_func(f, vals)

    def run_func(self, f, vals):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported("recursion depth")
        body = f.node.body if isinstance(f.node.body, list) else None
        names, glob, nonl, gen = self.scope(f.node, f.node.body if body is not None else [ast.Return(f.node.body)])
        fr = self.ctx.new(Frame, vars=dict(vals), parent=f.closure, name=f.qual, globals_=f.module,
                          nonlocals=nonl, globalnames=glob, locals_=names, node=f.node)
        sink = None
        if gen:
            sink = self.ctx.list()
            fr.vars["<yield>"] = sink
        self.stack.append(fr)
        try:
            if body is None:
                return self.ev(f.node.body, fr)
            self.block(body, fr)
            return sink
        except ReturnEx as r:
            return sink if gen else r.v
        finally:
            self.stack.pop()
            self.depth -= 1

    # ----------------------------------------------------------- pointwise
    def intern(self, key):
        t = self.interned
        r = t.get(key)
        if r is None:
            r = t[key] = len(t) + 1
        return r

    def contentkey(self, v, depth=4):
        """Hashable description of a value's whole content, or None."""
        if isinstance(v, (str, int, bool, type(None), float, bytes)):
            return (type(v).__name__, v)
        if isinstance(v, (tuple, frozenset)):
            return ("T", v) if is_concrete(v) else None
        if depth == 0:
            return None
        if isinstance(v, VDict):
            c = self.idcache.get(id(v.d))
            if c is not None and c[0] is v.d:
                return c[1]
            if all(is_concrete(x) for x in v.d.values()):
                k = ("D", self.intern(("D",) + tuple(v.d.items())))
                if len(v.d) > 4:
                    self.idcache[id(v.d)] = (v.d, k)
                return k
            items = [(a, self.contentkey(x, depth - 1)) for a, x in v.d.items()]
            if any(x is None for _, x in items):
                return None
            return ("D", self.intern(("D",) + tuple(items)))
        if isinstance(v, VList):
            if not is_concrete(v.items):
                return None
            return ("L", v.items)
        if isinstance(v, VSet):
            return ("S", tuple(v.d)) if all(is_concrete(x) for x in v.d) else None
        if isinstance(v, VFunc):
            return ("F", v.ident) if v.closure is None and not v.attrs else None
        if isinstance(v, (VObj, VClass)):
            items = []
            for n in sorted(v.attrs):
                k = self.contentkey(v.attrs[n], depth - 1)
                if k is None:
                    return None
                items.append((n, k))
            if isinstance(v, VObj):
                items.append(self.contentkey(v.cls, depth))
            return ("O", v.oid if isinstance(v, VClass) else 0, self.intern(tuple(items)))
        if isinstance(v, VModule):
            return ("M", v.name)
        if isinstance(v, VSpecial):
            return (v.kind, self.contentkey(v.fn, depth - 1)) if isinstance(v.fn, VFunc) else None
        if isinstance(v, type) or callable(v):
            return ("N", id(v))
        return None

    argkey = contentkey

    def pointwise(self, f, args, kw):
        """Call of a module-level function whose only symbolic argument is a
        string from a finite set (or has none): evaluate per element."""
        ctx = self.ctx
        sym = None
        keys = []
        flat = list(args) + [kw[k] for k in sorted(kw)]
        for i, a in enumerate(flat):
            if isinstance(a, SStr):
                if sym is not None:
                    return MISSING
                sym = i
                keys.append(None)
            else:
                k = self.argkey(a)
                if k is None:
                    return MISSING
                keys.append(k)
        base = (f.ident, tuple(sorted(kw)), len(args), self.ctx.globalver)
        if sym is None:
            if not flat or not all(isinstance(a, (str, int, bool, type(None))) or isinstance(a, VObj) for a in flat):
                return MISSING
            if not any(isinstance(a, str) for a in flat):
                return MISSING
            r = self.pw_eval(f, args, kw, base, tuple(keys), None, None)
            if r is MISSING:
                return MISSING
            kind, v = r
            if kind == "exc":
                raise PyExc(v, self.where)
            return v
        s = flat[sym]
        sp = ctx.finite(s)
        if sp is None:
            return MISSING
        poss = ctx.possible(s)
        if len(poss) > 3000:
            return MISSING
        res = {}
        for w in sorted(poss):
            r = self.pw_eval(f, args, kw, base, tuple(keys), sym, w)
            if r is MISSING:
                return MISSING
            res[w] = r
        return self.pw_result(s, sp, res)

    def pw_result(self, s, sp, res):
        def cls(w):
            kind, v = res[w]
            if kind == "exc":
                return ("exc", v.cls if isinstance(v.cls, type) else v.cls.oid)
            if isinstance(v, str):
                return ("str",)
            return ("v", type(v).__name__, v)

        c = sp(s, cls)
        if c[0] == "v":
            return c[2]
        if c[0] == "exc":
            w = sorted(self.ctx.possible(s))[0]
            raise PyExc(res[w][1], self.where)
        poss = self.ctx.possible(s)
        tab = {w: res[w][1] for w in poss}
        vals = set(tab.values())
        if len(vals) == 1:
            return next(iter(vals))
        if all(k == v for k, v in tab.items()):
            return s
        return self.lib.tab(s, tab)

    def pw_eval(self, f, args, kw, base, keys, sym, w):
        key = base + (keys, w)
        r = self.memo.get(key)
        if r is not None:
            return r
        a = list(args)
        k = dict(kw)
        if sym is not None:
            if sym < len(a):
                a[sym] = w
            else:
                k[sorted(kw)[sym - len(a)]] = w
        ctx = self.ctx
        mark, oid0, fresh0 = len(ctx.log), ctx.oid, ctx.fresh
        ntrace = len(ctx.trace)
        try:
            v = self.run_func(f, self.bind(f, a, k))
            r = ("v", v)
        except PyExc as e:
            r = ("exc", e.exc)
        if len(ctx.trace) != ntrace:
            raise Unsupported("decision inside a concrete call")
        pure = all(hasattr(o, "oid") and o.oid > oid0 for o, _, _, _ in ctx.log[mark:])
        ctx.rollback(mark)
        ctx.oid, ctx.fresh = oid0, fresh0
        if not pure or (r[0] == "v" and not (is_concrete(r[1]))) or (
                r[0] == "exc" and not all(is_concrete(x) for x in r[1].args)):
            r = MISSING
        self.memo[key] = r
        return r
