"""The loop rule.

A loop over a symbolic sequence is verified with an inductive invariant per
automaton node (and per shape of the modified locations).  Invariants are
inferred (Houdini over a candidate set built from the automaton's registers)
and then *checked*: the final pass of every state executes the loop body once
from an arbitrary state satisfying the invariant, for every edge, and every
resulting state has been shown to satisfy the target's invariant.
"""
import ast
import functools
import itertools
import os

import z3

from .auto import TAuto
from .ghost import InvariantFailed, Trace, TraceView
from .interp import is_concrete
from .values import *


class Restart(Exception):
    """internal: the fixpoint must start again (new location found)"""


class IntLeaf:
    __slots__ = ("cands", "lo")

    def __init__(self):
        self.cands = None
        self.lo = None

    def __repr__(self):
        return f"Int({self.cands},{self.lo})"


@functools.lru_cache(None)
def leads(auto, a, b):
    """Is there a way in the automaton from node a to node b?"""
    seen, todo = {a}, [a]
    while todo:
        for e in auto.out[todo.pop()]:
            if e.dst not in seen:
                seen.add(e.dst)
                todo.append(e.dst)
    return b in seen


def hashable(t):
    try:
        hash(t)
        return t
    except TypeError:  # (a table)
        return repr(t)


class State:
    __slots__ = ("node", "shape", "trees", "version", "done", "exits", "now")

    def __init__(self, node, shape):
        self.node, self.shape = node, shape
        self.trees = {}
        self.version = 0
        self.done = -1
        self.exits = []


class TokView:
    def __init__(self, driver, seq, pipes, mode, enum0=None):
        self.d, self.seq, self.pipes, self.mode, self.enum0 = driver, seq, pipes, mode, enum0
        self.auto = seq.auto
        self.start = self.auto.start
        self.ghost = driver.ctx.exact == seq.id
        if self.ghost and (mode != "single" or driver.ctx.gout is None):
            raise Unsupported("a second loop over the text")
        self.cur = None  # the edge and token of the current iteration
        self.state = None  # the state it started in
        self.segs = {}

    def key(self):
        return ("tok", self.seq.id)

    def edges(self, node):
        return self.auto.out[node]

    def start_regs(self, ctx):
        if self.auto.initial is not None:
            return dict(self.auto.initial)
        return self.auto.inst(ctx, self.start)

    def inst(self, ctx, node):
        return self.auto.inst(ctx, node)

    def consts(self, node):
        return self.auto.consts[node]

    def accept(self, node):
        return node in self.auto.accept

    def fire(self, ctx, e, r):
        tok, r2 = self.auto.fire(ctx, e, r)
        if self.ghost:
            self.cur = e, tok
            if e.out is not None:
                v = tok.atom.var if isinstance(tok, SStr) else None
                ctx.setattr_ctx("gout", ctx.gout + e.out(r, v, tok))
        vals = []
        for stages in self.pipes:
            v = tok
            keep = True
            for k, f in stages:
                if k == "map":
                    v = f(v)
                elif not f(v):
                    keep = False
                    break
            if not keep:
                return False, None, e.dst, r2
            vals.append(v)
        el = vals[0] if self.mode == "single" else tuple(vals)
        if self.enum0 is not None:
            i = ctx.int_var("idx")
            ctx.assume(i >= self.enum0)
            el = (SInt(i), el)
        return True, el, e.dst, r2

    def final(self, ctx, node, r):
        if self.seq.id not in ctx.seq_final:
            ctx.setattr_ctx("seq_final", {**ctx.seq_final, self.seq.id: (node, r)})

    def forced(self, ctx):
        return ctx.seq_final.get(self.seq.id)


class SumView:
    """Iteration over a list known by its local language."""

    def __init__(self, driver, seg):
        self.d, self.seg = driver, seg
        self.start = None

    def edges(self, node):
        nxt = self.seg.first if node is None else {b for a, b in self.seg.pairs if a == node}
        return sorted(nxt, key=repr)

    def start_regs(self, ctx):
        return {}

    def inst(self, ctx, node):
        return {}

    def consts(self, node):
        return {}

    def accept(self, node):
        return self.seg.empty if node is None else node in self.seg.last

    def fire(self, ctx, e, r):
        return True, self.d.instantiate(self.seg.kinds[e]), e, {}

    def final(self, ctx, node, r):
        pass

    def forced(self, ctx):
        return None


class OnceView:
    start = None

    def __init__(self):
        self.segs = {}

    def consts(self, node):
        return {}

    def inst(self, ctx, node):
        return {}


class WhileView:
    start = "w"

    def __init__(self, driver, s, fr):
        self.d, self.s, self.fr = driver, s, fr

    def edges(self, node):
        return ["iter"]

    def start_regs(self, ctx):
        return {}

    def inst(self, ctx, node):
        return {}

    def consts(self, node):
        return {}

    def accept(self, node):
        return False

    def fire(self, ctx, e, r):
        if not self.d.I.truth(self.d.I.ev(self.s.test, self.fr)):
            raise TestFalse()
        return True, MISSING, "w", {}

    def final(self, ctx, node, r):
        pass

    def forced(self, ctx):
        return None


class Finger:
    """Path-independent description of values; objects and unknown strings are
    numbered in the order of discovery."""

    def __init__(self, d):
        self.d, self.ctx, self.I = d, d.ctx, d.I
        self.num = {}  # oid -> number
        self.atoms = {}
        self.seqs = {}
        self.frames = []

    def obj(self, oid):
        return self.num.setdefault(oid, len(self.num))

    def val(self, v):
        if v is None or isinstance(v, (str, int, bool, float)):
            return (type(v).__name__, v)
        if isinstance(v, Seg):
            return self.seg(v)
        if isinstance(v, AText):
            tf = sorted((k[1:], r) for k, r in self.ctx.textfacts.items() if k[0] == v.seq.id)
            return (v.seq.auto.name, self.seqn(v.seq), v.ops, tuple(tf), self.ctx.seq_final.get(v.seq.id) is None)
        if type(v) is Poison:
            return "poison"
        if isinstance(v, SStr):
            new = v.atom.id not in self.atoms
            k = ("a", self.atoms.setdefault(v.atom.id, len(self.atoms)), v.chain)
            if new:
                if v.atom.var is not None and not isinstance(v.atom.var, int):
                    raise LookupError
                k += (self.dom(self.ctx.dom[v.atom.id]), v.atom.var)
            return k
        if isinstance(v, VList):
            new = v.oid not in self.num
            return ("L", self.obj(v.oid)) + ((tuple(self.val(x) for x in v.items),) if new else ())
        if isinstance(v, tuple):
            return ("T", tuple(self.val(x) for x in v))
        if isinstance(v, VFunc):
            if v.closure is not None:
                self.frames.append(v.closure)
                return ("F", v.ident, self.obj(v.oid), v.closure.oid in self.num and self.num[v.closure.oid])
            return ("F", v.ident)
        if isinstance(v, BMethod):
            return ("B", self.val(v.self_), self.val(v.fn))
        if isinstance(v, NumStr):
            return ("n", self.val(v.v))
        if type(v) is AnyStr:
            return ("S", v.origin)
        k = self.I.contentkey(v)
        if k is None:
            raise LookupError
        return (self.obj(v.oid) if isinstance(v, (VObj, VDict, VSet)) else None, k)

    def seqn(self, seq):
        return self.seqs.setdefault(seq.id, len(self.seqs))

    def dom(self, d):
        if isinstance(d, Fin):
            return ("f", d.s)
        return (d.cls, d.excl, frozenset(d.facts), d.normfin)

    def seg(self, x):
        if isinstance(x, SumSeg):
            return ("S", tuple(sorted(((k, self.tree(t)) for k, t in x.kinds.items()), key=repr)), x.first, x.last, x.pairs, x.empty)
        if isinstance(x, TokSeg):
            ks = []
            for k, f in x.stages:
                sk = getattr(f, "stagekey", None)
                if sk is None:
                    raise LookupError
                ks.append((k, sk))
            return ("K", x.seq.auto.name, self.seqn(x.seq), tuple(ks))
        if isinstance(x, EntrySeg):
            return ("E", x.key)
        raise LookupError  # (GhostSeg, TraceSeg)

    def tree(self, t):
        if t[0] in ("i", "n"):
            if any(c[0] != "const" for c in t[1].cands):
                raise LookupError
            return (t[0], tuple(t[1].cands), t[1].lo)
        return t


class TestFalse(Signal):
    pass


MAXLIT = 3
DEAD = object()


class Driver:
    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.live = set()  # (id(stmt), name)
        self.inline = set()  # (id(stmt), name)
        self.modset = {}  # (id(stmt)) -> ordered dict of location descriptors
        self.cache = {}
        self.static = {}
        self.fine = set()  # (id(stmt), list): the items of the list matter
        self.noghost = set()  # (id(stmt), frame name, variable): list read in the loop
        self.origin = None
        self.report = {}  # loop -> statistics
        self.passno = 0
        self.learning = False  # paths that use a trace are left for later
        self.ghosts = {}
        self.nomerge = set()  # functions whose final states are not joined
        self.fresh0 = 0  # variables up to this number exist outside the loop

    # ------------------------------------------------------------- liveness
    def need_live(self, p):
        key = (p.loop, p.name)
        if key in self.live:
            import os
            if os.environ.get("PYVC_DEBUG"):
                print("LIVE", self.live, p, self.static)
            raise Unsupported(f"variable {p.name} has no value here")
        self.live.add(key)
        self.cache.clear()
        self.modset.clear()
        raise NeedRestart()

    def refine(self, origin):
        keys = origin if isinstance(origin, frozenset) else {origin}
        for k in keys:
            tgt = self.fine if len(k) == 2 else self.noghost
            if k in tgt:
                raise Unsupported(f"items of a list after all: {k[1:]}")
            tgt.add(k)
        self.cache.clear()
        self.modset.clear()
        self.nomerge.clear()

    def visible(self, s, fr):
        """Names that the loop, or a local function it can reach, mentions."""
        def of(nodes):
            return frozenset(x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name)) | frozenset(
                y for n in nodes for x in ast.walk(n) if isinstance(x, (ast.Nonlocal, ast.Global)) for y in x.names)

        out = set(of(list(s.body) + [s.test if isinstance(s, ast.While) else s.target]))
        while True:
            new = set()
            f = fr
            frames = []
            while f is not None and f is not f.globals_:
                frames.append(f)
                f = f.parent
            for f in frames:
                for n, v in f.vars.items():
                    vs = [v]
                    if isinstance(v, BMethod):
                        vs = [v.self_, v.fn]
                    for w in vs:
                        if n in out and isinstance(w, VFunc) and w.closure is not None:
                            b = w.node.body
                            new |= of(b if isinstance(b, list) else [b]) - out
            if not new:
                return out
            out |= new

    def hide(self, s, fr):
        """Replace the contents of the lists that the loop (as far as known)
        does not read by a placeholder -> {key: contents}"""
        out, seen, todo = {}, set(), [fr]
        done = set()
        while todo:
            f = todo.pop(0)
            if f is None or f is f.globals_ or f.oid in seen:
                continue
            seen.add(f.oid)
            todo.append(f.parent)
            for n in sorted(f.vars):
                v = f.vars[n]
                if isinstance(v, VFunc) and v.closure is not None:
                    todo.append(v.closure)
                if not isinstance(v, VList) or v.oid in done or not v.items:
                    continue
                done.add(v.oid)
                k = (id(s), f.name, n)
                if k in self.noghost:
                    continue
                out[k] = v.items
                self.ctx.log.append((v, "items", v.items, "hide"))
                v.items = (EntrySeg(k),)
        return out

    def unhide(self, hidden, oid0, extra=()):
        """Put the contents back everywhere."""
        if not hidden:
            return
        ctx = self.ctx

        def has(v):
            return any(isinstance(x, EntrySeg) and x.key in hidden for x in v.items)

        def put(v):
            its = []
            for x in v.items:
                if isinstance(x, EntrySeg) and x.key in hidden:
                    its.extend(hidden[x.key])
                else:
                    its.append(x)
            ctx.log.append((v, "items", v.items, "hide"))
            v.items = tuple(its)

        todo = {id(v): v for v in extra}
        for o in range(oid0 + 1, ctx.oid + 1):
            v = ctx.objs.get(o)
            if isinstance(v, VList):
                todo[id(v)] = v
        for v in todo.values():
            if has(v):
                put(v)

    def static_live(self, s, fr):
        key = (id(s), fr.name)
        r = self.static.get(key)
        if r is not None:
            return r
        out = set()
        first = {}
        body = list(s.body) + ([s.test] if isinstance(s, ast.While) else [s.target])
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    p = (n.lineno, n.col_offset)
                    if n.target.id not in first or p <= first[n.target.id][0]:
                        first[n.target.id] = (p, True)
                elif isinstance(n, ast.Name):
                    p = (n.lineno, n.col_offset)
                    ld = isinstance(n.ctx, ast.Load)
                    if isinstance(st, ast.Assign) and not ld:
                        p = (st.end_lineno, 10 ** 6)
                    if n.id not in first or p < first[n.id][0]:
                        first[n.id] = (p, ld)
        out |= {k for k, (_, ld) in first.items() if ld}
        self.static[key] = out
        self.keep = getattr(self, "keep", [])
        self.keep.append(s)
        return out

    # ---------------------------------------------------------------- entry
    def run_for(self, s, fr, it):
        I, ctx = self.I, self.ctx
        views = self.views(it)
        if views is None:  # concrete
            items = I.lib.items_of(it)
            src = it if isinstance(it, VList) else None
            before = src.items if src is not None else None
            for x in items:
                I.assign(s.target, x, fr)
                try:
                    I.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                if src is not None and src.items is not before:
                    raise Unsupported("list changed during iteration")
            I.block(s.orelse, fr)
            return
        for n, v in enumerate(views):
            if isinstance(v, tuple):  # one concrete item
                I.assign(s.target, v[0], fr)
                try:
                    I.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
            else:
                try:
                    self.run_view(s, fr, v, n == len(views) - 1)
                except BreakEx:
                    return
        I.block(s.orelse, fr)

    def views(self, it):
        """None when `it` has no symbolic segment, else a list of views and
        1-tuples (concrete items)."""
        I = self.I
        enum0 = None
        if isinstance(it, VPipe) and it.kind == "enumerate":
            enum0, it = it.args[1], it.args[0]
        if isinstance(it, VPipe) and it.kind == "zip":
            ls = [I.lib.items_of(x) for x in it.args]
            if not any(isinstance(x, Seg) for l in ls for x in l):
                return None
            if all(len(l) == 1 and isinstance(l[0], TokSeg) for l in ls) and len({l[0].seq.id for l in ls}) == 1 and not any(
                    k == "filter" for l in ls for k, _ in l[0].stages):
                return [TokView(self, ls[0][0].seq, [l[0].stages for l in ls], "zip", enum0)]
            raise Unsupported("zip of different symbolic lists")
        items = I.lib.items_of(it)
        if not any(isinstance(x, Seg) for x in items):
            return None
        if enum0 is not None and len(items) != 1:
            raise Unsupported("enumerate over a mixed list")
        out = []
        for x in items:
            if isinstance(x, TokSeg):
                out.append(TokView(self, x.seq, [x.stages], "single", enum0))
            elif isinstance(x, SumSeg):
                if enum0 is not None:
                    raise Unsupported("enumerate over an abstract list")
                out.append(SumView(self, x))
            elif isinstance(x, TraceSeg):
                if self.learning:
                    raise Infeasible()
                out.append(TraceView(self, x, enum0))
            elif isinstance(x, Seg):
                out.append(self.special_view(x))
            else:
                out.append((x,))
        return out

    def special_view(self, x):
        if isinstance(x, EntrySeg):
            raise Refine(x.key)
        raise Unsupported(f"iteration over {x}")

    def symbolic_while(self, s, fr):
        """Does the loop modify a list of unknown length?"""
        for loc in self.preseed(s, fr):
            v = self.locvalue(loc)
            for x in (v.items if isinstance(v, VList) else v if isinstance(v, tuple) else ()):
                if isinstance(x, Seg) and not isinstance(x, TraceSeg):
                    return True
        return False

    def run_while(self, s, fr):
        I, ctx = self.I, self.ctx
        if self.symbolic_while(s, fr):
            try:
                self.run_view(s, fr, WhileView(self, s, fr))
            except BreakEx:
                return
            I.block(s.orelse, fr)
            return
        for _ in range(40):
            if not I.truth(I.ev(s.test, fr)):
                I.block(s.orelse, fr)
                return
            try:
                I.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
        raise Unsupported("while loop not finished after 40 rounds")

    # ------------------------------------------------------------- fixpoint
    def run_view(self, s, fr, view, last=True):
        ctx, I = self.ctx, self.I
        ctx.loopcount += 1
        key = (ctx.pkey, tuple(c for c, _ in ctx.trace), id(s), ctx.loopcount, last)
        mark = len(ctx.log)
        oid0 = ctx.oid
        hidden = self.hide(s, fr)
        res = self.cache.get(key)
        if res is None:
            fp, order = self.fingerprint(s, fr, view)
            if fp is not None:
                fp = (last, fp)
            if fp is not None:
                hit = self.cache.get(fp)
                if hit is not None:
                    res = self.relocate(hit, order)
            if res is None:
                ctx.feasible()  # (a result must not come from a contradictory path)
                for _ in range(200):
                    try:
                        res = self.fixpoint(s, fr, view, key)
                        break
                    except Restart:
                        continue
                else:
                    raise Unsupported("loop analysis does not stabilise")
                if ctx.widen:
                    res = self.merge_exits(s, fr, res, last)
                if fp is not None:
                    self.cache[fp] = (res, order)
                self.note(s, fr, res)
            self.cache[key] = res
        try:
            self.leave(s, fr, view, res)
        finally:
            if hidden:
                self.unhide(hidden, oid0, [o for o, f, _, _ in ctx.log[mark:] if isinstance(o, VList)])

    def live_after(self, s, fr):
        """Names the function may read after the loop; None: any."""
        key = ("after", id(s))
        if key not in self.static:
            node = getattr(fr, "node", None)
            r = None
            if node is not None and not fr.name.endswith("<comp>") and isinstance(node, ast.FunctionDef):
                inner = [n for n in ast.walk(node) if isinstance(n, (ast.For, ast.While)) and n is not s and any(m is s for m in ast.walk(n))]
                here = {id(x) for x in ast.walk(s)}
                if not inner:
                    r = frozenset(x.id for x in ast.walk(node) if isinstance(x, ast.Name) and (
                        id(x) not in here and x.lineno >= s.lineno)) | frozenset(
                        x.id for n in ast.walk(node) if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(n)
                        if isinstance(x, ast.Name))
                    r |= frozenset(x.id for st in s.orelse for x in ast.walk(st) if isinstance(x, ast.Name))
            self.static[key] = r
        return self.static[key]

    def merge_exits(self, s, fr, res, last):
        """Forget distinctions between final states that do not matter later."""
        states, exits, locs = res
        after = self.live_after(s, fr) if last else None
        states = dict(states)
        out, groups = [], {}
        for ex in exits:
            if ex[1] != "end":
                out.append(ex)
                continue
            st = states[ex[0]]
            proj = []
            for loc in locs:
                t = st.trees[loc]
                if t[0] != "dead" and after is not None and loc[0] == fr.oid and type(loc[1]) is tuple and loc[1][1] not in after:
                    t = ("dead",)
                proj.append(t)
            groups.setdefault((st.node, tuple(t[0] if t[0] not in ("c", "G", "T") else hashable(t) for t in proj)), []).append(proj)
        for i, ((node, kinds), ps) in enumerate(groups.items()):
            st = State(node, ("merged", i))
            for j, loc in enumerate(locs):
                self.origin = self.origin_of(dict(s=s, fr=fr), loc)
                t = ps[0][j]
                for p in ps[1:]:
                    t = self.join_any(t, p[j])
                st.trees[loc] = t
            states[(node, st.shape)] = st
            out.append(((node, st.shape), "end"))
        return states, out, locs

    def join_any(self, a, b):
        if a == b or a[0] in ("c", "ref", "dead"):
            return a
        if a[0] in ("items", "nl"):
            return (a[0], self.join_seqs(a[1], b[1]))
        if a[0] == "t":
            return ("t", tuple(self.join_any(x, y) for x, y in zip(a[1], b[1])))
        return self.join_trees(a, b) or a

    def join_seqs(self, a, b):
        if a[0] == "pre" or b[0] == "pre":
            if a[0] != b[0] or a[1].key != b[1].key:
                raise Refine((a if a[0] == "pre" else b)[1].key)
            return ("pre", a[1], self.join_seqs(a[2], b[2]))
        if a[0] == "lit" and b[0] == "lit" and a[2] == b[2]:
            return ("lit", tuple(self.join_any(x, y) for x, y in zip(a[1], b[1])), a[2])
        a, b = (self.lit_to_sum(x) if x[0] == "lit" else x for x in (a, b))
        kinds = dict(a[1])
        for k, x in b[1].items():
            kinds[k] = (self.join_trees(kinds[k], x) or kinds[k]) if k in kinds else x
        return ("sum", kinds, a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] or b[5])

    def relocate(self, hit, order):
        """A result found for another state of the same shape, with this
        state's objects put in for the other's; None when it is about objects
        that the description does not name."""
        (states, exits, locs), old = hit
        m = dict(zip(old, order))

        def known(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ("ref", "r") and isinstance(x[1], int):
                    return x[1] in m or x[1] <= self.ctx.init_oid
                return all(known(y) for y in x)
            return all(known(y) for y in x.values()) if isinstance(x, dict) else True

        if not all(l[0] in m or l[0] <= self.ctx.init_oid for l in locs):
            return None
        if not all(known(k[1]) and known(st.trees) for k, st in states.items()):
            return None
        if old == order:
            return hit[0]

        def tr(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ("ref", "r") and isinstance(x[1], int):
                    return (x[0], m.get(x[1], x[1]))
                return tuple(tr(y) for y in x)
            if isinstance(x, dict):
                return {k: tr(y) for k, y in x.items()}
            return x

        mloc = lambda l: (m.get(l[0], l[0]), l[1])
        out = {}
        for (node, shape), st in states.items():
            n = State(node, tr(shape))
            n.trees = {mloc(l): tr(t) for l, t in st.trees.items()}
            out[(node, tr(shape))] = n
        return out, [((k[0], tr(k[1])), *rest) for k, *rest in exits], [mloc(l) for l in locs]

    def fingerprint(self, s, fr, view):
        if getattr(view, "ghost", False):
            return None, None
        """Key of everything the loop can see (its frame, enclosing frames and
        all objects reachable from them, up to renaming of objects), when all
        of it is described independently of the path; else None."""
        if isinstance(view, TokView):
            out = [id(s), view.auto.name, view.mode, view.enum0]
            for p in view.pipes:
                for k, f in p:
                    sk = getattr(f, "stagekey", None)
                    if sk is None:
                        return None, None
                    out.append((k, sk))
        elif isinstance(view, TraceView):
            out = [id(s), "trace", view.tr.key, view.tr.version, view.enum0]
        elif isinstance(view, SumView):
            out = [id(s), "sum"]
        else:
            out = [id(s), "while"]
        out.append(self.ctx.globalver)
        fp = Finger(self)
        if isinstance(view, TokView):
            fp.seqn(view.seq)
        try:
            if isinstance(view, SumView):
                out.append(fp.val(view.seg))
            names = self.visible(s, fr)
            live = self.static_live(s, fr)
            stored = {x.id for st in list(s.body) + ([s.target] if isinstance(s, ast.For) else []) for x in ast.walk(st)
                      if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load)}
            todo = [fr]
            while todo:
                f = todo.pop(0)
                if f is None or f is f.globals_ or f.oid in fp.num:
                    continue
                fp.obj(f.oid)
                todo.append(f.parent)
                out.append(f.name)
                for n in sorted(f.vars):
                    if n in names and (f is not fr or n not in stored or n in live or (id(s), n) in self.live):
                        out.append((n, fp.val(f.vars[n])))
                todo.extend(fp.frames)
                fp.frames = []
        except LookupError:
            return None, None
        return tuple(out), tuple(fp.num)

    def note(self, s, fr, res):
        states, exits, locs = res
        r = self.report.setdefault(f"{fr.name}@{s.lineno}", dict(states=0, steps=0, times=0))
        r["states"] += len(states)
        r["times"] += 1

    def leave(self, s, fr, view, res):
        ctx, I = self.ctx, self.I
        states, exits, locs = res
        forced = view.forced(ctx)
        opts = []
        for ex in exits:
            st = states[ex[0]]
            if ex[1] == "end" and forced is not None and forced[0] != st.node:
                continue
            if ex[1] != "end" and forced is not None and isinstance(view, TokView) and not leads(view.auto, ex[3].dst, forced[0]):
                continue  # (the text is known to end elsewhere)
            opts.append(ex)
        if not opts:
            raise Infeasible()
        ex = opts[ctx.choose(len(opts))]
        st = states[ex[0]]
        if ex[1] == "end":
            if forced is not None:
                r = forced[1]
            else:
                r = view.inst(ctx, st.node)
                view.final(ctx, st.node, r)
            self.write(s, fr, st, locs, r, view=view)
            ctx.feasible()
            return
        r = view.inst(ctx, st.node)
        self.write(s, fr, st, locs, r, view=view)
        save = ctx.script, ctx.pos, ctx.trace
        ctx.script, ctx.pos, ctx.trace = list(ex[2]), 0, []
        try:
            try:
                self.body(s, fr, view, ex[3], r)
                raise Unsupported("loop exit not reproduced")
            except TestFalse:
                return
        finally:
            ctx.script, ctx.pos, ctx.trace = save

    def body(self, s, fr, view, e, r):
        I, ctx = self.I, self.ctx
        has, el, dst, r2 = view.fire(ctx, e, r)
        if has:
            if el is not MISSING:
                I.assign(s.target, el, fr)
            try:
                I.block(s.body, fr)
            except ContinueEx:
                pass
        return dst, r2

    def locvalue(self, loc):
        o = self.ctx.objs[loc[0]]
        f = loc[1]
        if type(f) is tuple:
            return o.vars.get(f[1], MISSING)
        return getattr(o, f)

    def setloc(self, loc, v):
        o = self.ctx.objs[loc[0]]
        f = loc[1]
        if type(f) is tuple:
            if v is MISSING:
                if f[1] in o.vars:
                    self.ctx.delvar(o, f[1])
            else:
                self.ctx.setvar(o, f[1], v)
        else:
            self.ctx.set(o, f, v)

    def is_live(self, s, fr, loc):
        f = loc[1]
        if type(f) is not tuple:
            return True
        o = self.ctx.objs[loc[0]]
        if o is not fr:
            return True
        return f[1] in self.static_live(s, fr) or (id(s), f[1]) in self.live

    def write(self, s, fr, st, locs, r, trees=None, view=None):
        out = {}
        for loc in locs:
            t = (trees or st.trees)[loc]
            if t[0] in ("G", "T"):
                if t[0] == "G":
                    self.ctx.fresh += 1
                    x = out[t[1]] = GhostSeg(self.ctx.fresh, "out")
                    tag = t[3]
                else:
                    x = TraceSeg(t[1], st.node, r)
                view.segs[loc] = x
                self.setloc(loc, (x,) if t[2] == "items" else SCat([JoinPart("", (x,))]) if t[2] == "str" else self.ctx.list((x,)))
            elif t[0] == "dead":
                self.setloc(loc, Poison(id(s), loc[1][1]))
            else:
                self.setloc(loc, self.inst(t, r))
        if out:
            self.ctx.setattr_ctx("gout", tuple(out[i] for i in range(len(out))))
            self.ctx.setattr_ctx("gtag", tag)

    def refcount(self, oid):
        seen = set()
        n = 0
        todo = list(self.I.stack)
        fr = []
        while todo:
            f = todo.pop()
            if f is None or f.oid in seen or f is f.globals_:
                continue
            seen.add(f.oid)
            fr.append(f)
            todo.append(f.parent)
        vals = [v for f in fr for v in f.vars.values()]
        while vals:
            v = vals.pop()
            if isinstance(v, HObj):
                if v.oid == oid:
                    n += 1
                    continue
                if v.oid in seen or v.oid < 0 or v.oid <= self.ctx.init_oid:
                    continue
                seen.add(v.oid)
                if isinstance(v, VList):
                    vals.extend(v.items)
                elif isinstance(v, VDict):
                    vals.extend(v.d.values())
                elif isinstance(v, VObj):
                    vals.extend(v.attrs.values())
                elif isinstance(v, VFunc) and v.closure is not None and v.closure.oid not in seen:
                    seen.add(v.closure.oid)
                    vals.extend(v.closure.vars.values())
                elif isinstance(v, VCell):
                    vals.append(v.v)
            elif isinstance(v, (tuple, list)):
                vals.extend(v)
            elif isinstance(v, BMethod):
                vals.append(v.self_)
            elif isinstance(v, VPipe):
                vals.extend(x for x in v.args if not isinstance(x, ast.AST))
        return n

    def fixpoint(self, s, fr, view, key):
        ctx, I = self.ctx, self.I
        oid0 = ctx.oid
        locs = self.modset.get(key)
        if locs is None:
            locs = self.modset[key] = self.preseed(s, fr)
        states = {}
        self.oid0 = oid0
        inl = {}
        for loc in list(locs):
            if type(loc[1]) is tuple and (id(s), loc[1][1]) in self.inline:
                v = self.locvalue(loc)
                if isinstance(v, VList):
                    if self.refcount(v.oid) != 1:
                        raise Unsupported(f"list {loc[1][1]} is aliased")
                    inl[v.oid] = loc
        locs = {l: k for l, k in locs.items() if not (l[1] == "items" and l[0] in inl)}
        self.passno += 1
        cx = {"s": s, "fr": fr, "view": view, "oid0": oid0, "locs": locs, "states": states, "inl": inl, "key": key, "pass": self.passno}

        def entry():
            r = view.start_regs(ctx)
            self.arrive(cx, view.start, r)

        cx["ghost"] = getattr(view, "ghost", False)
        outer, self.fresh0 = self.fresh0, ctx.fresh
        learning = self.learning
        try:
            if not cx["ghost"]:
                return self.fix(cx, entry)
            return self.fix_ghost(cx, entry)
        finally:
            self.fresh0 = outer
            self.learning = learning

    # ----------------------------------------------------------------- calls
    QUIET = frozenset(["fuzz", "approx", "textfacts"])

    def mergeable(self, f):
        """Functions with loops, whose final states may be joined."""
        if f.is_gen or f.qual in self.nomerge or not isinstance(f.node, ast.FunctionDef):
            return False
        k = ("loops", id(f.node))
        if k not in self.static:
            self.static[k] = any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(f.node))
        return self.static[k]

    def run_call(self, f, vals):
        """A call, with its final states joined (a contract found on the fly):
        -> value returned; MISSING: not possible for this function."""
        ctx, I = self.ctx, self.I
        s = self.static.get(("call", f.qual))
        if s is None:
            s = self.static[("call", f.qual)] = ast.For(target=ast.Name("<ret>", ast.Store()), iter=None, body=[], orelse=[], lineno=f.node.lineno)
        ctx.loopcount += 1
        key = (ctx.pkey, tuple(c for c, _ in ctx.trace), id(s), ctx.loopcount, True)
        fr = ctx.new(Frame, vars={"<ret>": MISSING, **vals}, parent=f.closure, name=f.qual + "()", globals_=f.module,
                     nonlocals=frozenset(), globalnames=frozenset(), locals_=frozenset(["<ret>", *vals]), node=None)
        self.static[(id(s), fr.name)] = {"<ret>"}
        view = OnceView()
        mark, oid0 = len(ctx.log), ctx.oid
        I.stack.append(fr)
        hidden = self.hide(s, fr)
        try:
            res = self.cache.get(key)
            fp = None
            if res is None:
                fp, order = self.call_fingerprint(f, fr)
                if fp in self.cache:
                    res = self.cache[key] = self.relocate(self.cache[fp], order)
            if res is None:
                ctx.feasible()
                for _ in range(50):
                    try:
                        res = self.fix_call(s, fr, f, vals, view, key)
                        break
                    except Restart:
                        continue
                    except Unsupported as x:
                        if os.environ.get("PYVC_DEBUG"):
                            print("NOMERGE", f.qual, x)
                        self.nomerge.add(f.qual)
                        break
                if res is not None:
                    res = self.merge_exits(s, fr, res, False)
                    self.cache[key] = res
                    if fp is not None:
                        self.cache[fp] = (res, order)
            if res is None:
                self.nomerge.add(f.qual)
                return MISSING
            states, exits, locs = res
            ex = exits[ctx.choose(len(exits))]
            if ex[1] == "end":
                self.write(s, fr, states[ex[0]], locs, {}, view=view)
                ctx.feasible()
                return fr.vars["<ret>"]
            save = ctx.script, ctx.pos, ctx.trace
            ctx.script, ctx.pos, ctx.trace = list(ex[2]), 0, []
            try:
                I.run_func(f, vals)
                raise Unsupported("call not reproduced")
            finally:
                ctx.script, ctx.pos, ctx.trace = save
        finally:
            I.stack.pop()
            if hidden:
                self.unhide(hidden, -1 if res is None else oid0, [o for o, _, _, _ in ctx.log[mark:] if isinstance(o, VList)])

    def call_fingerprint(self, f, fr):
        k = ("names", id(f.node))
        if k not in self.static:
            self.static[k] = ast.For(target=ast.Name("_", ast.Store()), iter=None, body=f.node.body, orelse=[])
        names = self.visible(self.static[k], fr)
        out = ["call", f.qual, id(f.node), self.ctx.globalver]
        fp = Finger(self)
        try:
            todo = [fr]
            while todo:
                g = todo.pop(0)
                if g is None or g is g.globals_ or g.oid in fp.num:
                    continue
                fp.obj(g.oid)
                todo.append(g.parent)
                out.append(g.name)
                out.extend((n, fp.val(g.vars[n])) for n in sorted(g.vars) if (n in names or g is fr) and n != "<ret>")
                todo.extend(fp.frames)
                fp.frames = []
        except LookupError:
            return None, None
        return tuple(out), tuple(fp.num)

    def fix_call(self, s, fr, f, vals, view, key):
        ctx, I = self.ctx, self.I
        locs = self.modset.setdefault(key, {(fr.oid, ("var", "<ret>")): True})
        hint = self.modset.setdefault(("hint", f.qual), {})  # (lists by the variable that holds them)
        for g in self.frames(fr):
            for n, v in g.vars.items():
                if (g.name, n) in hint and isinstance(v, VList):
                    locs[(v.oid, "items")] = True
        self.passno += 1
        cx = {"s": s, "fr": fr, "view": view, "oid0": ctx.oid, "locs": dict(locs), "states": {}, "inl": {}, "key": key, "pass": self.passno, "ghost": False}
        exits = []
        outer, self.fresh0 = self.fresh0, ctx.fresh

        def one():
            mark = len(ctx.log)
            try:
                v = I.run_func(f, vals)
                if not self.plain(v, cx["oid0"]):
                    raise Unsupported("value of a call")
                ctx.setvar(fr, "<ret>", v)
                done = True
            except PyExc:
                done = False
            for o, field, _, _ in ctx.log[mark:]:
                if type(field) is tuple and field[0] == "ctx" and field[1] not in self.QUIET:
                    raise Unsupported("effect of a call")
            try:
                self.modified(cx, mark)
            finally:
                hint.update(((g.name, n), True) for g in self.frames(fr) for n, v in g.vars.items() if isinstance(v, VList) and (v.oid, "items") in locs)
            ctx.feasible()
            if done:
                self.arrive(cx, "r", {})
            else:
                exits.append((("r", ()), "PyExc", [c for c, _ in ctx.trace]))

        try:
            self.sub(cx, ("call",), one)
        finally:
            self.fresh0 = outer
        return cx["states"], [(k, "end") for k in cx["states"]] + exits, list(cx["locs"])

    def plain(self, v, oid0):
        if isinstance(v, VList):
            return v.oid > oid0 and all(isinstance(x, (SumSeg, EntrySeg)) or not isinstance(x, (Seg, HObj)) and self.plain(x, oid0) for x in v.items)
        if isinstance(v, tuple):
            return all(not isinstance(x, VList) and self.plain(x, oid0) for x in v)
        return v is None or isinstance(v, (bool, int, str, SBool, SInt, SStr, NumStr)) or type(v) is AnyStr

    # ---------------------------------------------------------------- ghost
    def fix_ghost(self, cx, entry):
        """The loop over the text in exact mode: with the output relation and
        traces among the invariants."""
        view, key = cx["view"], cx["key"]
        view.state = None
        g = self.ghosts.setdefault(key, dict(rel=0, learnt=-1, traces={}, names=None, hits=0, best=(-1, "", False)))
        cx["g"] = g
        lists = []
        for loc in cx["locs"]:
            if self.is_live(cx["s"], cx["fr"], loc):
                v = self.locvalue(loc)
                if loc[1] == "items" or isinstance(v, VList) and v.oid in cx["inl"] or isinstance(v, (str, SCat)):
                    lists.append(loc)
        order = [(f, n) for f in self.frames(cx["fr"]) for n in f.vars]
        pos = lambda l: next((i for i, (f, n) in enumerate(order) if l == (f.oid, ("var", n)) or getattr(f.vars[n], "oid", None) == l[0]), 999)
        lists.sort(key=pos)
        if g["names"] != lists:
            g.update(names=lists, rel=0, learnt=-1, best=(-1, "", False))
        ws = [p for n in (2, 1, 3) for p in itertools.permutations(range(len(lists)), n)]
        if g["rel"] >= len(ws):
            n, what, approx = g["best"]
            if n < 3 or approx or not isinstance(what, str):
                raise Unsupported(f"no output relation found: {what}")
            raise InvariantFailed(what)
        cx["rel"] = {lists[i]: k for k, i in enumerate(ws[g["rel"]])}
        cx["traces"] = {l: g["traces"].setdefault(l, Trace((key, l), view.auto)) for l in lists if l not in cx["rel"] and not isinstance(self.locvalue(l), (str, SCat))} if self.ctx.relation.traced else {}
        g["hits"] = 0
        ver = lambda: sum(t.version for t in cx["traces"].values())
        v0 = ver()
        self.learning = g["learnt"] != v0
        try:
            res = self.fix(cx, entry)
        except Unsupported as x:
            self.ghost_failed(cx, x)
        if ver() != v0 or self.learning:
            g["learnt"] = ver()
            raise Restart()
        return res

    def frames(self, f):
        while f is not None and f is not f.globals_:
            yield f
            f = f.parent

    def ghost_failed(self, cx, what):
        """The candidate output relation does not hold."""
        if os.environ.get("PYVC_DEBUG"):
            print("GHOST", {l[1]: k for l, k in cx["rel"].items()}, {l[1]: (t.dead, t.starts) for l, t in cx["traces"].items()}, what)
        g = cx["g"]
        if g["hits"] > g["best"][0]:
            g["best"] = (g["hits"], what, self.ctx.approx > 0)
        g["rel"] += 1
        g["learnt"] = -1
        self.nomerge.clear()
        raise Restart()

    def where(self, cx, node):
        view = cx["view"]
        if view.state is None:
            return "at loop entry"
        return f"after the {view.cur[0].tok.label} token that leads from {view.state.node} to {node}"

    def ghost_arrive(self, cx, node):
        """Check the output relation."""
        ctx = self.ctx
        items = {}
        for loc, i in cx["rel"].items():
            v = self.locvalue(loc)
            items[i] = v if loc[1] == "items" else v.items if isinstance(v, VList) else (v,)
        text = tuple(x for i in sorted(items) for x in items[i])
        ok, cx["tag"] = ctx.relation.check(ctx, text, ctx.gtag)
        if not ok:
            ctx.feasible()
            self.ghost_failed(cx, f"the text written is the specified one {self.where(cx, node)}: {text!r:.600} / {ctx.gout!r:.600}")
        cx["g"]["hits"] += 1

    def ghost_prep(self, cx, loc, v, node):
        """-> (value, shape) for an output list or a traced list, else None"""
        if loc not in cx["rel"] and (loc not in cx["traces"] or cx["traces"][loc].dead):
            return None
        kind = "items" if loc[1] == "items" else "str" if isinstance(v, STRING_TYPES) else "nl"
        if kind == "str":
            items = (v,)
        elif kind == "nl":
            if not isinstance(v, VList):
                raise Unsupported("a list variable that is no list")
            v, sh = self.prep(cx, loc, v, cx["owned"])
            if sh != "nl":
                raise Unsupported("an output list that is aliased")
            items = v[1]
        else:
            items = v
        if loc in cx["rel"]:
            return ("G", cx["rel"][loc], kind, cx["tag"]), ("G", cx["tag"])
        return self.trace_prep(cx, loc, cx["traces"][loc], items, kind, node)

    def trace_prep(self, cx, loc, tr, items, kind, node):
        if not items:
            return ("E", kind), "E"
        view = cx["view"]
        st = view.state
        prev = st.now[loc][0] if st is not None else None
        act = MISSING
        if prev is not None and view.cur[0].dst == node and node not in tr.starts:
            if prev == "T" and items[0] is view.segs[loc]:
                rest = items[1:]
                if not rest:
                    act = None
            elif prev == "E":
                rest = items
                tr.begin(st.node)
                if any(view.consts(st.node).get(k) is None for k in view.auto.regs):
                    rest = ()
            else:
                rest = ()
            tok = view.cur[1]
            if len(rest) == 1:
                x = rest[0]
                if isinstance(x, SStr) and isinstance(tok, SStr) and x.atom.id == tok.atom.id and not tok.chain:
                    act = canon_chain(x.chain)
                elif isinstance(x, str) and x == tok:
                    act = ()
                elif isinstance(x, str) and isinstance(tok, SStr):  # (the only possible value)
                    known = tr.acts.get(view.cur[0].key)
                    for c in [known] if known is not None else [(("NORM",),), ()]:
                        if self.ctx.possible(SStr(tok.atom, c)) == frozenset([x]):
                            act = c
        if act is MISSING or not tr.set(view.cur[0], act):
            if len(tr.acts) > 2:
                self.ctx.feasible()
                self.ghost_failed(cx, f"the list of words read holds the words {self.where(cx, node)}: {items!r:.600}")
            if os.environ.get("PYVC_DEBUG"):
                print("TRACE", loc, items, kind, node, tr.acts, self.where(cx, node))
            tr.dead = True
            cx["g"]["learnt"] = -1
            raise Restart()
        return ("T", tr, kind), "T"

    def fix(self, cx, entry):
        s, fr, view, states, locs = cx["s"], cx["fr"], cx["view"], cx["states"], cx["locs"]
        self.sub(cx, ("entry",), entry)
        steps = 0
        while True:
            todo = [st for st in states.values() if st.done != st.version]
            if not todo:
                break
            st = todo[0]
            ver = st.version
            st.exits = []
            st.now = dict(st.trees)  # what this pass assumes
            for e in view.edges(st.node):
                ek = e.key if hasattr(e, "key") else e
                steps += 1
                self.step(cx, st, e, ("step", st.node, st.shape, ver, ek, steps))
            st.done = ver
        exits = []
        for k, st in states.items():
            if view.accept(st.node):
                exits.append((k, "end"))
            exits.extend(st.exits)
        self.report.setdefault(f"{fr.name}@{s.lineno}", dict(states=0, steps=0, times=0))["steps"] += steps
        return states, exits, list(locs)

    MUTATORS = frozenset("append extend insert pop clear remove reverse sort".split())

    def preseed(self, s, fr):
        """Locations that the body evidently modifies (others are found when
        the body is executed; this only saves rounds)."""
        locs = {}
        for st in list(s.body) + ([s.target] if isinstance(s, ast.For) else []):
            for n in ast.walk(st):
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    pass
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    if n.id in fr.vars:
                        locs[(fr.oid, ("var", n.id))] = True
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in self.MUTATORS:
                    f = fr
                    while f is not None and f is not f.globals_ and n.value.id not in f.vars:
                        f = f.parent
                    v = f.vars.get(n.value.id) if f is not None else None
                    if isinstance(v, VList):
                        locs[(v.oid, "items")] = True
        return locs

    def sub(self, cx, what, fn, script=None):
        ctx = self.ctx
        save = ctx.pkey
        ctx.pkey = (cx["key"], cx["pass"], what)
        try:
            return ctx.explore(fn, script)
        finally:
            ctx.pkey = save

    def step(self, cx, st, e, what):
        ctx, I = self.ctx, self.I
        s, fr, view = cx["s"], cx["fr"], cx["view"]

        def one():
            r = view.inst(ctx, st.node)
            self.write(s, fr, st, cx["locs"], r, st.now, view)
            if cx["ghost"]:
                view.state = st
            mark = len(ctx.log)
            try:
                dst, r2 = self.body(s, fr, view, e, r)
            except (BreakEx, ReturnEx, PyExc, TestFalse) as x:
                self.modified(cx, mark)
                ctx.feasible()
                kind = type(x).__name__
                st.exits.append(((st.node, st.shape), kind, [c for c, _ in ctx.trace], e))
                return
            self.modified(cx, mark)
            self.arrive(cx, dst, r2)

        self.sub(cx, what, one)

    def modified(self, cx, mark):
        ctx = self.ctx
        new = False
        full = self.modset[cx["key"]]
        for o, field, _, how in ctx.log[mark:]:
            if not isinstance(o, HObj) or o.oid > cx["oid0"] or how == "hide":
                continue
            loc = (o.oid, field)
            if field == "items" and o.oid in cx["inl"]:
                raise Unsupported("aliased inlined list")
            if loc not in full:
                full[loc] = True
                new = True
        if new:
            raise Restart()

    def arrive(self, cx, node, r):
        """The current state reaches `node` with registers r: weaken the
        node's invariant until it covers the state."""
        ctx = self.ctx
        ctx.modelcache = None
        self.consts = cx["view"].consts(node)
        vals = {}
        owned = cx["owned"] = set()
        shape = []
        if cx.get("ghost"):
            self.ghost_arrive(cx, node)
        for loc in cx["locs"]:
            self.origin = self.origin_of(cx, loc)
            if not self.is_live(cx["s"], cx["fr"], loc):
                vals[loc] = DEAD
                shape.append("-")
                continue
            v = self.locvalue(loc)
            if type(v) is Poison:
                vals[loc] = DEAD
                shape.append("-")
                continue
            p = self.ghost_prep(cx, loc, v, node) if cx.get("ghost") else None
            v, sh = p or self.prep(cx, loc, v, owned)
            if p:
                v = GhostTree(p[0])
            vals[loc] = v
            shape.append(sh)
        k = (node, tuple(shape))
        st = cx["states"].get(k)
        if st is None:
            if len(cx["states"]) > 600:
                raise Unsupported("too many loop states")
            ctx.feasible()
            st = cx["states"][k] = State(node, tuple(shape))
            for loc, v in vals.items():
                self.origin = self.origin_of(cx, loc)
                st.trees[loc] = ("dead",) if v is DEAD else v.t if type(v) is GhostTree else self.tree(v, r)
            st.version = 1
            st.done = -1
            return
        ch = False
        for loc, v in vals.items():
            if v is DEAD or type(v) is GhostTree:
                continue
            self.origin = self.origin_of(cx, loc)
            t = self.join(cx, loc, st.trees[loc], v, r)
            if t is not None:
                st.trees[loc] = t
                ch = True
        if ch:
            st.version += 1

    def origin_of(self, cx, loc):
        """Name of the list at a location: the first variable that holds it."""
        if type(loc[1]) is tuple:
            return (id(cx["s"]), loc[1][1])
        if loc[1] != "items":
            return None
        n = cx.setdefault("names", {}).get(loc[0])
        if n is None:
            f, seen = cx["fr"], []
            while f is not None and f is not f.globals_ and n is None:
                n = min((k for k, v in f.vars.items() if isinstance(v, VList) and v.oid == loc[0]), default=None)
                seen.append(f)
                f = f.parent
            cx["names"][loc[0]] = n = n or "?"
        return (id(cx["s"]), n)

    # ---------------------------------------------------------------- trees
    def prep(self, cx, loc, v, owned):
        """-> (prepared value, shape).  Prepared values: lists owned by the
        location become ('nl', items)."""
        if isinstance(v, SBool):
            v = self.I.truth(v)
        if isinstance(v, VList) and type(loc[1]) is tuple:
            new = v.oid > cx["oid0"] or v.oid in cx["inl"]
            if new:
                if v.oid in owned:
                    raise Unsupported("list shared by two variables")
                owned.add(v.oid)
                if (id(cx["s"]), loc[1][1]) not in self.inline:
                    self.inline.add((id(cx["s"]), loc[1][1]))
                    raise Restart()
                return ("nl", v.items), "nl"
        if loc[1] == "items":
            return ("items", v), "L"
        return v, self.shape(cx, v)

    def shape(self, cx, v):
        if v is None or v is True or v is False:
            return v if v is not None else "N"
        if isinstance(v, (int, SInt)):
            return "0" if isinstance(v, int) and v == 0 else "i"
        if isinstance(v, str):
            return "s"
        if isinstance(v, NumStr):
            return "n"
        if type(v) is AnyStr:
            return "S"
        if isinstance(v, SStr):
            if self.ctx.possible(v) is not None:
                return "s"
            d = self.ctx.dom[v.atom.id]
            return ("o", d.cls.name, canon_chain(v.chain), d.normfin is None)
        if isinstance(v, tuple):
            return ("t",) + tuple(self.shape(cx, x) for x in v)
        if isinstance(v, HObj):
            if v.oid > cx["oid0"]:
                raise Unsupported(f"{type(v).__name__} created in a loop survives the iteration")
            return ("r", v.oid)
        if v is MISSING:
            return "missing"
        if isinstance(v, dict):
            k = self.I.contentkey(VDictView(v))
            if k is None:
                raise Unsupported("dictionary changes in a loop")
            return ("d", k)
        if isinstance(v, SCat):
            return "X"
        if isinstance(v, (AText, SOp)):
            return ("x", id(v))
        return ("k", id(v))

    def tree(self, v, r):
        if v is None or v is True or v is False:
            return ("c", v)
        if isinstance(v, (int, SInt)):
            l = IntLeaf()
            self.join_int(l, v, r)
            return ("i", l)
        if isinstance(v, str):
            return ("s", frozenset([v]))
        if type(v) is AnyStr:
            return ("S", v.origin)
        if isinstance(v, NumStr):
            l = IntLeaf()
            self.join_int(l, v.v, r)
            return ("n", l)
        if isinstance(v, SStr):
            for k, x in r.items():
                if k[0] == "#" and x.atom.id == v.atom.id:
                    return ("reg", k, canon_chain(v.chain), self.tree(v, {}))
            p = self.ctx.possible(v)
            if p is not None:
                return ("s", p)
            d = self.ctx.dom[v.atom.id]
            return ("o", d.cls, canon_chain(v.chain), d.excl, d.normfin, frozenset(d.facts))
        if isinstance(v, SCat):
            return ("X",)  # a text put together in the loop
        if isinstance(v, tuple) and v and v[0] == "nl":
            return ("nl", self.seq(v[1], r))
        if isinstance(v, tuple) and v and v[0] == "items":
            return ("items", self.seq(v[1], r))
        if isinstance(v, tuple):
            return ("t", tuple(self.tree(x, r) for x in v))
        if isinstance(v, HObj):
            return ("ref", v.oid)
        return ("c", v)

    def kindkey(self, v):
        if type(v) is AnyStr:
            return "S"
        if isinstance(v, NumStr):
            return "n"
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            return "i"
        if isinstance(v, str):
            return "s"
        if isinstance(v, SStr):
            if self.ctx.possible(v) is not None:
                return "s"
            d = self.ctx.dom[v.atom.id]
            return ("o", d.cls.name, canon_chain(v.chain), d.normfin is None)
        if v is None or isinstance(v, bool):
            return ("c", v)
        raise Unsupported(f"list element {v} in a loop")

    def digits(self, items):
        """(with a ghost output, literal numerals count as renderings of numbers)"""
        if self.ctx.exact is None:
            return items
        return tuple(NumStr(int(x)) if isinstance(x, str) and x.isascii() and x.isdecimal() and len(x) < 99 and str(int(x)) == x else x for x in items)

    def seq(self, items, r):
        items = self.digits(items)
        if items and isinstance(items[0], EntrySeg):
            return ("pre", items[0], self.seq(items[1:], r))
        if len(items) <= MAXLIT and not any(isinstance(x, Seg) for x in items):
            return ("lit", tuple(self.tree(x, r) for x in items), tuple(self.kindkey(x) for x in items))
        return self.to_sum(items, r)

    STRKIND = {"s": "s", "n": "n"}

    def coarse(self, k, t):
        """kind and description of a list item, without detail when the
        items of the list under consideration do not matter"""
        if self.origin is None or self.origin in self.fine:
            return k, t
        if t[0] == "S":
            return "S", ("S", t[1] | {self.origin})
        if t[0] in ("s", "n", "o"):
            return "S", ("S", frozenset([self.origin]))
        return k, t

    def to_sum(self, items, r):
        kinds, pairs = {}, set()
        first, last, empty = set(), set(), True
        for x in items:
            if isinstance(x, SumSeg):
                m = {}
                ck = {}
                for k, t in x.kinds.items():
                    k2, t2 = self.coarse(k, self.reopen(t))
                    m[k] = k2
                    ck[k2] = t2 if k2 not in ck else self.join_trees(ck[k2], t2) or ck[k2]
                f, l, p, e = {m[k] for k in x.first}, {m[k] for k in x.last}, {(m[a], m[b]) for a, b in x.pairs}, x.empty
                for k, t in ck.items():
                    if k in kinds:
                        kinds[k] = self.join_trees(kinds[k], t) or kinds[k]
                    else:
                        kinds[k] = t
            elif isinstance(x, EntrySeg):
                raise Refine(x.key)
            elif isinstance(x, Seg):
                raise Unsupported(f"{x} in a loop-modified list")
            else:
                k = self.kindkey(x)
                k2, t2 = self.coarse(k, ("S", x.origin) if type(x) is AnyStr else (k[0], None) if k[0] in ("s", "n", "o") else (None,))
                if k2 == "S":
                    k = k2
                    kinds[k] = t2 if k not in kinds else self.join_trees(kinds[k], t2) or kinds[k]
                elif k in kinds:
                    t = self.join_val(kinds[k], x, r)
                    if t is not None:
                        kinds[k] = t
                else:
                    kinds[k] = self.tree(x, r if k in ("i", "n") else {})
                f, l, p, e = {k}, {k}, set(), False
            pairs |= p | {(a, b) for a in last for b in f}
            if empty:
                first |= f
            if e:
                last |= l
            else:
                last = set(l)
            empty = empty and e
        return ("sum", kinds, frozenset(first), frozenset(last), frozenset(pairs), empty)

    def reopen(self, t):
        """An element description of an abstract list, kept only as far as it
        makes sense outside the current iteration."""
        if t[0] in ("i", "n"):
            l = IntLeaf()
            l.cands = [c for c in t[1].cands if c[0] == "const" or c[0] == "term" and self.outer_term(c[1])]
            l.lo = t[1].lo
            return (t[0], l)
        return t

    def lit_to_sum(self, t):
        kinds = {}
        cs = [self.coarse(k, x[3] if x[0] == "reg" else x) for k, x in zip(t[2], t[1])]
        ks = [k for k, _ in cs]
        for k, x in cs:
            kinds[k] = (self.join_trees(kinds[k], x) or kinds[k]) if k in kinds else x
        n = len(ks)
        return ("sum", kinds, frozenset(ks[:1]), frozenset(ks[-1:]), frozenset(zip(ks, ks[1:])), n == 0)

    def join_trees(self, a, b):
        """join of two finished element trees; None when b <= a"""
        if a[0] != b[0]:
            raise Unsupported("join of list elements")
        if a[0] in ("i", "n"):
            x, y = a[1], b[1]
            if x is y:
                return None
            l = IntLeaf()
            l.cands = [c for c in x.cands if c in y.cands]
            l.lo = None if x.lo is None or y.lo is None else min(x.lo, y.lo)
            return None if (l.cands == x.cands and l.lo == x.lo) else (a[0], l)
        if a[0] in ("s", "S"):
            return None if b[1] <= a[1] else (a[0], a[1] | b[1])
        if a[0] == "o":
            return self.join_o(a, b)
        if a == b:
            return None
        raise Unsupported("join of list elements")

    def join_o(self, a, b):
        nf = None if a[4] is None or b[4] is None else a[4] | b[4]
        n = ("o", a[1], a[2], a[3] & b[3], nf, a[5] & b[5])
        return None if n == a else n

    def join(self, cx, loc, t, v, r):
        if isinstance(v, tuple) and v and v[0] in ("nl", "items") and t[0] == v[0]:
            n = self.join_seq(t[1], v[1], r)
            return None if n is None else (t[0], n)
        return self.join_val(t, v, r)

    def join_seq(self, t, items, r):
        items = self.digits(items)
        if t[0] == "pre":
            if not items or not isinstance(items[0], EntrySeg) or items[0].key != t[1].key:
                raise Refine(t[1].key)
            n = self.join_seq(t[2], items[1:], r)
            return None if n is None else ("pre", t[1], n)
        if t[0] == "lit":
            if len(items) == len(t[1]) and not any(isinstance(x, Seg) for x in items) and all(
                    self.kindkey(x) == k for x, k in zip(items, t[2])):
                new, ch = [], False
                for a, x in zip(t[1], items):
                    n = self.join_val(a, x, r)
                    ch |= n is not None
                    new.append(a if n is None else n)
                return ("lit", tuple(new), t[2]) if ch else None
            base = self.lit_to_sum(t)
            changed = True
        else:
            base, changed = t, False
        add = self.to_sum(items, r)
        kinds = dict(base[1])
        for k, x in add[1].items():
            if k in kinds:
                n = self.join_trees(kinds[k], x)
                if n is not None:
                    kinds[k] = n
                    changed = True
            else:
                kinds[k] = x
                changed = True
        new = ("sum", kinds, base[2] | add[2], base[3] | add[3], base[4] | add[4], base[5] or add[5])
        if self.ctx.widen and (self.ctx.exact is None or self.origin not in self.fine):
            ks = frozenset(kinds)
            new = ("sum", kinds, new[2], ks, frozenset(itertools.product(ks, ks)), new[5])
        if changed or new[2:] != base[2:]:
            return new
        return None

    def join_val(self, t, v, r):
        k = t[0]
        if k == "c":
            return None
        if k in ("i", "n"):
            l = IntLeaf()
            l.cands, l.lo = list(t[1].cands), t[1].lo
            return (k, l) if self.join_int(l, v.v if k == "n" else v, r) else None
        if k == "reg":
            n = self.tree(v, r)
            if n[:3] != t[:3]:
                return self.join_val(t[3], v, r) or t[3]
            fb = self.join_val(t[3], v, {})
            return None if fb is None else t[:3] + (fb,)
        if k == "s":
            p = frozenset([v]) if isinstance(v, str) else self.ctx.possible(v)
            return None if p <= t[1] else ("s", p | t[1])
        if k == "S":
            return None if v.origin <= t[1] else ("S", t[1] | v.origin)
        if k == "o":
            return self.join_o(t, self.tree(v, {}))
        if k == "t":
            new, ch = [], False
            for a, x in zip(t[1], v):
                n = self.join_val(a, x, r)
                ch |= n is not None
                new.append(a if n is None else n)
            return ("t", tuple(new)) if ch else None
        if k in ("ref", "dead", "X"):
            return None
        raise Unsupported(f"join of {k}")

    def inst(self, t, r):
        """A value described by the tree at registers r."""
        ctx = self.ctx
        k = t[0]
        if k == "c":
            return t[1]
        if k == "reg":
            return SStr(r[t[1]].atom, t[2]) if t[1] in r else self.inst(t[3], r)
        if k == "S":
            return AnyStr(t[1])
        if k == "X":
            ctx.fresh += 1
            return SCat([JoinPart("", (GhostSeg(ctx.fresh, "unknown"),))])
        if k == "i":
            return self.inst_int(t[1], r)
        if k == "n":
            v = self.inst_int(t[1], r)
            return str(v) if isinstance(v, int) and not isinstance(v, bool) else NumStr(v)
        if k == "s":
            if len(t[1]) == 1:
                return next(iter(t[1]))
            return SStr(ctx.atom("w", Fin(t[1])))
        if k == "o":
            return SStr(ctx.atom("w", Cof(t[1], t[3], tuple(sorted(t[5], key=repr)), t[4])), t[2])
        if k == "t":
            return tuple(self.inst(x, r) for x in t[1])
        if k == "ref":
            return ctx.objs[t[1]]
        if k == "E":
            return () if t[1] == "items" else ctx.list(())
        if k == "items":
            return self.inst_seq(t[1], r)
        if k == "nl":
            return ctx.list(self.inst_seq(t[1], r))
        raise Unsupported(f"instantiate {k}")

    def inst_seq(self, t, r):
        if t[0] == "pre":
            return (t[1],) + self.inst_seq(t[2], r)
        if t[0] == "lit":
            return tuple(self.inst(x, r) for x in t[1])
        kinds = {k: self.close(x, r) for k, x in t[1].items()}
        if not kinds:
            return ()
        return (SumSeg(kinds, t[2], t[3], t[4], t[5]),)

    def close(self, t, r):
        """Element trees inside an instantiated SumSeg stand on their own: the
        candidate expressions are kept only when they are constants."""
        if t[0] in ("i", "n"):
            l = IntLeaf()
            l.cands = [c for c in t[1].cands if c[0] == "const" or c[0] == "term"]
            for c in t[1].cands:
                if c[0] == "sub":
                    l.cands.append(("term", self.cand_term(c, r)))
            l.lo = t[1].lo
            return (t[0], l)
        return t

    def instantiate(self, kind):
        return self.inst(kind, {})

    # ------------------------------------------------------------- integers
    def outer_term(self, t):
        if isinstance(t, int):
            return True
        for v in z3util_vars(t):
            n = v.decl().name().rpartition("!")[2]
            if not n.isdigit() or int(n) > self.fresh0:
                return False
        return True

    def pool(self, r):
        sym = [k for k in r if k not in self.consts and k[0] != "#"]
        out = []
        for n in range(1, len(sym) + 1):
            for c in itertools.combinations(sym, n):
                out.append(("sub", c))
        return out

    def cand_term(self, c, r):
        if c[0] == "const":
            return c[1]
        if c[0] == "term":
            return c[1]
        t = 0
        for k in c[1]:
            t = t + r[k]
        return t

    def join_int(self, l, v, r):
        """-> changed"""
        ctx = self.ctx
        t = term(v)
        if l.cands is None:
            cands = self.pool(r)
            if isinstance(t, int):
                cands.insert(0, ("const", t))
            elif self.outer_term(t):
                cands.append(("term", t))
            l.cands = [c for c in cands if self.holds(t, self.cand_term(c, r))]
            l.lo = None
            if isinstance(t, int):
                l.lo = 1 if t >= 1 else 0 if t == 0 else None
            else:
                for b in (1, 0):
                    if ctx.valid(t >= b):
                        l.lo = b
                        break
            return True
        keep = [c for c in l.cands if self.holds(t, self.cand_term(c, r))]
        ch = len(keep) != len(l.cands)
        l.cands = keep
        if l.lo is not None and not keep or l.lo is not None and ch:
            lo = l.lo
            while lo is not None and not (t >= lo if isinstance(t, int) else ctx.valid(t >= lo)):
                lo = 0 if lo == 1 else None
            if lo != l.lo:
                l.lo = lo
                ch = True
        elif l.lo is not None and keep and isinstance(self.cand_term(keep[0], r), int) is False:
            if not (t >= l.lo if isinstance(t, int) else ctx.valid(t >= l.lo)):
                lo = 0 if l.lo == 1 else None
                if lo is not None and not (t >= lo if isinstance(t, int) else ctx.valid(t >= lo)):
                    lo = None
                l.lo = lo
                ch = True
        return ch

    def holds(self, t, c):
        if isinstance(t, int) and isinstance(c, int):
            return t == c
        d = z3.simplify((t if not isinstance(t, int) else z3.IntVal(t)) - c)
        if z3.is_int_value(d):
            if d.as_long() == 0:
                return True
            return not self.ctx.sat()
        m = self.model()
        if m is not None:
            x = m.eval(d, model_completion=True)
            if z3.is_int_value(x) and x.as_long() != 0:
                return False
        return self.ctx.valid(d == 0)

    def model(self):
        ctx = self.ctx
        n = len(ctx.assumed)
        mc = ctx.modelcache
        if mc is not None and mc[0] == n:
            return mc[1]
        if not ctx.sat():
            raise Infeasible()
        m = ctx.solver.model()
        ctx.modelcache = (n, m)
        return m

    def inst_int(self, l, r):
        ctx = self.ctx
        if l.cands:
            cs = sorted(l.cands, key=lambda c: (c[0] != "const", len(c[1]) if c[0] == "sub" else 0))
            t0 = self.cand_term(cs[0], r)
            for c in cs[1:]:  # the invariant is the conjunction of all candidates
                t = self.cand_term(c, r)
                if isinstance(t, int) and isinstance(t0, int):
                    if t != t0:
                        raise Infeasible()
                else:
                    d = z3.simplify(t - t0)
                    if z3.is_int_value(d):
                        if d.as_long() != 0:
                            raise Infeasible()
                    else:
                        ctx.assume(d == 0)
            return mk_int(t0)
        v = ctx.int_var("h")
        ctx.setattr_ctx("approx", ctx.approx + 1)
        if l.lo is not None:
            ctx.assume(v >= l.lo)
        return SInt(v)

    # -------------------------------------------------------------- special
    def force(self, seg):
        raise Unsupported("strict comprehension")

    def trace_last(self, seg):
        """The last element of a trace, and the rest."""
        if self.learning:
            raise Infeasible()
        ctx, tr = self.ctx, seg.tr
        node, regs = seg.node, seg.regs
        seen = set()
        while True:
            seen.add(node)
            opts = [e for e in tr.edges_in(node) if tr.acts[e.key] is not None or e.src not in seen]
            e = opts[ctx.choose(len(opts))]
            r = tr.main.inst(ctx, e.src)
            r.update((k, regs[k]) for k in regs if k in r and k[0] == "#")
            tok, r2 = tr.main.fire(ctx, e, r)
            for k, v in regs.items():
                if k[0] != "#":
                    ctx.assume(r2[k] == v)
            ctx.feasible()
            if e.reg is not None and e.reg in regs:
                tok = regs[e.reg]
            if tr.acts[e.key] is None:
                if e.upd is not None:
                    raise Unsupported("an edge that changes registers adds nothing to the trace")
                node = e.src
                continue
            rest = () if e.src in tr.starts else (TraceSeg(tr, e.src, r),)
            return rest, tr.value(e, tok)

    def trace_peek(self, seg):
        """The last element of a trace, when it is only looked at."""
        if self.learning:
            raise Infeasible()
        ctx, tr = self.ctx, seg.tr
        kinds, seen, todo = {}, set(), [seg.node]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for e in tr.edges_in(n):
                if tr.acts[e.key] is None:
                    todo.append(e.src)
                else:
                    if e.tok.words is None or e.reg is not None:
                        return MISSING
                    kinds.setdefault((e.tok.cls, tr.acts[e.key], e.tok.raw is None), set()).update(e.tok.words if e.tok.raw is None else e.tok.raw)
        ks = sorted(kinds, key=repr)
        k = ks[ctx.choose(len(ks))]
        ws = frozenset(kinds[k])
        return SStr(ctx.atom("last", Cof(k[0], frozenset(), (), ws) if k[2] else Fin(ws)), k[1])


class GhostTree:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


def z3util_vars(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
        else:
            todo.extend(x.children())
    return out


class VDictView(VDict):
    """wraps a raw dict for contentkey"""

    def __init__(self, d):
        self.d = d
        self.oid = 0
