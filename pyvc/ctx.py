"""Path state: decisions, undo log, solver, string domains."""
import contextlib
import time

import z3

from .values import *


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.loops = {}
        self.obligations = {}


class Ctx:
    def __init__(self, timeout_ms=10000, deadline=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.log = []
        self.dom = {}
        self.oid = 0
        self.objs = {}
        self.goid = 0
        self.late = False
        self.stamp = 0
        self.global_writes = []
        self.initialising = True
        self.fresh = 0
        self.script = []
        self.pos = 0
        self.trace = []  # [choice, n]
        self.stats = Stats()
        self.deadline = deadline
        self.checkcache = {}
        self.notes = set()
        self.assumed = []  # mirror of solver assertions (for cache keys)
        self.globalver = 0
        self.frozen = frozenset()
        self.init_oid = 0
        self.fuzzy = False
        self.seq_final = {}
        self.ghost = {}  # name -> VList (spec ghost lists)
        self.regs = None
        self.loopcount = 0
        self.fuzz = {}
        self.textfacts = {}
        self.cuts = ()  # positions of words found in texts
        self.parts = {}
        self.exact = None  # sequence whose loop has a ghost output
        self.relation = None  # how lists and ghost output are related (ghost.py)
        self.gtag = None  # what the relation remembers
        self.gout = ()  # what the specification has written so far
        self.calls = ()  # calls answered by a contract
        self.pkey = ()
        self.modelcache = None
        self.approx = 0  # how many of them on this path
        self.guesses = set()  # questions about opaque strings answered both ways
        self.known_empty = None  # set by lib
        self.widen = False
        self.precache = {}

    # ------------------------------------------------------------ objects
    def new(self, _cls, **kw):
        o = _cls()
        if self.late:
            self.goid -= 1
            o.oid = self.goid
        else:
            self.oid += 1
            o.oid = self.oid
        self.objs[o.oid] = o
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    @contextlib.contextmanager
    def importing(self):
        """Objects of a module imported during a run are global objects."""
        late, init = self.late, self.initialising
        self.late = self.initialising = True
        mark = len(self.log)
        try:
            yield
        finally:
            self.late, self.initialising = late, init
            del self.log[mark:]

    def set(self, obj, field, val):
        self.log.append((obj, field, getattr(obj, field), None))
        if obj.oid <= self.init_oid or obj.oid in self.frozen:
            self.touch_global(obj, field)
        setattr(obj, field, val)

    def setvar(self, frame, name, val):
        self.log.append((frame, ("var", name), frame.vars.get(name, MISSING), None))
        if frame.oid <= self.init_oid:
            self.touch_global(frame, name)
        frame.vars[name] = val

    def freeze(self, v):
        """v is kept by a cache: whoever writes to it (or to what it refers
        to) writes to an object that exists before later calls."""
        new, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, (tuple, list)):
                todo.extend(x)
            elif isinstance(x, dict):
                todo.extend(x.values())
            elif hasattr(x, "oid") and x.oid > self.init_oid and x.oid not in new and x.oid not in self.frozen:
                new.add(x.oid)
                for k in ("items", "d", "attrs", "v"):
                    if hasattr(x, k):
                        todo.append(getattr(x, k))
                for k in ("closure",):
                    c = getattr(x, k, None)
                    if c is not None:
                        todo.append(c.vars)
        if new:
            self.setattr_ctx("frozen", self.frozen | new)

    def touch_global(self, obj, field):
        """An object that existed before the verified call is written to."""
        if self.initialising:
            return
        self.stamp += 1
        self.setattr_ctx("globalver", self.stamp)
        self.setattr_ctx("global_writes", self.global_writes + [(obj, field)])

    def delvar(self, frame, name):
        self.log.append((frame, ("var", name), frame.vars[name], None))
        if frame.oid <= self.init_oid:
            self.touch_global(frame, name)
        del frame.vars[name]

    def setdom(self, atom, d):
        self.log.append((self.dom, atom.id, self.dom.get(atom.id), None))
        self.dom[atom.id] = d

    def setattr_ctx(self, name, val):
        self.log.append((self, ("ctx", name), getattr(self, name), None))
        setattr(self, name, val)

    def rollback(self, mark):
        log = self.log
        while len(log) > mark:
            obj, field, old, _ = log.pop()
            if obj is self.dom:
                if old is None:
                    self.dom.pop(field, None)
                else:
                    self.dom[field] = old
            elif type(field) is tuple:
                if field[0] == "ctx":
                    setattr(self, field[1], old)
                else:
                    if old is MISSING:
                        obj.vars.pop(field[1], None)
                    else:
                        obj.vars[field[1]] = old
            else:
                setattr(obj, field, old)

    def guess(self, what):
        """This path goes on with an over-approximation: a failure further on
        does not show that the code is wrong."""
        self.guesses.add(what)
        self.setattr_ctx("approx", self.approx + 1)

    def list(self, items=()):
        return self.new(VList, items=tuple(items))

    # ------------------------------------------------------------- atoms
    def atom(self, name, dom, vals=None, var=None):
        self.fresh += 1
        a = Atom(self.fresh, f"{name}{self.fresh}", vals, var)
        self.setdom(a, dom)
        return a

    def int_var(self, name):
        self.fresh += 1
        return z3.Int(f"{name}!{self.fresh}")

    # ---------------------------------------------------------- decisions
    def choose(self, n):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        if self.pos < len(self.script):
            c = self.script[self.pos]
        else:
            c = 0
        self.pos += 1
        self.trace.append([c, n])
        return c

    def explore(self, fn, script=None):
        """Run fn under every decision sequence; state is rolled back after
        each run.  With `script`, only that run.  Returns list of results."""
        outer = (self.script, self.pos, self.trace, self.oid, self.fresh, self.loopcount)
        results = []
        prefix = list(script) if script is not None else []
        try:
            while True:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget of the proof exhausted")
                mark = len(self.log)
                nas = len(self.assumed)
                self.solver.push()
                self.script, self.pos, self.trace = prefix, 0, []
                self.oid, self.fresh, self.loopcount = outer[3], outer[4], outer[5]
                self.stats.paths += 1
                try:
                    r = fn()
                    results.append(r)
                except Infeasible:
                    pass
                finally:
                    t = self.trace
                    self.solver.pop()
                    del self.assumed[nas:]
                    self.rollback(mark)
                if script is not None:
                    break
                t = [list(x) for x in t]
                while t and t[-1][0] + 1 >= t[-1][1]:
                    t.pop()
                if not t:
                    break
                prefix = [c for c, _ in t]
                prefix[-1] += 1
        finally:
            self.script, self.pos, self.trace, self.oid, self.fresh, self.loopcount = outer
        return results

    # ------------------------------------------------------------- solver
    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise Infeasible()
        self.solver.add(t)
        self.assumed.append(t)

    def sat(self, *extra):
        key = None
        self.stats.queries += 1
        t0 = time.time()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self.solver.pop()
        else:
            r = self.solver.check()
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            raise SolverUnknown(str(self.solver.reason_unknown()))
        return r == z3.sat

    def feasible(self):
        if not self.sat():
            raise Infeasible()

    def valid(self, t):
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return not self.sat()
        return not self.sat(z3.Not(t))

    def decide(self, t):
        """Truth of a z3 boolean: fork when both are possible."""
        if isinstance(t, bool):
            return t
        can_t = self.sat(t)
        if not can_t:
            return False
        can_f = self.sat(z3.Not(t))
        if not can_f:
            return True
        if self.choose(2) == 0:
            self.assume(t)
            return True
        self.assume(z3.Not(t))
        return False

    # ----------------------------------------------------- string domains
    def refine(self, atom, keep):
        d = self.dom[atom.id]
        if len(keep) == len(d.s):
            return
        if not keep:
            raise Infeasible()
        self.setdom(atom, Fin(frozenset(keep)))
        self.narrow_var(atom, d.s, keep)

    def narrow_var(self, atom, old, keep):
        """The spec value of the word follows the narrowed domain."""
        if atom.var is None or isinstance(atom.var, int):
            return
        vs = sorted({atom.vals[x] for x in keep})
        full = {atom.vals[x] for x in old}
        if len(vs) < len(full):
            if len(vs) == 1:
                self.assume(atom.var == vs[0])
            elif vs[-1] - vs[0] == len(vs) - 1:
                self.assume(z3.And(atom.var >= vs[0], atom.var <= vs[-1]))
            else:
                self.assume(z3.Or([atom.var == v for v in vs]))
            self.feasible()

    def split(self, s, f):
        """Partition the finite domain of SStr s by f(evaluated string): choose
        one part, refine, return its f value (f values must be hashable)."""
        d = self.dom[s.atom.id]
        parts = {}
        for x in sorted(d.s):
            parts.setdefault(f(apply_chain(s.chain, x)), []).append(x)
        vals = list(parts)
        i = self.choose(len(vals))
        self.refine(s.atom, parts[vals[i]])
        return vals[i]

    def member(self, s, targets):
        """s in targets (a finite set of strings)?  Forks when undetermined."""
        if isinstance(s, str):
            return s in targets
        if isinstance(s, NumStr):
            ds = [x for x in targets if isinstance(x, str) and x.isdecimal() and x.isascii()]
            if not ds:
                return False
            if isinstance(s.v, int):
                return str(s.v) in targets
            return self.decide(z3.Or([s.v.t == int(x) for x in ds if str(int(x)) == x]))
        if not isinstance(s, SStr):
            return self.member_other(s, targets)
        d = self.dom[s.atom.id]
        if isinstance(d, Fin):
            return self.split(s, lambda w: w in targets)
        tg = frozenset(t for t in targets if isinstance(t, str))
        if "" in tg:
            e = self.known_empty(s)
            if e:
                return True
            if e is not None:
                tg -= {""}
            elif canon_chain(s.chain)[:1] != (("NORM",),):
                if self.fact(s, canon_chain(s.chain), ("empty",)):
                    return True
                tg -= {""}
        if not tg:
            return False
        chain = canon_chain(s.chain)
        if chain and chain[0] == ("NORM",):
            if d.normfin is not None:
                return self.normsplit(s, lambda w: w in tg)
            ck = (chain, tg)
            cur = self.precache.get(ck, MISSING)
            if cur is MISSING:
                cur = set(tg)
                for i in range(len(chain) - 1, 0, -1):
                    cur = pre_op(chain[i], cur)
                    if cur is None:
                        break
                self.precache[ck] = cur
            if cur is None:
                return self.fact(s, chain, ("in", tg))
            poss = frozenset(x for x in cur if d.cls.pred(x) and x not in d.excl and self.agrees(d, x))
            if not poss:
                return False
            if self.choose(2) == 0:
                self.setdom(s.atom, Cof(d.cls, d.excl, d.facts, poss))
                return True
            self.setdom(s.atom, Cof(d.cls, d.excl | poss, d.facts))
            return False
        if not chain:
            rp = d.cls.facts.get("raw")
            poss = set()
            for x in tg:
                n = apply_op(("NORM",), x)
                if (rp is None or rp(x)) and d.cls.pred(n) and n not in d.excl and (
                        d.normfin is None or n in d.normfin):
                    poss.add(x)
            if not poss:
                return False
            return self.fact(s, chain, ("in", frozenset(poss)))
        return self.fact(s, chain, ("in", tg))

    def agrees(self, d, x):
        """Does the normal form x agree with what is known of its endings?"""
        for (chain, q), r in d.facts:
            if chain[:1] == (("NORM",),) and q[0] in ("endswith", "startswith"):
                if getattr(apply_chain(chain[1:], x), q[0])(*q[1]) != r:
                    return False
        return True

    def normsplit(self, s, f):
        """As split, for an opaque string whose normal form has become finite."""
        d = self.dom[s.atom.id]
        chain = canon_chain(s.chain)[1:]
        parts = {}
        for x in sorted(d.normfin):
            parts.setdefault(f(apply_chain(chain, x)), []).append(x)
        vals = list(parts)
        i = self.choose(len(vals))
        if len(vals) > 1:
            self.setdom(s.atom, Cof(d.cls, d.excl, d.facts, frozenset(parts[vals[i]])))
            self.narrow_var(s.atom, d.normfin, parts[vals[i]])
        return vals[i]

    def finite(self, s):
        """Is the evaluated string one of a finite set?  -> splitter or None"""
        d = self.dom[s.atom.id]
        if isinstance(d, Fin):
            return self.split
        if d.normfin is not None:
            c = canon_chain(s.chain)
            if c and c[0] == ("NORM",):
                return self.normsplit
        return None

    def possible(self, s):
        """The finite set of evaluated strings, or None."""
        d = self.dom[s.atom.id]
        if isinstance(d, Fin):
            return frozenset(apply_chain(s.chain, x) for x in d.s)
        if d.normfin is not None:
            c = canon_chain(s.chain)
            if c and c[0] == ("NORM",):
                return frozenset(apply_chain(c[1:], x) for x in d.normfin)
        return None

    def member_other(self, s, targets):
        if isinstance(s, (AText, SOp)):
            if targets == {""} and s.facts.get("nonblank"):
                return False
            f = s.facts.get("nonempty")
            if targets == {""} and f is not None:
                return not f
        raise Unsupported(f"membership of {s}")

    def fact(self, s, chain, q):
        d = self.dom[s.atom.id]
        for k, r in d.facts:
            if k == (chain, q):
                return r
        self.guess(f"{q!r:.60} after {chain!r:.80}")
        r = self.choose(2) == 0
        self.setdom(s.atom, Cof(d.cls, d.excl, d.facts + (((chain, q), r),), d.normfin))
        return r
