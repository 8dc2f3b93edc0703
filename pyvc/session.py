"""One verification session: /repo's current source loaded into the verifier."""
import os
import sys
import time

from .auto import *
from .ctx import Ctx
from .interp import Interp
from .values import *

sys.setrecursionlimit(20000)


class Session:
    def __init__(self, repo=None, budget=None, timeout_ms=10000):
        self.repo = repo or os.environ.get("VERIF_REPO", "/repo")
        self.deadline = time.time() + budget if budget else None
        self.ctx = Ctx(timeout_ms=timeout_ms, deadline=self.deadline)
        self.I = Interp(self.ctx, self.repo)
        self.nseq = 0
        self.parser = self.I.import_module("number_parser.parser")
        self.ctx.init_oid = self.ctx.oid
        self.ctx.initialising = False

    def fn(self, name):
        v = self.parser.frame.vars.get(name)
        if v is None:
            raise Unsupported(f"no function {name}")
        return v

    def text(self, auto, facts=None, removable=("'", "’", "\xad"), absent=()):
        self.nseq += 1
        seq = Seq(auto, auto.name, self.nseq)
        seq.absent = frozenset(absent)
        removable = frozenset(removable) - seq.absent
        f = dict(nonblank=True, decimal=False, nonempty=True, removable=removable, absent=seq.absent)
        f.update(facts or {})
        return AText(seq, auto.style, f)

    def nonneg(self):
        v = self.ctx.int_var("n")
        self.ctx.assume(v >= 0)
        return SInt(v)

    def explore(self, fn, tries=80):
        """All paths of fn (a closure returning anything)."""
        for _ in range(tries):
            self.ctx.seq_final = {}
            self.ctx.pkey = ("top", id(fn))
            self.I.stack = []
            self.I.depth = 0
            try:
                return self.ctx.explore(fn)
            except NeedRestart:
                continue
            except Refine as e:
                self.I.driver.refine(e.origin)
        raise Unsupported("liveness hints do not stabilise")

    def call(self, name, *args, **kw):
        """-> ('ret', value) or ('exc', VExc, where)"""
        try:
            return ("ret", self.I.call(self.fn(name), list(args), kw))
        except PyExc as e:
            return ("exc", e.exc, e.where)
