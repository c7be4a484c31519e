"""Path explorer and decision procedure for one harness instance."""
import contextlib
import math
import random
import time
import traceback

import z3

from . import sym as S
from . import solve
from .sym import Sym, SBool, Unsupported, PathAbort
from .solve import Tr, check, Stats, frac
from .abstr import Abs

FORK_MS = 1500
LOST_MAX = 6.0


class Inconclusive(Exception):
    pass


class Obl(object):
    """one obligation: eq (a==b), ok (Boolean), defined (q must not vanish)"""
    __slots__ = ("kind", "name", "a", "b", "c", "scale")

    def __init__(self, kind, name, a=None, b=None, c=None, scale=1.0):
        self.kind, self.name, self.a, self.b, self.c, self.scale = kind, name, a, b, c, scale


class Path(object):
    def __init__(self):
        self.assume = []     # harness assumptions (SBool)
        self.pc = []         # branch decisions (SBool)
        self.obls = []
        self.nz = []         # (guards, sym, 'nz'|'pos'|'nonneg')
        self.exc = None
        self.rnd = 0


def has_log(x):
    return isinstance(x, Sym) and any(S.ctx().vars[v].typ == "log" for (m, p) in x.t for v, e in m)


class Engine(object):
    def __init__(self, ctx, samples=(), max_paths=256, deadline=None, seed=1):
        self.ctx = ctx
        ctx.engine = self
        self.stats = Stats()
        self.samples0 = list(samples)
        self.max_paths = max_paths
        self.deadline = deadline
        self.tr = Tr(ctx)
        self.abs = Abs(ctx, self.stats)
        self.lost = 0.0          # time spent in undecided exploration queries
        self.rng = random.Random(seed)
        self.paths = []
        self.aborted = 0
        self.forks = 0

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        todo = [[]]
        while todo:
            if len(self.paths) + self.aborted >= self.max_paths:
                raise Inconclusive("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time limit in path exploration")
            self.prefix = todo.pop()
            self.taken = []
            self.p = Path()
            self.guards = []
            self.assigned = {}
            self.ctx.clamps = {}
            self.kcache = {}
            self.samples = list(self.samples0)
            self.abs.start()
            self.solver = None
            self.ndefs = 0
            try:
                fn(self.p)
            except PathAbort:
                self.aborted += 1
                for i in range(len(self.prefix), len(self.taken)):
                    if self.taken[i][1]:
                        todo.append([t[0] for t in self.taken[:i]] + [not self.taken[i][0]])
                continue
            for i in range(len(self.prefix), len(self.taken)):
                if self.taken[i][1]:
                    todo.append([t[0] for t in self.taken[:i]] + [not self.taken[i][0]])
            self.paths.append(self.p)
        return self.paths

    def _conds(self):
        return self.p.assume + self.p.pc

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.npc = 0
            self.ndefs = 0
        cs = self._conds()
        new = [self.tr.boolean(c) for c in cs[self.npc:]]
        for d in self.tr.defs[self.ndefs:]:
            self.solver.add(d)
        self.ndefs = len(self.tr.defs)
        for c in new:
            self.solver.add(c)
        self.npc = len(cs)
        return self.solver

    def _filter(self, b):
        """samples (complete environments) that satisfy b"""
        out = []
        for e in self.samples:
            try:
                if S._evb(b, e, {}):
                    out.append(e)
            except KeyError:
                pass
        return out

    def _sampled(self, b):
        """(some sample makes b true, some makes it false)"""
        t = f = False
        for e in self.samples:
            try:
                if S._evb(b, e, {}):
                    t = True
                else:
                    f = True
            except KeyError:
                continue
            except (OverflowError, ZeroDivisionError):
                continue
            if t and f:
                break
        return t, f

    def _asat(self, b):
        r = self.abs.sat(self._conds(), [b] + list(self.guards))
        if r == "sat" and self.abs.tr.opaque:
            return "unknown"
        return r

    def _sat(self, b, ms=FORK_MS):
        r = self._asat(b)
        if r != "unknown" or self.lost > LOST_MAX:
            return r
        s = self._solver()
        zb = self.tr.boolean(b)
        for d in self.tr.defs[self.ndefs:]:
            s.add(d)
        self.ndefs = len(self.tr.defs)
        gs = [self.tr.boolean(g) for g in self.guards]
        for d in self.tr.defs[self.ndefs:]:
            s.add(d)
        self.ndefs = len(self.tr.defs)
        s.push()
        s.add(zb)
        for g in gs:
            s.add(g)
        t0 = time.time()
        r = check(s, self.stats, ms)
        if r == "unknown":
            self.lost += time.time() - t0
        s.pop()
        return r

    def fork(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        neg = False
        while b.op == "not":
            b = b.args[0]
            neg = not neg
        k = S.bkey(b)
        if k in self.assigned:
            return self.assigned[k] != neg
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            both = False
        else:
            if self.deadline and time.time() > self.deadline:
                raise Inconclusive("time limit")
            t, f = self._sampled(b)
            if not t:
                t = self._sat(b) != "unsat"
            if not f:
                f = self._sat(S.bnot(b)) != "unsat"
            if not t and not f:
                raise PathAbort()
            both = t and f
            v = t
            self.forks += 1
        self.taken.append((v, both))
        self._assign(b, v)
        return v != neg

    def _assign(self, b, v):
        self.assigned[S.bkey(b)] = v
        c = b if v else S.bnot(b)
        self.p.pc.append(c)
        self.samples = self._filter(c)
        self.kcache = {}

    def assume(self, b):
        if not isinstance(b, SBool):
            if not b:
                raise PathAbort()
            return
        self.p.assume.append(b)
        neg, bb = False, b
        while bb.op == "not":
            bb = bb.args[0]
            neg = not neg
        self.assigned[S.bkey(bb)] = not neg
        if b.op == "and":
            for a in b.args:
                n, aa = False, a
                while aa.op == "not":
                    aa = aa.args[0]
                    n = not n
                self.assigned[S.bkey(aa)] = not n
        self.samples = self._filter(b)
        self.kcache = {}

    # ------------------------------------------------------------ queries used by sym
    def known(self, c):
        if not isinstance(c, SBool):
            return bool(c)
        neg = False
        b = c
        while b.op == "not":
            b = b.args[0]
            neg = not neg
        k = S.bkey(b)
        if k in self.assigned:
            return self.assigned[k] != neg
        for g in self.guards:
            for h in (g.args if g.op == "and" else (g,)):
                n, hh = False, h
                while hh.op == "not":
                    hh = hh.args[0]
                    n = not n
                if S.bkey(hh) == k:
                    return n == neg
        ck = (k, len(self.guards) and tuple(S.bkey(g) for g in self.guards))
        if ck in self.kcache:
            r = self.kcache[ck]
        else:
            t, f = self._sampled(b) if not self.guards else self._sampled_g(b)
            r = None
            if not (t and f):
                if not t and self._sat(b, 400) == "unsat":
                    r = False
                elif not f and self._sat(S.bnot(b), 400) == "unsat":
                    r = True
            self.kcache[ck] = r
        return None if r is None else r != neg

    def _sampled_g(self, b):
        keep = self.samples
        g = S.band(*self.guards)
        if isinstance(g, SBool):
            self.samples = self._filter(g)
        try:
            return self._sampled(b)
        finally:
            self.samples = keep

    def truth(self, b):
        return self.known(b) is True

    def feasible(self, b):
        if not isinstance(b, SBool):
            return bool(b)
        t, f = self._sampled(b) if not self.guards else self._sampled_g(b)
        if t:
            return True
        k = ("feasible", S.bkey(b), tuple(S.bkey(g) for g in self.guards))
        if k not in self.kcache:
            r = self.abs.small(self._conds(), [b] + list(self.guards))
            self.kcache[k] = r != "unsat"
        return self.kcache[k]

    def sign(self, x):
        if not isinstance(x, Sym):
            return (x > 0) - (x < 0)
        p = S.lt(0, x)
        if not isinstance(p, SBool):
            if p:
                return 1
            n = S.lt(x, 0)
            if n is True:
                return -1
            if self.known(n) if isinstance(n, SBool) else False:
                return -1
            return None if isinstance(n, SBool) else 0
        if self.known(p) is True:
            return 1
        n = S.lt(x, 0)
        if n is True or (isinstance(n, SBool) and self.known(n) is True):
            return -1
        if n is False or (isinstance(n, SBool) and self.known(n) is False):
            return 1 if self.known(p) is True else 0.5
        return None

    def concretize(self, x):
        if not isinstance(x, Sym):
            return int(x)
        tried = 0
        seen = set()
        while True:
            v = None
            for e in self.samples:
                try:
                    w = int(round(S.evaluate(x, e)))
                except KeyError:
                    continue
                if w not in seen and (S.bkey(S._batom("zero", S.setkind(x, "f") - w)) not in self.assigned):
                    v = w
                    break
            if v is None:
                s = self._solver()
                zx, _ = self.tr.sym(x)
                for d in self.tr.defs[self.ndefs:]:
                    s.add(d)
                self.ndefs = len(self.tr.defs)
                s.push()
                for w in seen:
                    s.add(zx != w)
                r = check(s, self.stats, 4000)
                if r == "sat":
                    v = int(round(solve.val(s.model(), zx)))
                s.pop()
                if r == "unsat":
                    raise PathAbort()
                if r == "unknown":
                    raise Inconclusive("concretize: unknown")
            seen.add(v)
            c = x == v
            fa = S.floor_arg(x)
            if fa is not None and abs(fa[0]) == 1 and has_log(fa[2]):
                n = (v - fa[1]) / fa[0]
                c = S.band(S.bnot(S.lt(fa[2], n)), S.lt(fa[2], n + 1))
            if not isinstance(c, SBool):
                if c:
                    return v
                tried += 1
                if tried > 64:
                    raise Inconclusive("concretize: too many values")
                continue
            if self.fork(c):
                return v
            tried += 1
            if tried > 64:
                raise Inconclusive("concretize: too many values")

    def assume_nonzero(self, q):
        b = S.iszero(q)
        if not isinstance(b, SBool):
            return
        if self.known(b) is False:
            return
        self.p.nz.append((tuple(self.guards), q, "nz"))

    def assume_positive(self, q):
        if self.sign(q) == 1:
            return
        self.p.nz.append((tuple(self.guards), q, "pos"))

    def note_nonneg(self, q):
        s = self.sign(q)
        if s is not None and s >= 0:
            return
        self.p.nz.append((tuple(self.guards), q, "nonneg"))

    @contextlib.contextmanager
    def guarded(self, g):
        if isinstance(g, SBool):
            self.guards.append(g)
            try:
                yield
            finally:
                self.guards.pop()
        else:
            yield

    forced = None
    fixed = None         # seeded global generator

    def nondet(self, lo, hi, isint):
        if self.forced is not None:
            return self.forced(lo, hi, isint)
        name = "rnd%d" % self.p.rnd
        self.p.rnd += 1
        strict = hi == "1-"
        v = self.ctx.input_real(name, lo, 1 if strict else hi, isint)
        if strict:
            self.p.assume.append(S.lt(v, 1))
            self.samples = self._filter(S.lt(v, 1)) if isinstance(S.lt(v, 1), SBool) else self.samples
        return v
