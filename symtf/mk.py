"""The two interpretations of a harness.

A harness is an ordinary function h(mk, **params).  SymMK runs it on symbolic
inputs against the symbolically executed repository; ConcMK runs it on concrete
inputs against the plain repository (validation of the translator and replay of
counterexamples)."""
import importlib
import math
import random

import numpy as np


class Skip(BaseException):
    """concrete inputs do not satisfy the harness assumptions"""


class Base(object):
    symbolic = False

    def cvec(self, name, n):
        return self.array([self.cplx("%s%d" % (name, i)) for i in range(n)], "c")

    def rvec(self, name, n, lo=None, hi=None):
        return self.array([self.real("%s%d" % (name, i), lo, hi) for i in range(n)], "f")

    def ivec(self, name, n, lo, hi):
        return self.array([self.integer("%s%d" % (name, i), lo, hi) for i in range(n)], "i")

    def tftb(self, name=""):
        return importlib.import_module("tftb" + ("." + name if name else ""))

    def le(self, a, b, name, tol=1e-6):
        b = b + tol
        self.ok(self.np.logical_not(b < a) if not self._isbool(b < a) else self._not(b < a), name)

    def raises(self, fn, exc=Exception):
        try:
            fn()
        except exc:
            return True
        return False

    forced = None
    fixed = None

    def draws(self, u):
        """random draws return these constants of [0, 1) in turn (None: arbitrary again)"""
        self.forced = None if u is None else list(u)
        self.fixed = None
        if self.symbolic:
            self.engine.fixed = None
            self.engine.forced = self._forced if u is not None else None

    def _forced(self, lo, hi, isint):
        u = self.forced[0]
        self.forced = self.forced[1:] + [u]
        if isint:
            return int(lo + int(u * (hi - lo + 1)))
        return u if self.symbolic and not isinstance(u, (int, float)) else float(u)

    def snapshot(self, x):
        return x.copy()


# ------------------------------------------------------------------ concrete
class ConcMK(Base):
    def __init__(self, env, seed):
        self.np = np
        self.env = dict(env)
        self.rng = random.Random(seed)
        self.obls = []
        self.nrnd = 0

    # inputs
    def cplx(self, name):
        if name not in self.env:
            self.env[name] = complex(self.rng.uniform(-1.5, 1.5), self.rng.uniform(-1.5, 1.5))
        return complex(self.env[name])

    def real(self, name, lo=None, hi=None):
        if name not in self.env:
            a = -1.5 if lo is None else float(lo)
            b = (a + 3 if lo is not None else 1.5) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 3
            self.env[name] = self.rng.uniform(a, b)
        v = self.env[name]
        v = float(v.real if isinstance(v, complex) else v)
        if (lo is not None and v < lo - 1e-12) or (hi is not None and v > hi + 1e-12):
            raise Skip()
        return v

    def integer(self, name, lo, hi):
        if name not in self.env:
            self.env[name] = self.rng.randint(lo, hi)
        return int(self.env[name])

    def array(self, xs, k="f"):
        return np.array(xs, dtype={"c": complex, "f": float, "i": int, "b": bool}[k])

    def draw(self, lo, hi, isint):
        if self.forced is not None:
            return self._forced(lo, hi, isint)
        name = "rnd%d" % self.nrnd
        self.nrnd += 1
        if isint:
            return self.integer(name, lo, hi)
        if hi == "1-":
            if name not in self.env:
                self.env[name] = self.rng.random()
            return float(self.env[name])
        if name not in self.env:
            self.env[name] = self.rng.gauss(0, 1)
        return float(self.env[name])

    # assertions
    def assume(self, c):
        if not bool(c):
            raise Skip()

    def _isbool(self, c):
        return isinstance(c, (bool, np.bool_))

    def _not(self, c):
        return not c

    def ok(self, c, name):
        a = np.asarray(c)
        self.obls.append(("ok", name, bool(np.all(a)) and a.size > 0 or (a.size == 0), a.astype(bool), None, 0.0))

    def eq(self, a, b, name, scale=None):
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype == object or b.dtype == object:
                raise TypeError("object array")
            a, b = (v.astype(int) if v.dtype == bool else v.copy() for v in (a, b))
        except Exception:
            self.obls.append(("eq", name, False, None, None, float("inf")))
            return
        if a.shape != b.shape:
            if b.shape == () and a.size == 1 or a.shape == () and b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                self.obls.append(("shape", name, False, np.array(a.shape), np.array(b.shape), float("inf")))
                return
        if a.size == 0:
            self.obls.append(("eq", name, True, a, b, 0.0))
            return
        sc = max(1e-9, float(np.max(np.abs(np.where(np.isfinite(b), b, 0)))),
                 1.0 if scale is None else float(scale))
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
        bad = ~(d <= 1e-6 * sc)
        both = np.isnan(a) & np.isnan(b) | (a == b)
        bad &= ~both
        d = np.where(both, 0.0, d)
        mx = float(np.max(np.where(np.isnan(d), np.inf, d))) / sc
        self.obls.append(("eq", name, not bad.any(), a, b, mx))

    def feasible(self, c):
        return bool(c)

    def int(self, v):
        return int(v)

    def whole(self, v):
        return int(round(float(v)))


# ------------------------------------------------------------------ symbolic
class SymMK(Base):
    symbolic = True

    def __init__(self, engine, path):
        from . import shim, sym, arr
        self.S, self.A = sym, arr
        self.np = shim.module_shim("numpy", np)
        self.engine, self.p = engine, path

    def cplx(self, name):
        return self.engine.ctx.input_complex(name)

    def real(self, name, lo=None, hi=None):
        return self.engine.ctx.input_real(name, lo, hi)

    def integer(self, name, lo, hi):
        return self.engine.ctx.input_real(name, lo, hi, True)

    def array(self, xs, k="f"):
        return self.A.SArr.from_list(list(xs), k=k)

    def assume(self, c):
        c = self._scalar(c)
        self.engine.assume(c)

    def _scalar(self, c):
        if isinstance(c, self.A.SArr):
            c = c.all() if c.ndim else c.item()
        if isinstance(c, np.ndarray):
            c = bool(c.all())
        if isinstance(c, self.S.Sym):
            c = self.S.bnot(self.S.iszero(c))
        return c

    def _isbool(self, c):
        return isinstance(c, (bool, np.bool_, self.S.SBool))

    def _not(self, c):
        return self.S.bnot(c)

    def ok(self, c, name):
        from .engine import Obl
        if isinstance(c, (self.A.SArr, np.ndarray)):
            a = self.A._as_arr(c).mat()
            cs = [x if isinstance(x, self.S.SBool) else bool(x) for x in a.a.flat]
        else:
            if isinstance(c, self.S.Sym):
                c = self.S.bnot(self.S.iszero(c))
            cs = [c if isinstance(c, self.S.SBool) else bool(c)]
        self.p.obls.append(Obl("ok", name, c=cs))

    def eq(self, a, b, name, scale=None):
        from .engine import Obl
        A = self.A
        a, b = A._as_arr(a).mat(), A._as_arr(b).mat()
        if a.shape != b.shape:
            if b.shape == () and a.size == 1 or a.shape == () and b.size == 1:
                a, b = a.reshape(()), b.reshape(())
            else:
                self.p.obls.append(Obl("ok", name + ": shape %s != %s" % (a.shape, b.shape), c=[False]))
                return
        self.p.obls.append(Obl("eq", name, [A.clean(x) for x in a.a.flat], [A.clean(x) for x in b.a.flat],
                               scale=1.0 if scale is None else scale))

    def int(self, v):
        return self.S.trunc(v)

    def whole(self, v):
        v = self.A.clean(v)
        return self.engine.concretize(self.S.setkind(v, "i")) if isinstance(v, self.S.Sym) else int(v)

    def feasible(self, c):
        return self.engine.feasible(c)
