"""Helpers shared by the harnesses (they run symbolically and concretely)."""
import cmath
import math


def inst(fn, cost=1, **params):
    name = fn + "".join("-%s=%s" % (k, _s(v)) for k, v in params.items())
    return dict(name=name, fn=fn, params=params, cost=cost)


def _s(v):
    if isinstance(v, (list, tuple)):
        return "_".join(str(x) for x in v)
    return str(v)


def conj(x):
    return x.conjugate() if hasattr(x, "conjugate") else x


def dft(kernel, n, k):
    """sum over lags of value * exp(-2 i pi k lag / n); kernel: {lag: value}"""
    s = 0.0
    for lag, v in kernel.items():
        ang = -2.0 * math.pi * ((k * lag) % n) / n
        s = s + v * cmath.exp(1j * ang)
    return s


def column(mk, kernel, n):
    return [dft(kernel, n, k) for k in range(n)]


def grid(mk, cols, kind="c"):
    """list of columns -> array (rows x columns)"""
    n = len(cols[0])
    flat = [cols[j][k] for k in range(n) for j in range(len(cols))]
    if kind == "f":
        flat = [re(v) for v in flat]
    return mk.array(flat, kind).reshape((n, len(cols)))


def re(v):
    return v.real


def sig(mk, N, kind="c", name="x"):
    if kind == "c":
        return mk.cvec(name, N)
    if kind == "f":
        return mk.rvec(name, N)
    return mk.ivec(name, N, -9, 9)


def shape_of(a):
    return tuple(int(v) for v in a.shape)


def energy(x):
    s = 0.0
    for v in x:
        s = s + (v * conj(v)).real
    return s
