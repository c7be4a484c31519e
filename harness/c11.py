"""C11: amplitude modulations."""
import math
from .lib import inst, shape_of

SQ = math.sqrt


def _args(mk, N, t0, spread, ints):
    kw = {}
    c, s = float(round(N / 2.0)), 2 * SQ(N)
    if t0:
        c = mk.integer("t0", -2, N + 3) if ints else mk.real("t0", -2, N + 3)
        kw["t0"] = c
    if spread:
        s = mk.integer("T", 1, 3 * N + 2) if ints else mk.real("T", 0.125, 4 * N + 4)
        kw["spread"] = s
    return kw, c, s


def gauss(mk, N, t0=True, spread=True, ints=False):
    np = mk.np
    f = mk.tftb("generators").amgauss
    kw, c, s = _args(mk, N, t0, spread, ints)
    y = f(N, **kw)
    mk.ok(shape_of(y) == (N,), "shape")
    mk.eq(y, mk.array([np.exp(-math.pi * ((k + 1 - c) / s) ** 2) for k in range(N)], "f"), "gaussian")


def expos(mk, N, kind="bilateral", t0=True, spread=True, ints=False):
    np = mk.np
    f = mk.tftb("generators").amexpos
    kw, c, s = _args(mk, N, t0, spread, ints)
    if kind is not None:
        kw["kind"] = kind
    y = f(N, **kw)
    mk.ok(shape_of(y) == (N,), "shape")
    v = []
    for k in range(N):
        d = k - c
        if kind in (None, "bilateral"):
            v.append(np.exp(-SQ(2 * math.pi) * np.abs(d) / s))
        else:
            v.append(np.exp(-SQ(math.pi) * d / s) * (d >= 0))
    mk.eq(y, mk.array(v, "f"), "exponential")


def rect(mk, N, t0=True, spread=True, ints=False):
    np = mk.np
    f = mk.tftb("generators").amrect
    kw, c, s = _args(mk, N, t0, spread, ints)
    y = f(N, **kw)
    mk.ok(shape_of(y) == (N,), "shape")
    h = 0.5 * s * SQ(3.0 / math.pi)
    for k in range(N):
        d = np.abs(k - c)
        # rounding of the half width is not decided at the edge itself
        mk.ok(np.logical_or(d > h - 1e-6, y[k] == 1), "1 inside")
        mk.ok(np.logical_or(d < h + 1e-6, y[k] == 0), "0 outside")
        mk.ok(np.logical_or(y[k] == 0, y[k] == 1), "0 or 1")


def triang(mk, N, t0=True, spread=True, ints=False):
    np = mk.np
    f = mk.tftb("generators").amtriang
    kw, c, s = _args(mk, N, t0, spread, ints)
    y = f(N, **kw)
    mk.ok(shape_of(y) == (N,), "shape")
    L = SQ(10.0 / math.pi) * s / 2.0
    v = [np.maximum(0.0, 1 - np.abs(k - c) / L) for k in range(N)]
    mk.eq(y, mk.array(v, "f"), "triangle of height 1 and half width L")


def empty(mk):
    """non-positive sizes are refused, whatever the other arguments"""
    g = mk.tftb("generators")
    c = mk.real("t0", -9, 9)
    s = mk.real("T", 0.125, 9)
    for fn in (g.amgauss, g.amexpos, g.amrect, g.amtriang):
        for n in (0, -1, -7):
            mk.ok(mk.raises(lambda: fn(n, t0=c, spread=s), TypeError), "TypeError for n_points <= 0")


def instances(tier):
    out = []
    Ns = [1, 2, 3, 4, 5, 8, 9, 16, 33, 64]
    if tier == "thorough":
        Ns = list(range(1, 65)) + [100, 127, 128, 129, 256]
    for N in Ns:
        for fn in ("gauss", "expos", "rect", "triang"):
            out.append(inst(fn, N=N))
        out.append(inst("expos", N=N, kind="unilateral"))
    for N in (1, 2, 3, 6, 7, 128, 160):
        for fn in ("gauss", "expos", "rect", "triang"):
            out.append(inst(fn, N=N, t0=False, spread=False))
        out.append(inst("expos", N=N, kind="unilateral", t0=False, spread=False))
    for N in (5, 8):
        for fn in ("gauss", "expos", "rect", "triang"):
            out.append(inst(fn, N=N, t0=True, spread=False))
            out.append(inst(fn, N=N, t0=False, spread=True))
            out.append(inst(fn, N=N, t0=True, spread=True, ints=True))
        out.append(inst("triang", N=N, t0=True, spread=False, ints=True))
        out.append(inst("triang", N=N, t0=False, spread=True, ints=True))
        out.append(inst("expos", N=N, kind="unilateral", t0=True, spread=True, ints=True))
        out.append(inst("expos", N=N, kind=None))
    out.append(inst("empty"))
    return out


BOUNDS = ("centre t0 anywhere in [-2, n+3] and spread anywhere in [1/8, 4n+4] (symbolic reals, symbolic integers, or defaults); "
          "n_points in {1..5,8,9,16,33,64} (thorough: 1..64,100,127..129,256), defaults also at 128 and 160; n_points <= 0: 0,-1,-7")
OUTSIDE = "whether a rectangle sample within 1e-6 of the edge counts as inside (float rounding)"
