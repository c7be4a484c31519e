"""C18: sigmerge adds two signals with the requested energy ratio."""
import math
from .lib import inst, shape_of, sig, conj, energy


def merge(mk, N, k1="c", k2="c", ratio="sym"):
    np = mk.np
    f = mk.tftb("generators").sigmerge
    x, y = sig(mk, N, k1, "x"), sig(mk, N, k2, "y")
    a, b = energy(x), energy(y)
    mk.assume(a > 0.05)
    mk.assume(b > 0.05)
    sx, sy = mk.snapshot(x), mk.snapshot(y)
    if ratio == "sym":
        r = mk.real("r", -20, 20)
        z = f(x, y, r)
        g = np.exp(r * (math.log(10) / 10))
    elif ratio is None:
        z, g = f(x, y), 1.0
    else:
        z, g = f(x, y, ratio), 10 ** (ratio / 10.0)
    mk.ok(shape_of(z) == (N,), "as many samples as the signals")
    h2 = a / (b * g)
    d = z - x
    mk.eq(d, y * np.sqrt(h2), "second signal added with a positive gain")
    e = 0.0
    for v in d:
        e = e + (v * conj(v)).real
    mk.eq(e * g, a, "energy ratio of the two parts")
    mk.eq(x, sx, "first signal unchanged")
    mk.eq(y, sy, "second signal unchanged")


def shapes(mk, n, m):
    """signals that are not one dimensional are refused"""
    f = mk.tftb("generators").sigmerge
    x, y = mk.cvec("x", n * m), mk.cvec("y", n * m)
    A, B = x.reshape((n, m)), y.reshape((n, m))
    for p, q in ((A, B), (A, y), (x, B)):
        mk.ok(mk.raises(lambda: f(p, q, 1.0), AssertionError), "not one dimensional")
    mk.ok(mk.raises(lambda: f(x, y, "3"), AssertionError), "ratio is a number")


def instances(tier):
    th = tier == "thorough"
    out = []
    for N in (1, 2, 3, 4, 5, 8, 16) + ((33, 64) if th else ()):
        for r in ("sym", None, 3, -7.5):
            out.append(inst("merge", N=N, ratio=r))
    for k1 in "cfi":
        for k2 in "cfi":
            out.append(inst("merge", N=4, k1=k1, k2=k2))
            out.append(inst("merge", N=3, k1=k1, k2=k2, ratio=5))
    out += [inst("shapes", n=2, m=2), inst("shapes", n=3, m=1), inst("shapes", n=1, m=4)]
    return out


BOUNDS = "every pair of complex, real or integer signals of energy above 0.05, every ratio in [-20, 20] dB; 1..16 samples (thorough 64)"
OUTSIDE = "zero signals (the gain is undefined)"
