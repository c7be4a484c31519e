"""C19: two-dimensional integration and Renyi information."""
import math
from .lib import inst


def _trap(A, m, n, dx, y):
    """trapezoidal rule, uniform abscissa step dx, ordinates y"""
    rows = []
    for i in range(m):
        s = 0.0
        for j in range(n - 1):
            s = s + (A[i][j] + A[i][j + 1]) * (0.5 * dx)
        rows.append(s)
    t = 0.0
    for i in range(m - 1):
        t = t + (rows[i] + rows[i + 1]) * (y[i + 1] - y[i]) * 0.5
    return t


def _mat(mk, m, n, lo=None, hi=None):
    return mk.rvec("a", m * n, lo, hi).reshape((m, n))


def _rows(A, m, n):
    return [[A[i, j] for j in range(n)] for i in range(m)]


def integral(mk, m, n, x="sym", y="sym"):
    f = mk.tftb("processing.utils").integrate_2d
    A = _mat(mk, m, n)
    kw = {}
    dx, yy = 1.0, [float(i) for i in range(m)]
    if x is not None:
        x0, dx = mk.real("x0", -5, 5), mk.real("dx", *((0.1, 5) if x == "sym" else (-5, -0.1)))
        kw["x"] = mk.array([x0 + j * dx for j in range(n)], "f")
    if y == "sym":
        yy = [mk.real("y%d" % i) for i in range(m)]
        kw["y"] = mk.array(yy, "f")
    s = mk.snapshot(A)
    mk.eq(f(A, **kw), _trap(_rows(A, m, n), m, n, dx, yy), "trapezoidal rule")
    mk.eq(A, s, "matrix unchanged")


def bilinear(mk, m, n):
    """exact for a + b x + c y + d x y"""
    f = mk.tftb("processing.utils").integrate_2d
    a, b, c, d = [mk.real(v) for v in "abcd"]
    dx, dy = mk.real("dx", 0.1, 3), mk.real("dy", 0.1, 3)
    A = mk.array([a + b * (j * dx) + c * (i * dy) + d * (i * dy) * (j * dx) for i in range(m) for j in range(n)], "f").reshape((m, n))
    X, Y = (n - 1) * dx, (m - 1) * dy
    r = f(A, mk.array([j * dx for j in range(n)], "f"), mk.array([i * dy for i in range(m)], "f"))
    mk.eq(r, a * X * Y + b * X * X * Y * 0.5 + c * X * Y * Y * 0.5 + d * X * X * Y * Y * 0.25, "exact integral")


def renyi(mk, m, n, alpha=None, axes=None, lo=0.05, order=None, zero=()):
    """log2 of the integral of the normalised distribution to the power alpha, over 1 - alpha"""
    np = mk.np
    f = mk.tftb("processing").renyi_information
    A = _mat(mk, m, n, lo, 3)
    for i, j in zero:
        A[i, j] = 0.0
    R = _rows(A, m, n)
    kw, dx, yy = {}, 1.0, [float(i) for i in range(m)]
    if axes == "explicit":
        dx = 2.0
        kw["timestamps"] = mk.array([3.0 + 2 * j for j in range(n)], "f")
        yy = [0.25 * i * i + 0.1 * i for i in range(m)]
        kw["freq"] = mk.array([yy[i] for i in (order or range(m))], "f")
    elif axes == "transform":
        # frequencies of a transform, negative ones last
        fr = sorted((k if k < (m + 1) // 2 else k - m) / float(m) for k in range(m))
        kw["freq"] = mk.array([(k if k < (m + 1) // 2 else k - m) / float(m) for k in range(m)], "f")
        yy = fr
    elif axes == "arange":
        kw["timestamps"] = mk.array(list(range(n)), "i")
        kw["freq"] = mk.array([0.5 * i / m for i in range(m)], "f")
        yy = [0.5 * i / m for i in range(m)]
    if alpha is not None:
        kw["alpha"] = alpha
    al = 3.0 if alpha is None else alpha
    s = mk.snapshot(A)
    I = _trap(R, m, n, dx, yy)
    P = [[v / I for v in r] for r in R]
    got = f(A, **kw)
    mk.eq(A, s, "distribution unchanged")
    if alpha == 1:
        ref = -_trap([[v * np.log2(v + 2.220446049250313e-16) for v in r] for r in P], m, n, dx, yy)
        mk.eq(got, ref, "Shannon entropy")
    else:
        J = _trap([[v ** al for v in r] for r in P], m, n, dx, yy)
        mk.eq(got, np.log2(J + 2.220446049250313e-16) / (1 - al), "Renyi information")


def scale(mk, m, n, alpha):
    """the information does not depend on the scale of the distribution"""
    f = mk.tftb("processing").renyi_information
    A = _mat(mk, m, n, 0.05, 3)
    c = mk.real("c", 0.1, 10)
    mk.eq(f(A * c, alpha=alpha), f(A, alpha=alpha), "scale invariance")


def uniform(mk, m, n, alpha):
    """a constant distribution carries log2 of its area, whatever its level"""
    f = mk.tftb("processing").renyi_information
    c = mk.real("c", 0.1, 10)
    A = mk.array([c] * (m * n), "f").reshape((m, n))
    mk.eq(f(A, alpha=alpha), math.log2((m - 1) * (n - 1)), "log2 of the area")


def negative(mk, m, n, i, j):
    """alpha = 1 refuses negative values, other orders accept them"""
    f = mk.tftb("processing").renyi_information
    v = [mk.real("a%d" % k, 0.5, 3) for k in range(m * n)]
    v[i * n + j] = mk.real("neg", -0.1, -0.01)
    A = mk.array(v, "f").reshape((m, n))
    mk.ok(mk.raises(lambda: f(A, alpha=1), ValueError), "negative value refused")
    mk.ok(not mk.raises(lambda: f(A, alpha=3), Exception), "order 3 accepted")


def instances(tier):
    th = tier == "thorough"
    out = []
    for m, n in [(2, 2), (2, 3), (3, 2), (4, 5), (5, 4), (1, 3), (8, 8)] + ([(16, 16), (33, 20)] if th else []):
        for x in ("sym", None, "falling"):
            for y in ("sym", None):
                out.append(inst("integral", m=m, n=n, x=x, y=y))
    for m, n in [(2, 2), (3, 4), (5, 3), (8, 9)]:
        out.append(inst("bilinear", m=m, n=n))
    sizes = [(2, 2), (2, 3), (3, 2)] + ([(3, 3), (4, 3)] if th else [])
    for m, n in sizes:
        for alpha in (None, 2, 2.0, 3, 4, 1):
            out.append(inst("renyi", m=m, n=n, alpha=alpha))
        out.append(inst("renyi", m=m, n=n, axes="explicit"))
        out.append(inst("renyi", m=m, n=n, axes="explicit", alpha=2))
        out.append(inst("renyi", m=m, n=n, axes="arange"))
        out.append(inst("renyi", m=m, n=n, axes="transform"))
    out.append(inst("renyi", m=3, n=2, axes="explicit", order=[2, 0, 1]))
    for al in (1, 2, None):
        out.append(inst("renyi", m=2, n=3, alpha=al, zero=[(0, 0), (1, 2)]))
        out.append(inst("renyi", m=3, n=2, alpha=al, zero=[(1, 1)]))
    out.append(inst("renyi", m=2, n=2, alpha=0.5))
    out.append(inst("renyi", m=4, n=2, alpha=2, axes="transform"))
    for m, n in [(2, 2), (2, 3)]:
        for alpha in (2, 3):
            out.append(inst("scale", m=m, n=n, alpha=alpha))
    for m, n in [(2, 3), (4, 4), (5, 9)]:
        for alpha in (1, 2, 3, 5):
            out.append(inst("uniform", m=m, n=n, alpha=alpha))
    for i, j in [(0, 0), (1, 2), (0, 1)]:
        out.append(inst("negative", m=2, n=3, i=i, j=j))
    return out


BOUNDS = "every real matrix up to 8x8 (thorough 33x20) and its axes, rising or falling, for the integral; positive matrices 2x2..3x2 (thorough 4x3), some with empty cells, for the information, orders 1/2, 1, 2, 3, 4"
OUTSIDE = "non-uniform time axes (the rule assumes a constant step); symbolic orders"
