"""C03: Wigner-Ville distribution."""
import cmath
import math
from .lib import inst, conj, column, grid, sig, shape_of, energy


def wv_kernel(x, i, n, h=None):
    """lag kernel of the (pseudo) Wigner-Ville distribution at sample i"""
    N = len(x)
    lh = None if h is None else (len(h) - 1) // 2
    lim = min(i, N - 1 - i, (n - 1) // 2)
    if h is not None:
        lim = min(lim, lh)
    ker = {}
    for u in range(-lim, lim + 1):
        v = x[i + u] * conj(x[i - u])
        ker[u] = v if h is None else v * h[lh + u]
    if n % 2 == 0:
        u = n // 2
        if u <= i < N - u and (h is None or u <= lh):
            p, q = x[i + u] * conj(x[i - u]), x[i - u] * conj(x[i + u])
            if h is not None:
                p, q = p * h[lh + u], q * h[lh - u]
            ker[u] = (p + q) * 0.5
    return ker


def defn(mk, N, n, kind="c", ts=None):
    np = mk.np
    WV = mk.tftb("processing.cohen").WignerVilleDistribution
    x = sig(mk, N, kind)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.linspace(ts[0], ts[1], N)
    tfr, t, f = WV(x, **kw).run()
    nn = N if n is None else n
    mk.ok(not np.iscomplexobj(tfr), "real valued")
    mk.ok(shape_of(tfr) == (nn, N), "shape")
    cols = [column(mk, wv_kernel(x, i, nn), nn) for i in range(N)]
    mk.eq(tfr, grid(mk, cols), "definition")
    mk.eq(np.sum(tfr, axis=0) / nn, mk.array([(v * conj(v)).real for v in x], "f"), "instantaneous power")
    mk.eq(np.sum(tfr), nn * energy(x), "energy", scale=nn)
    mk.eq(f, mk.array([0.5 * k / nn for k in range(nn)], "f"), "frequency axis")


def freq_marginal(mk, N, n):
    """n >= N: summing over time gives the (aliased) energy spectrum"""
    np = mk.np
    WV = mk.tftb("processing.cohen").WignerVilleDistribution
    x = sig(mk, N)
    tfr, _, _ = WV(x, n_fbins=n).run()
    m = np.sum(tfr, axis=1)
    spec = []
    for k in range(n):
        tot = 0.0
        for half in (0.0, 0.5):
            X = 0.0
            for u in range(N):
                X = X + x[u] * cmath.exp(-2j * math.pi * u * (k / (2.0 * n) + half))
            tot = tot + (X * conj(X)).real
        spec.append(tot * 0.5)
    mk.eq(m, mk.array(spec, "f"), "energy spectrum")


def support(mk, N, lo, hi):
    """zero outside the time support of the signal"""
    np = mk.np
    WV = mk.tftb("processing.cohen").WignerVilleDistribution
    y = sig(mk, hi - lo)
    x = np.concatenate([np.zeros(lo, dtype=complex), y, np.zeros(N - hi, dtype=complex)])
    tfr, _, _ = WV(x).run()
    for j in range(N):
        if not lo <= j < hi:
            mk.eq(tfr[:, j], np.zeros(N), "column %d" % j)


def instances(tier):
    out = []
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17]:
        out.append(inst("defn", N=N, n=None))
    for N, n in [(5, 4), (6, 4), (8, 4), (9, 4), (13, 8), (9, 6), (7, 3), (9, 5), (4, 8), (5, 9), (6, 2), (5, 1),
                 (7, 16), (12, 10), (3, 2)]:
        out.append(inst("defn", N=N, n=n))
    for N, n, k in [(6, 6, "f"), (7, 4, "f"), (6, 5, "i")]:
        out.append(inst("defn", N=N, n=n, kind=k))
    out.append(inst("defn", N=7, n=7, kind="c", ts=(0.0, 1.0)))
    for N, n in [(3, 3), (4, 4), (5, 8), (6, 7), (8, 8)]:
        out.append(inst("freq_marginal", N=N, n=n))
    for N, lo, hi in [(6, 2, 4), (9, 3, 9), (8, 0, 5)]:
        out.append(inst("support", N=N, lo=lo, hi=hi))
    out.append(inst("defn", N=32, n=None, cost=9))
    for N, n in [(257, 4), (600, 7)]:
        out.append(inst("defn", N=N, n=n, cost=3))
    if tier == "thorough":
        for N in range(1, 29):
            for n in (N, N - 1, N + 3, N // 2, 4, 8):
                if n >= 1:
                    out.append(inst("defn", N=N, n=n))
        for N in (64, 96):
            out.append(inst("defn", N=N, n=None, cost=90))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all complex, real and integer signals; lengths 1..10,12,16,17,32 and 257, 600 with few bins (quick), 1..28,64,96 (thorough); "
          "n_fbins below, equal to and above the length, odd and even")
OUTSIDE = "timestamps whose number differs from the number of samples"
