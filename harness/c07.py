"""C07: ambiguity functions."""
import cmath
import math
from .lib import inst, conj, sig, grid, energy, shape_of


def narrow(mk, N, n, lags=None, kind="c"):
    np = mk.np
    f = mk.tftb("processing.ambiguity").narrow_band
    x = sig(mk, N, kind)
    kw = {}
    if lags is not None:
        kw["lag"] = np.array(list(lags))
    if n is not None:
        kw["n_fbins"] = n
    naf, lag, xi = f(x, **kw)
    nn = N if n is None else n
    L = list(range(-(N // 2 - 1) if N % 2 == 0 else -(N - 1) // 2, (N - 1) // 2 + 1)) if lags is None else list(lags)
    mk.ok(shape_of(naf) == (nn, len(L)), "shape")
    mk.eq(lag, np.array(L), "lags")
    ks = list(range(-(nn // 2), nn - nn // 2))
    mk.eq(xi, mk.array([k / nn for k in ks], "f"), "Doppler axis")
    cols = []
    for u in L:
        pr = {t: x[t + u] * conj(x[t - u]) for t in range(N) if 0 <= t + u < N and 0 <= t - u < N}
        col = []
        for k in ks:
            s = 0.0
            for t, v in pr.items():
                s = s + v * cmath.exp(-2j * math.pi * ((k * t) % nn) / nn)
            col.append(s)
        cols.append(col)
    mk.eq(naf, grid(mk, cols, "c"), "sum over t of x[t+lag] x*[t-lag] exp(-2 i pi doppler t)")
    if 0 in L:
        mk.eq(naf[nn // 2, L.index(0)], energy(x), "value at the origin is the energy")
    # A(-doppler, -lag) = A*(doppler, lag)
    for i, u in enumerate(L):
        if -u in L and u >= 0:
            j = L.index(-u)
            for a, k in enumerate(ks):
                if -k in ks:
                    mk.eq(naf[ks.index(-k), j], conj(naf[a, i]), "Hermitian symmetry")


def narrow_cov(mk, N, n, q):
    """modulation leaves the modulus unchanged: A is multiplied by exp(4 i pi q lag / n)"""
    np = mk.np
    f = mk.tftb("processing.ambiguity").narrow_band
    x = sig(mk, N)
    e = mk.array([cmath.exp(2j * math.pi * q * t / n) for t in range(N)], "c")
    A, lag, xi = f(x, n_fbins=n)
    B, _, _ = f(x * e, n_fbins=n)
    r = mk.array([cmath.exp(4j * math.pi * q * int(u) / n) for u in lag], "c")
    mk.eq(B, A * r, "modulation")


def wide(mk, N, M, fmin, fmax):
    np = mk.np
    f = mk.tftb("processing.ambiguity").wide_band
    x = sig(mk, N, "f")
    waf, tau, theta = f(x, fmin=fmin, fmax=fmax, N=M)
    mk.ok(shape_of(waf) == (M, N), "shape")
    m = int(round(N / 2.0))
    mk.eq(tau, np.arange(N) - m, "lag axis")
    mk.eq(theta, mk.array([math.log(fmin / fmax) + i * 2 * math.log(fmax / fmin) / (M - 1) for i in range(M)], "f"),
          "log-scale axis")
    i0 = int(1 + np.round(fmin * (N - 2)))
    i1 = int(1 + np.round(fmax * (N - 2)))
    from scipy.signal import hilbert
    import numpy
    H = numpy.fft.fft(hilbert(numpy.eye(N), axis=0), axis=0)[i0 - 1:i1]
    E = 0.0
    for row in H:
        s = 0.0
        for c, v in zip(row, x):
            s = s + complex(c) * v
        E = E + (s * conj(s)).real
    no2 = (M + M % 2) // 2
    mk.assume(E > 0)
    mk.eq(waf[no2 - 1, m - 1] * M, E, "value at the origin: energy in the band", scale=1.0)


def wide_scale(mk, N, M, fmin, fmax):
    f = mk.tftb("processing.ambiguity").wide_band
    x = sig(mk, N, "f")
    c = mk.real("c", 0.25, 4)
    a = f(x, fmin=fmin, fmax=fmax, N=M)[0]
    b = f(x * c, fmin=fmin, fmax=fmax, N=M)[0]
    mk.eq(b, a * (c * c), "quadratic in the signal")


def instances(tier):
    out = []
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]:
        out.append(inst("narrow", N=N, n=None))
    for N, n in [(3, 4), (4, 7), (5, 8), (6, 9), (7, 16)]:
        out.append(inst("narrow", N=N, n=n))
    for N, n, l in [(6, None, (0, 1, -1, 2)), (7, 8, (-3, 3)), (8, None, (0,)), (5, 6, (2, -2, 0)), (5, None, (4, 3, -4))]:
        out.append(inst("narrow", N=N, n=n, lags=l))
    for k in "fi":
        out.append(inst("narrow", N=6, n=None, lags=None, kind=k))
        out.append(inst("narrow", N=5, n=7, lags=(2, -1, 0), kind=k))
    out.append(inst("narrow", N=24, n=None, cost=9))
    for N, n, q in [(5, 5, 1), (6, 8, 3)]:
        out.append(inst("narrow_cov", N=N, n=n, q=q))
    for N, M, a, b in [(8, 4, 0.1, 0.4), (7, 6, 0.05, 0.45)]:
        out.append(inst("wide", N=N, M=M, fmin=a, fmax=b, cost=5))
        out.append(inst("wide_scale", N=N, M=M, fmin=a, fmax=b, cost=5))
    for N, M, a, b in [(8, 5, 0.1, 0.4), (9, 7, 0.1, 0.3)]:
        out.append(inst("wide", N=N, M=M, fmin=a, fmax=b, cost=5))
    if tier == "thorough":
        for N in range(1, 25):
            for n in (N, N + 1, N + 3, 2 * N):
                out.append(inst("narrow", N=N, n=n))
        for N in (40, 64):
            out.append(inst("narrow", N=N, n=None, cost=50))
        for N in (9, 10, 12, 16):
            out.append(inst("wide", N=N, M=6, fmin=0.1, fmax=0.45, cost=5))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("narrow band: all complex signals of 1..9,12,16,24 samples (quick), 1..24,40,64 (thorough), n_fbins >= length, "
          "default and user-given lags; wide band: all real signals of 7..9 samples, 4..7 scales (quick; ..16 thorough), explicit band and number of voices")
OUTSIDE = "wide band with default band (estimated from the signal)"
