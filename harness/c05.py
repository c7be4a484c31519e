"""C05: Margenau-Hill and pseudo Margenau-Hill distributions."""
import cmath
import math
from scipy.signal.windows import hamming
from .lib import inst, conj, grid, sig, energy, column


def defn(mk, N, n, kind="c", ts=None):
    np = mk.np
    MH = mk.tftb("processing.cohen").MargenauHillDistribution
    x = sig(mk, N, kind)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.array(list(ts))
    tfr, t, f = MH(x, **kw).run()
    nn = N if n is None else n
    tt = list(range(N)) if ts is None else list(ts)
    mk.ok(not np.iscomplexobj(tfr), "real valued")
    X = []
    for k in range(nn):
        s = 0.0
        for u in range(N):
            s = s + x[u] * cmath.exp(-2j * math.pi * ((k * u) % nn) / nn)
        X.append(s)
    cols = [[(x[t] * conj(X[k]) * cmath.exp(-2j * math.pi * ((k * t) % nn) / nn)).real for k in range(nn)]
            for t in tt]
    mk.eq(tfr, grid(mk, cols, "f"), "real part of x[t] X*[k] exp(-2i pi k t / n)")
    mk.eq(np.sum(tfr, axis=0) / nn, mk.array([(x[t] * conj(x[t])).real for t in tt], "f"), "instantaneous power")
    if ts is None:
        mk.eq(np.sum(tfr, axis=1), mk.array([(v * conj(v)).real for v in X], "f"), "energy spectrum")
        mk.eq(np.sum(tfr), nn * energy(x), "energy", scale=nn)


def pseudo(mk, N, n, L, kind="c", wkind="f"):
    np = mk.np
    PMH = mk.tftb("processing.cohen").PseudoMargenauHillDistribution
    x = sig(mk, N, kind)
    kw = {}
    if L is not None:
        kw["fwindow"] = sig(mk, L, wkind, "h")
    if n is not None:
        kw["n_fbins"] = n
    tt = list(range(N))
    obj = PMH(x, **kw)
    tfr, t, f = obj.run()
    nn = N if n is None else n
    if L is None:
        q = nn // 4
        h = hamming(q + 1 - q % 2)
    else:
        h = kw["fwindow"]
    lh = (len(h) - 1) // 2
    mk.ok(not np.iscomplexobj(tfr), "pseudo: real valued")
    cols = []
    for t in tt:
        ker = {u: h[lh + u] * x[t] * conj(x[t - u])
               for u in range(-min((nn - 1) // 2, lh, N - 1 - t), min((nn - 1) // 2, lh, t) + 1)}
        cols.append(column(mk, ker, nn))
    mk.eq(tfr, grid(mk, cols, "f"), "pseudo: lag-windowed Margenau-Hill")
    mk.eq(np.sum(tfr, axis=0) / nn, mk.array([((x[t] * conj(x[t])).real * h[lh] + 0j).real for t in tt], "f"),
          "pseudo: instantaneous power times the window centre")


def instances(tier):
    out = []
    for N in (1, 2, 5, 8, 9, 16):
        out.append(inst("pseudo", N=N, n=None, L=None))
    for N, n, L in [(4, 4, 3), (5, 5, 5), (7, 4, 7), (6, 9, 5), (6, 3, 7), (8, 12, 9), (5, 2, 3), (3, 8, 1)]:
        out.append(inst("pseudo", N=N, n=n, L=L))
    out.append(inst("pseudo", N=6, n=6, L=5, kind="f"))
    for k, w in ["cc", "ci", "fc", "if", "ic", "ii"]:
        out.append(inst("pseudo", N=5, n=6, L=3, kind=k, wkind=w))
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]:
        out.append(inst("defn", N=N, n=None))
    for N, n in [(3, 4), (4, 7), (5, 8), (6, 9), (7, 16), (1, 3)]:
        out.append(inst("defn", N=N, n=n))
    for N, n, k in [(6, None, "f"), (5, 8, "f"), (5, 6, "i")]:
        out.append(inst("defn", N=N, n=n, kind=k))
    for N, n, ts in [(8, None, (0, 2, 4, 6)), (6, 8, (5, 1, 3)), (7, 7, (3,)), (5, 5, (4, 0))]:
        out.append(inst("defn", N=N, n=n, kind="c", ts=ts))
    out.append(inst("defn", N=24, n=None, cost=9))
    for N, n, L in [(257, 4, 3), (600, 8, 7)]:
        out.append(inst("pseudo", N=N, n=n, L=L, cost=3))
    out.append(inst("defn", N=128, n=128, ts=(0, 64, 127), cost=3))
    if tier == "thorough":
        for N in range(1, 25):
            for n in (N, N + 1, N + 4, 2 * N):
                out.append(inst("defn", N=N, n=n))
        for N in range(1, 17):
            for n in (N, N + 1, max(1, N // 2), 4):
                for L in (3, 5, 2 * N + 1):
                    out.append(inst("pseudo", N=N, n=n, L=L))
        for N in (40, 64):
            out.append(inst("defn", N=N, n=None, cost=50))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all complex, real and integer signals; lengths 1..9,12,16,24,128 and 257, 600 with few bins (quick), 1..24,40,64 (thorough); "
          "n_fbins >= length; contiguous, strided, unordered and single instants; "
          "pseudo: all real lag windows of length 1..9 (quick), n_fbins below/equal/above the length")
OUTSIDE = "n_fbins below the signal length (lags are then folded)"
