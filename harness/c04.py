"""C04: pseudo and smoothed pseudo Wigner-Ville distributions."""
from .lib import inst, conj, column, grid, sig, shape_of
from .c03 import wv_kernel


def pwv(mk, N, n, L, kind="c", wkind="f"):
    np = mk.np
    PWV = mk.tftb("processing.cohen").PseudoWignerVilleDistribution
    x = sig(mk, N, kind)
    kw = {}
    if L is not None:
        w = sig(mk, L, wkind, "w")
        kw["fwindow"] = w
    if n is not None:
        kw["n_fbins"] = n
    obj = PWV(x, **kw)
    tfr, t, f = obj.run()
    nn = N if n is None else n
    if L is None:
        w = obj.fwindow
    mk.ok(not np.iscomplexobj(tfr), "real valued")
    mk.ok(shape_of(tfr) == (nn, N), "shape")
    cols = [column(mk, wv_kernel(x, i, nn, w), nn) for i in range(N)]
    mk.eq(tfr, grid(mk, cols, "f"), "lag-windowed Wigner-Ville")
    mk.eq(obj.tfr, tfr, "stored distribution")
    lh = (len(w) - 1) // 2
    mk.eq(np.sum(tfr, axis=0) / nn, mk.array([(v * conj(v)).real * w[lh] for v in x], "f")
          if wkind == "f" or L is None else mk.array([((v * conj(v)) * w[lh]).real for v in x], "f"),
          "instantaneous power times the window centre")


def pwv_wide(mk, N, n):
    """a window of ones covering every lag gives the Wigner-Ville distribution"""
    np = mk.np
    co = mk.tftb("processing.cohen")
    x = sig(mk, N)
    a = co.PseudoWignerVilleDistribution(x, n_fbins=n, fwindow=np.ones(2 * N + 1)).run()[0]
    b = co.WignerVilleDistribution(x, n_fbins=n).run()[0]
    mk.eq(a, b, "pseudo with a full window = Wigner-Ville")


def _spwv_kernel(x, t, n, g, h):
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
    ker = {}
    lim = min((n - 1) // 2, lh)
    us = list(range(-lim, lim + 1))
    ny = None
    if n % 2 == 0 and n // 2 <= lh and n // 2 <= t < N - n // 2:
        ny = n // 2
        us += [ny, -ny]
    for u in us:
        num, den = 0.0, 0.0
        for p in range(-lg, lg + 1):
            i, j = t + abs(u) - p, t - abs(u) - p
            if 0 <= j and i < N:
                v = x[i] * conj(x[j]) if u >= 0 else x[j] * conj(x[i])
                num = num + v * g[lg + p]
                den = den + g[lg + p]
        if not (isinstance(den, float) and den == 0.0):
            v = num / den * h[lh + u]
            if ny is not None and abs(u) == ny:
                ker[ny] = ker.get(ny, 0.0) + v * 0.5
            else:
                ker[u] = v
    return ker


def lag_window(mk, L):
    """every real lag window with the value 1 at lag zero"""
    return mk.array([1.0 if i == (L - 1) // 2 else mk.real("h%d" % i) for i in range(L)], "f")


def spwv(mk, N, n, Lg, Lh, kind="c", ts=None, gsym=True, wkind="f"):
    np = mk.np
    f = mk.tftb("processing.cohen").smoothed_pseudo_wigner_ville
    x = sig(mk, N, kind)
    g = mk.rvec("g", Lg, 0.25, 4) if gsym else mk.array([1.0 + 0.25 * i for i in range(Lg)], "f")
    h = lag_window(mk, Lh)
    if wkind == "c":
        g = mk.array([1.0 + 0.25 * i + 1j * (0.5 - 0.3 * i) for i in range(Lg)], "c")
        h = mk.array([1.0 if i == (Lh - 1) // 2 else mk.cplx("k%d" % i) for i in range(Lh)], "c")
    elif wkind == "i":
        g = mk.array([1 + i for i in range(Lg)], "i")
        h = mk.array([1 if i == (Lh - 1) // 2 else mk.integer("k%d" % i, -9, 9) for i in range(Lh)], "i")
    elif wkind == "neg":
        g = mk.array([1.0 if i == Lg // 2 else -0.25 * (1 + i) / Lg for i in range(Lg)], "f")
    kw = {}
    if ts is not None:
        kw["timestamps"] = np.array(list(ts))
    if n is not None:
        kw["freq_bins"] = n
    tfr = f(x, twindow=g, fwindow=h, **kw)
    nn = N if n is None else n
    tt = range(N) if ts is None else ts
    mk.ok(not np.iscomplexobj(tfr), "real valued")
    cols = [column(mk, _spwv_kernel(x, t, nn, g, h), nn) for t in tt]
    mk.eq(tfr, grid(mk, cols, "f"), "time-smoothed, lag-windowed Wigner-Ville")


def spwv_default(mk, N, n):
    np = mk.np
    from scipy.signal.windows import hamming
    f = mk.tftb("processing.cohen").smoothed_pseudo_wigner_ville
    x = sig(mk, N)
    tfr = f(x) if n is None else f(x, freq_bins=n)
    nn = N if n is None else n
    lh, lg = nn // 4, nn // 10
    lh += 1 - lh % 2
    lg += 1 - lg % 2
    cols = [column(mk, _spwv_kernel(x, t, nn, hamming(lg), hamming(lh)), nn) for t in range(N)]
    mk.eq(tfr, grid(mk, cols, "f"), "default windows")


def spwv_delta(mk, N, n, L):
    """no time smoothing: equals the pseudo Wigner-Ville distribution"""
    np = mk.np
    co = mk.tftb("processing.cohen")
    x = sig(mk, N)
    h = lag_window(mk, L)
    a = co.smoothed_pseudo_wigner_ville(x, freq_bins=n, twindow=np.ones(1), fwindow=h)
    b = co.PseudoWignerVilleDistribution(x, n_fbins=n, fwindow=h).run()[0]
    mk.eq(a, b, "delta time window")


def instances(tier):
    out = []
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]:
        out.append(inst("pwv", N=N, n=None, L=None))
    for N, n, L in [(4, 4, 3), (5, 5, 5), (8, 4, 7), (9, 4, 5), (9, 6, 11), (7, 8, 5), (6, 3, 7), (5, 2, 3), (8, 12, 9),
                    (6, 6, 4), (10, 8, 9)]:
        out.append(inst("pwv", N=N, n=n, L=L, kind="c", wkind="f"))
    out.append(inst("pwv", N=6, n=6, L=3, kind="f", wkind="f"))
    out.append(inst("pwv", N=5, n=4, L=5, kind="c", wkind="c"))
    for k, w in ["if", "fc", "ic", "ci", "ii"]:
        out.append(inst("pwv", N=5, n=5, L=3, kind=k, wkind=w))
        out.append(inst("spwv", N=5, n=6, Lg=3, Lh=3, kind=k, wkind=w))
    out.append(inst("spwv", N=6, n=4, Lg=3, Lh=5, kind="c", wkind="c"))
    out.append(inst("spwv", N=5, n=5, Lg=3, Lh=5, kind="c", wkind="neg"))
    for N, n in [(4, 4), (5, 5), (9, 4), (7, 10)]:
        out.append(inst("pwv_wide", N=N, n=n))
    for N, n, Lg, Lh, ts in [(4, 4, 3, 3, None), (5, 8, 3, 5, None), (6, 6, 1, 5, None), (7, 4, 3, 5, None),
                             (6, 5, 3, 3, (0, 2, 5)), (5, 16, 5, 9, None), (8, 8, 3, 5, (3,)), (3, 8, 5, 7, None),
                             (2, 2, 3, 3, None), (1, 1, 1, 1, None), (9, 4, 3, 7, (2, 4, 6))]:
        out.append(inst("spwv", N=N, n=n, Lg=Lg, Lh=Lh, kind="c", ts=ts, cost=3))
    for N, n, Lg, Lh in [(10, 10, 3, 5), (12, 16, 5, 7)]:
        out.append(inst("spwv", N=N, n=n, Lg=Lg, Lh=Lh, kind="c", gsym=False))
    out.append(inst("spwv", N=5, n=6, Lg=3, Lh=3, kind="f"))
    for N, n in [(4, None), (8, None), (7, None), (10, 20), (12, 30)]:
        out.append(inst("spwv_default", N=N, n=n))
    for N, n, L in [(4, 4, 3), (6, 6, 5), (9, 4, 7), (7, 5, 9)]:
        out.append(inst("spwv_delta", N=N, n=n, L=L))
    out.append(inst("pwv", N=32, n=None, L=None, cost=9))
    for N, n, L in [(257, 4, 3), (600, 8, 7)]:
        out.append(inst("pwv", N=N, n=n, L=L, cost=3))
    if tier == "thorough":
        for N in range(2, 21):
            for n in (N, N - 1, N + 3, max(1, N // 2), 4):
                for L in (3, 4, 7, 2 * N + 1):
                    out.append(inst("pwv", N=N, n=n, L=L))
        for N in range(2, 11):
            for n in (N, N + 1, 4):
                out.append(inst("spwv", N=N, n=n, Lg=3, Lh=5, cost=5))
        for N in (40, 64):
            out.append(inst("pwv", N=N, n=None, L=None, cost=50))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all signals; all lag windows (real, complex or integer, with complex, real or integer signals) and all time windows with samples in [1/4, 4]; "
          "lengths 1..12,16,32 and 257, 600 with few bins (quick), up to 64 (thorough); n_fbins below/equal/above the length, odd and even; "
          "window lengths 1..11")
OUTSIDE = "smoothed pseudo Wigner-Ville with a lag window whose centre value is not 1; time windows whose partial sums vanish; timestamps outside the signal"
