"""C08: reassigned distributions move energy, they neither create nor lose it."""
import cmath
import math
from .lib import inst, conj, dft, sig, shape_of
from .c04 import _spwv_kernel
from .c03 import wv_kernel


def swindow(mk, L, kind, name="h"):
    """symmetric window of odd length: concrete (Hamming like) or symbolic positive"""
    m = (L - 1) // 2
    if kind == "sym":
        half = [mk.real("%s%d" % (name, i), 0.25, 4) for i in range(m)] + [1.0]
    else:
        half = [0.54 - 0.46 * math.cos(2 * math.pi * i / (L - 1)) for i in range(m)] + [1.0]
    vals = [half[min(i, L - 1 - i)] for i in range(L)]
    return mk.array(vals, "f"), vals


def dwin(vals):
    """derivative of a symmetric window: central differences, the end samples see the step to zero"""
    L = len(vals)
    if L == 1:
        return [0.0]
    out = [(vals[i + 1] - vals[i - 1]) * 0.5 for i in range(1, L - 1)]
    return [(vals[1] + vals[0]) * 0.5] + out + [(vals[-2] + vals[-1]) * -0.5]


def conserved(mk, tfr, rtfr, n, T):
    np = mk.np
    mk.ok(shape_of(tfr) == (n, T), "shape of the distribution")
    mk.ok(shape_of(rtfr) == (n, T), "shape of the reassigned distribution")
    mk.eq(np.sum(rtfr), np.sum(tfr), "total energy conserved")


def moved(mk, tfr, rtfr, jh, ih, n, T):
    """rtfr[k, l] is the sum of the cells sent to (k, l)"""
    e = mk.np.zeros((n, T))
    for j in range(n):
        for i in range(T):
            a, b = mk.int(jh[j][i]), mk.int(ih[j][i])
            e[a, b] = e[a, b] + tfr[j, i].real
    mk.eq(rtfr, e, "energy of the cells sent there", scale=1.0)


def above(mk, cells, thr, keep=()):
    for key, v in cells.items():
        if key not in keep:
            mk.assume(v > thr)


def threshold(x, ts):
    s = 0.0
    for t in range(min(ts), max(ts) + 1):
        s = s + (x[t] * conj(x[t])).real
    return s * (1e-6 / (max(ts) - min(ts) + 1))


def coords(mk, tf2, n, T):
    """returned coordinates are bins and columns of the grid"""
    np = mk.np
    jh = [[np.real(tf2[j, i]) for i in range(T)] for j in range(n)]
    ih = [[np.imag(tf2[j, i]) for i in range(T)] for j in range(n)]
    for j in range(n):
        for i in range(T):
            mk.ok(jh[j][i] >= 0, "bin >= 0")
            mk.ok(jh[j][i] <= n - 1, "bin <= n-1")
            mk.ok(ih[j][i] >= 0, "column >= 0")
            mk.ok(ih[j][i] <= T - 1, "column <= T-1")
    return jh, ih


def _sp_cells(x, t, n, w):
    """windowed spectra at instant t with w, (lag) w and w'"""
    N, lh = len(x), (len(w) - 1) // 2
    lim = min((n - 1) // 2, lh)
    taus = [u for u in range(-lim, lim + 1) if 0 <= t + u < N]
    d = dwin(w)
    nrm = 0.0
    for u in taus:
        nrm = nrm + w[lh + u] * w[lh + u]
    a = {u: x[t + u] * w[lh + u] for u in taus}
    b = {u: x[t + u] * (w[lh + u] * u) for u in taus}
    c = {u: x[t + u] * d[lh + u] for u in taus}
    return a, b, c, nrm


def spectro(mk, N, n, L, win="num", ts=None, keep=None, kind="c", disp=True):
    np = mk.np
    f = mk.tftb("processing.reassigned").spectrogram
    x = sig(mk, N, kind)
    w, wv = swindow(mk, L, win)
    kw = dict(n_fbins=n, window=w)
    if ts is not None:
        kw["time_samples"] = np.array(list(ts))
    T = list(range(N)) if ts is None else list(ts)
    dt = T[1] - T[0] if len(T) > 1 else 1
    cells = {}
    for i, t in enumerate(T):
        a, b, c, nrm = _sp_cells(x, t, n, wv)
        for k in range(n):
            v = dft(a, n, k)
            cells[k, i] = (v, dft(b, n, k), dft(c, n, k), (v * conj(v)).real / nrm)
    thr = threshold(x, T)
    if keep != "all":
        above(mk, {k: v[3] for k, v in cells.items()}, thr, keep or ())
        for key, v in cells.items():
            if key not in (keep or ()):
                mk.assume(v[0] != 0)
                mk.assume((v[0] * conj(v[0])).real != 0)
    tfr, rtfr, tf2 = f(x, **kw)
    conserved(mk, tfr, rtfr, n, len(T))
    for (k, i), v in cells.items():
        mk.eq(tfr[k, i], v[3], "distribution is the spectrogram")
    if keep is None:
        jh, ih = coords(mk, tf2, n, len(T))
        if disp:
            for (k, i), v in cells.items():
                q = v[1] * conj(v[0]) / (v[0] * conj(v[0])).real
                r = v[2] * conj(v[0]) / (v[0] * conj(v[0])).real
                di = np.round(q.real / dt)
                dj = np.round(r.imag * (n / (2 * math.pi)))
                mk.eq(ih[k][i], np.clip(i + di, 0, len(T) - 1), "time: centre of gravity")
                mk.eq(jh[k][i], (k - dj) % n, "frequency: centre of gravity")
        moved(mk, tfr, rtfr, jh, ih, n, len(T))


def pwv(mk, N, n, L, win="num", ts=None, keep=None, kind="c"):
    np = mk.np
    f = mk.tftb("processing.reassigned").pseudo_wigner_ville
    x = sig(mk, N, kind)
    w, wv = swindow(mk, L, win)
    kw = dict(n_fbins=n, fwindow=w)
    if ts is not None:
        kw["timestamps"] = np.array(list(ts))
    T = list(range(N)) if ts is None else list(ts)
    d = dwin(wv)
    cells = {}
    for i, t in enumerate(T):
        a, c = wv_kernel(x, t, n, wv), wv_kernel(x, t, n, d)
        for k in range(n):
            cells[k, i] = (dft(a, n, k).real, dft(c, n, k).imag)
    thr = threshold(x, T)
    if keep != "all":
        for key, v in cells.items():
            if key not in (keep or ()):
                mk.assume(abs(v[0]) > thr)
                mk.assume(v[0] != 0)
                mk.assume((v[0] * conj(v[0])).real != 0)
    tfr, rtfr, tf2 = f(x, **kw)
    conserved(mk, tfr, rtfr, n, len(T))
    for (k, i), v in cells.items():
        mk.eq(tfr[k, i], v[0], "distribution is the pseudo Wigner-Ville")
    for i in range(len(T)):
        mk.eq(np.sum(rtfr[:, i]), np.sum(tfr[:, i]), "energy of each instant conserved")
    if keep is None:
        jh = [[tf2[j, i] for i in range(len(T))] for j in range(n)]
        for (k, i), v in cells.items():
            mk.ok(jh[k][i] >= 0, "bin >= 0")
            mk.ok(jh[k][i] <= n - 1, "bin <= n-1")
            dj = np.round(v[1] * (n / (2 * math.pi)) / v[0])
            mk.eq(jh[k][i], (k - dj) % n, "frequency: centre of gravity")
        moved(mk, tfr, rtfr, jh, [[i for i in range(len(T))] for j in range(n)], n, len(T))


def spwv(mk, N, n, Lg, Lh, win="num", ts=None, keep=None, kind="c", disp=True):
    np = mk.np
    f = mk.tftb("processing.reassigned").smoothed_pseudo_wigner_ville
    x = sig(mk, N, kind)
    g, gv = swindow(mk, Lg, win, "g")
    h, hv = swindow(mk, Lh, win, "h")
    kw = dict(n_fbins=n, twindow=g, fwindow=h)
    if ts is not None:
        kw["timestamps"] = np.array(list(ts))
    T = list(range(N)) if ts is None else list(ts)
    dt = T[1] - T[0] if len(T) > 1 else 1
    cells = {}
    lg = (Lg - 1) // 2
    tg = [gv[i] * (i - lg) for i in range(Lg)]
    for i, t in enumerate(T):
        a = _spwv_kernel(x, t, n, gv, hv)
        b = _num_kernel(x, t, n, gv, tg, hv)
        c = _num_kernel(x, t, n, gv, gv, dwin(hv))
        for k in range(n):
            cells[k, i] = (dft(a, n, k).real, dft(b, n, k).real, dft(c, n, k).imag)
    thr = threshold(x, range(N))
    if keep != "all":
        for key, v in cells.items():
            if key not in (keep or ()):
                mk.assume(abs(v[0]) > thr)
                mk.assume(v[0] != 0)
                mk.assume((v[0] * conj(v[0])).real != 0)
    tfr, rtfr, tf2 = f(x, **kw)
    conserved(mk, tfr, rtfr, n, len(T))
    for (k, i), v in cells.items():
        mk.eq(tfr[k, i], v[0], "distribution is the smoothed pseudo Wigner-Ville")
    if keep is None:
        jh, ih = coords(mk, tf2, n, len(T))
        if disp:
            for (k, i), v in cells.items():
                di = np.round(v[1] / v[0] / dt)
                dj = np.round(v[2] * (n / (2 * math.pi)) / v[0])
                mk.eq(ih[k][i], np.clip(i - di, 0, len(T) - 1), "time: centre of gravity")
                mk.eq(jh[k][i], (k - dj) % n, "frequency: centre of gravity")
        moved(mk, tfr, rtfr, jh, ih, n, len(T))


def _num_kernel(x, t, n, g, gn, h):
    """as _spwv_kernel with the weights gn in the numerator"""
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
    ker = {}
    lim = min((n - 1) // 2, lh)
    for u in range(-lim, lim + 1):
        num, den, some = 0.0, 0.0, False
        for p in range(-lg, lg + 1):
            i, j = t + abs(u) - p, t - abs(u) - p
            if 0 <= j and i < N:
                v = x[i] * conj(x[j]) if u >= 0 else x[j] * conj(x[i])
                num = num + v * gn[lg + p]
                den = den + g[lg + p]
                some = True
        if some:
            ker[u] = num / den * h[lh + u]
    return ker


def impulse(mk, N, t0, n, L):
    """all the energy of an impulse goes to its own instant"""
    np = mk.np
    f = mk.tftb("processing.reassigned").spectrogram
    a = mk.cplx("a")
    mk.assume((a * conj(a)).real > 0.01)
    x = mk.array([a if i == t0 else 0.0 for i in range(N)], "c")
    w, _ = swindow(mk, L, "num")
    tfr, rtfr, _ = f(x, n_fbins=n, window=w)
    for i in range(N):
        if i != t0:
            for k in range(n):
                mk.eq(rtfr[k, i], 0.0, "nothing away from the impulse")
    mk.eq(np.sum(rtfr[:, t0]), np.sum(tfr), "everything at the impulse")


def instances(tier):
    out = []
    for N, n, L in [(2, 3, 1), (3, 3, 3)]:
        out.append(inst("spectro", cost=5, N=N, n=n, L=L))
    for N, n, L, ts in [(5, 4, 3, (0, 2)), (4, 5, 3, (1, 3)), (5, 6, 5, (2,)), (6, 8, 7, (3,)), (3, 3, 3, (1, 2))]:
        out.append(inst("spectro", cost=6, N=N, n=n, L=L, ts=ts))
    out.append(inst("spectro", cost=6, N=3, n=2, L=3, ts=(0, 1), keep="all"))
    for N, n, L, w in [(2, 3, 1, "num"), (3, 3, 3, "num"), (3, 4, 3, "num"), (4, 4, 5, "num"), (3, 3, 3, "sym")]:
        out.append(inst("pwv", cost=3, N=N, n=n, L=L, win=w))
    out.append(inst("pwv", cost=3, N=5, n=4, L=3, ts=(1, 3)))
    for N, n, L, ts in [(3, 2, 3, (1,)), (5, 4, 5, (2,)), (4, 2, 3, (1, 2)), (5, 4, 7, (2,))]:
        out.append(inst("pwv", cost=3, N=N, n=n, L=L, ts=ts))      # Nyquist lag inside the window
    out.append(inst("pwv", cost=3, N=7, n=8, L=7, ts=(3,)))
    out.append(inst("pwv", cost=3, N=3, n=3, L=3, ts=(1,), keep="all"))
    for N, n, Lg, Lh in [(3, 3, 3, 3)]:
        out.append(inst("spwv", cost=8, N=N, n=n, Lg=Lg, Lh=Lh))
    out.append(inst("spwv", cost=8, N=5, n=4, Lg=3, Lh=3, ts=(0, 2, 4)))
    out.append(inst("spwv", cost=8, N=5, n=5, Lg=3, Lh=3, ts=(1, 2)))
    out.append(inst("spwv", cost=8, N=4, n=4, Lg=1, Lh=3, ts=(1, 2)))
    out.append(inst("spwv", cost=8, N=6, n=7, Lg=3, Lh=5, ts=(3,)))
    out.append(inst("spwv", cost=8, N=3, n=3, Lg=3, Lh=3, ts=(1,), keep="all"))
    for N, t0, n, L in [(8, 3, 8, 5), (9, 0, 6, 3), (8, 7, 9, 7)]:
        out.append(inst("impulse", N=N, t0=t0, n=n, L=L))
    if tier == "thorough":
        for N, n, L, ts in [(4, 4, 3, (0, 1, 2)), (6, 6, 5, (1, 3)), (7, 9, 7, (3,)), (8, 12, 7, (4,)), (7, 7, 3, (0, 3, 6)),
                            (5, 7, 5, (0,)), (5, 7, 5, (4,))]:
            out.append(inst("spectro", cost=20, N=N, n=n, L=L, ts=ts))
        for N, n, L, ts in [(5, 5, 5, (1, 2, 3)), (9, 10, 9, (4,)), (9, 12, 9, (3, 4)), (6, 4, 5, (2, 3))]:
            out.append(inst("pwv", cost=20, N=N, n=n, L=L, ts=ts))
        for N, n, Lg, Lh, ts in [(6, 6, 3, 5, (2, 3)), (7, 9, 5, 5, (3,)), (8, 8, 3, 7, (4,)), (5, 5, 5, 3, (0, 2))]:
            out.append(inst("spwv", cost=20, N=N, n=n, Lg=Lg, Lh=Lh, ts=ts))
        for N in (10, 16):
            for t0 in (0, 1, N // 2, N - 1):
                for n, L in [(N, 5), (N + 3, 7)]:
                    out.append(inst("impulse", N=N, t0=t0, n=n, L=L))
    return out


BOUNDS = ("all complex signals of 2..7 samples (9 thorough) with every cell above the code's own energy threshold, 1..3 "
          "columns, 2..8 bins (12 thorough), Hamming-like symmetric windows of odd length (symbolic for one "
          "pseudo Wigner-Ville instance); below-threshold cells: all above/below combinations for 3..4 cells; "
          "impulses of every complex amplitude; the Nyquist lag for window lengths reaching it")
OUTSIDE = ("asymmetric windows; points where a displacement is at a rounding tie within float noise; for the smoothed version "
           "lag windows reaching half the number of bins; default windows; the three unexported reassigned functions that "
           "cannot run")
