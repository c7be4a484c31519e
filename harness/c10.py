"""C10: one column per instant, one row per frequency, and the axes say which."""
import cmath
import math
from .lib import inst, shape_of, conj

COHEN = "processing.cohen"
#       module, class, takes a window, kernel frequency step (rows are k / (step n))
DIST = {
    "stft": ("processing.linear", "ShortTimeFourierTransform", True, 1),
    "spectrogram": (COHEN, "Spectrogram", True, 1),
    "page": (COHEN, "PageRepresentation", False, 1),
    "mh": (COHEN, "MargenauHillDistribution", False, 1),
    "pmh": (COHEN, "PseudoMargenauHillDistribution", True, 1),
    "wv": (COHEN, "WignerVilleDistribution", False, 2),
    "pwv": (COHEN, "PseudoWignerVilleDistribution", True, 2),
}
BYSAMPLE = ("spectrogram", "page", "mh")     # columns are the samples named by the instants


def axis(n, step):
    if step == 2:
        return [0.5 * k / n for k in range(n)]
    return [(k if k < (n + 1) // 2 else k - n) / float(n) for k in range(n)]


def hamming(L):
    return [0.54 - 0.46 * math.cos(2 * math.pi * i / (L - 1)) if L > 1 else 1.0 for i in range(L)]


def _make(mk, name, x, **kw):
    mod, cls = DIST[name][:2]
    return getattr(mk.tftb(mod), cls)(x, **kw)


def axes(mk, name, N, n=None, ts=None, form=None, kind="c"):
    """shapes, instants and frequencies, whatever the signal"""
    np = mk.np
    x = mk.cvec("x", N) if kind == "c" else mk.rvec("x", N) if kind == "f" else mk.ivec("x", N, -9, 9)
    ref = [v for v in x]
    if form == "col":
        x = x.reshape((N, 1))
    elif form == "row":
        x = x.reshape((1, N))
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = mk.array(list(ts), "i" if all(isinstance(t, int) for t in ts) else "f")
    nn = N if n is None else n
    T = list(range(N)) if ts is None else list(ts)
    d = _make(mk, name, x, **kw)
    mk.ok(shape_of(d.tfr) == (nn, len(T)), "shape before run")
    mk.ok(shape_of(d.signal) == (N,), "flat signal")
    mk.eq(d.signal, mk.array(ref, "c"), "signal")
    mk.ok(d.n_fbins == nn, "number of bins")
    r = d.run()
    mk.ok(len(r) == 3, "run returns the distribution, the instants and the frequencies")
    tfr, t, f = r
    mk.ok(shape_of(tfr) == (nn, len(T)), "shape")
    mk.ok(shape_of(t) == (len(T),) and shape_of(f) == (nn,), "shape of the axes")
    mk.eq(t, mk.array(T, "f"), "instants")
    mk.eq(f, mk.array(axis(nn, DIST[name][3]), "f"), "frequencies")
    for a, b, s in ((d.tfr, tfr, "tfr"), (d.ts, t, "ts"), (d.freqs, f, "freqs"), (d.timestamps, t, "timestamps")):
        mk.ok(shape_of(a) == shape_of(b), "attribute shape " + s)
        mk.eq(a, b, "attribute " + s)
    if DIST[name][2]:
        L = nn // 4
        L += 1 - L % 2
        w = hamming(L)
        c = w[(L - 1) // 2] if name == "pmh" else 1.0
        mk.eq(d.fwindow, mk.array([v / c for v in w], "f"), "default window")
    if name != "stft":
        mk.eq(np.imag(tfr), mk.np.zeros((nn, len(T))), "real valued")


def tone(mk, name, N, n, k, win=None, ts=None):
    """a tone on the grid, of any amplitude and phase, peaks in its row at every instant"""
    np = mk.np
    fr = axis(n, DIST[name][3])[k]
    a = mk.cplx("a")
    x = mk.array([a * cmath.exp(2j * math.pi * fr * t) for t in range(N)], "c")
    kw = dict(n_fbins=n)
    if win is not None:
        kw["fwindow"] = mk.array(hamming(win), "f")
    if ts is not None:
        kw["timestamps"] = mk.array(list(ts), "i")
    tfr, t, f = _make(mk, name, x, **kw).run()
    p = tfr
    if name == "stft":
        p = np.real(tfr * np.conj(tfr))
    mk.eq(f[k], fr, "label of the row")
    top = p[k, :]
    for j in range(n):
        if j != k:
            mk.le(p[j, :], top, "row %d below" % j)
    e = (a * conj(a)).real
    lo = 0.2 * e
    mk.le(lo, np.min(mk.array([v for v in top], "f")) if len(top) == 1 else top, "the row carries the energy of the tone")


def impulse(mk, name, N, n, p, ts=None, win=None):
    """an impulse lights the columns of the instants whose window reaches it and no other"""
    np = mk.np
    a = mk.cplx("a")
    x = mk.array([a if i == p else 0.0 for i in range(N)], "c")
    kw = dict(n_fbins=n)
    L = 1
    if win is not None:
        kw["fwindow"] = mk.array(hamming(win), "f")
        L = win
    if ts is not None:
        kw["timestamps"] = mk.array(list(ts), "i")
    T = list(range(N)) if ts is None else list(ts)
    tfr, t, f = _make(mk, name, x, **kw).run()
    reach = min((L - 1) // 2, (n - 1) // 2) if name in ("stft", "spectrogram") else 0
    e = (a * conj(a)).real
    for i, ti in enumerate(T):
        c = tfr[:, i]
        if abs(ti - p) > reach:
            mk.eq(c, np.zeros(n), "nothing at instant %d" % ti)
        elif name != "page":
            q = np.real(c * np.conj(c))
            if name in ("stft",):
                w = hamming(L)[(L - 1) // 2 + (p - ti)]
                mk.eq(q, q * 0 + e * w * w, "flat column at instant %d" % ti, scale=1.0)
            elif name == "spectrogram":
                lh = (L - 1) // 2
                lags = [l for l in range(-reach, reach + 1) if 0 <= ti + l < N]
                w = hamming(L)
                w2 = w[lh + p - ti] ** 2 / sum(w[lh + l] ** 2 for l in lags)
                mk.eq(c, c * 0 + e * w2, "flat column at instant %d" % ti, scale=1.0)
            else:
                mk.eq(c, c * 0 + e, "flat column at instant %d" % ti, scale=1.0)


def reassigned(mk, name, N, n=None, ts=None):
    """axes of the reassigned distributions: shapes for every default"""
    f = getattr(mk.tftb("processing.reassigned"), name)
    x = mk.array([complex(math.cos(1.3 * i * i + 1), math.sin(0.7 * i)) * (1 + 0.1 * i) for i in range(N)], "c")
    x = x * mk.real("c", 0.5, 2)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["time_samples" if name == "spectrogram" else "timestamps"] = mk.array(list(ts), "i")
    r = f(x, **kw)
    nn, T = n or N, len(ts) if ts is not None else N
    mk.ok(len(r) == 3, "three results")
    for i, a in enumerate(r):
        mk.ok(shape_of(a) == (nn, T), "shape of result %d" % i)


def instances(tier):
    th = tier == "thorough"
    out = []
    sizes = [(1, None), (2, None), (5, None), (8, None), (9, 6), (6, 9), (8, 12), (12, 8), (16, 16), (7, 1), (7, 2)]
    if th:
        sizes += [(N, n) for N in range(1, 20) for n in (None, N + 1, max(1, N - 1), 2 * N + 1)] + [(64, None), (65, 32), (33, 64)]
    for name in DIST:
        for N, n in sizes:
            if name == "mh" and n is not None and n < N:
                continue
            out.append(inst("axes", name=name, N=N, n=n))
        out.append(inst("axes", name=name, N=5, n=7, form="col"))
        out.append(inst("axes", name=name, N=6, n=8, form="row"))
        out.append(inst("axes", name=name, N=5, n=None, kind="f"))
        out.append(inst("axes", name=name, N=5, n=6, kind="i"))
        if name in BYSAMPLE:
            for ts in ((1, 3), (4,), (0, 2, 4), (3, 1), (2, 3, 4, 5)):
                out.append(inst("axes", name=name, N=6, n=8, ts=ts))
        else:
            for ts in ((10, 11, 12, 13, 14, 15), (0.5, 1.0, 1.5, 2.0, 2.5, 3.0)):
                out.append(inst("axes", name=name, N=6, n=8, ts=ts))
        if name == "page":
            continue
        for N, n in [(8, 8), (9, 9), (7, 12), (6, 11), (16, 16)] + ([(24, 24), (21, 30), (31, 31), (16, 9), (20, 12)] if th else []):
            if name == "mh" and n < N:
                continue
            w = None if not DIST[name][2] else 5 if n < 16 else 7
            for k in sorted(set([0, 1, n // 4, n // 2, n // 2 + 1, n - 2, n - 1] if not th else range(n))):
                if N == 16 and k not in (1, n // 2, n - 2) and not th:
                    continue
                if n % 2 == 0 and DIST[name][3] == 2 and False:
                    continue
                out.append(inst("tone", name=name, N=N, n=n, k=k, win=w))
        if name in BYSAMPLE:
            out.append(inst("tone", name=name, N=9, n=9, k=2, win=5 if DIST[name][2] else None, ts=(2, 4, 7)))
        for N, n, p in [(6, 6, 2), (7, 9, 0), (8, 8, 7), (9, 12, 4)]:
            out.append(inst("impulse", name=name, N=N, n=n, p=p, win=3 if DIST[name][2] else None))
        if name in BYSAMPLE:
            out.append(inst("impulse", name=name, N=9, n=9, p=4, ts=(3, 4, 7), win=3 if DIST[name][2] else None))
    for name in ("spectrogram", "pseudo_wigner_ville", "smoothed_pseudo_wigner_ville"):
        for N, n, ts in [(1, None, None), (2, None, None), (5, None, None), (6, 8, None), (8, 5, None), (7, 6, (1, 3, 5)), (7, None, (2,))]:
            if N == 1 and name != "pseudo_wigner_ville" and False:
                continue
            out.append(inst("reassigned", name=name, N=N, n=n, ts=ts))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all complex, real and integer signals of 1..16 samples (65 thorough), 1..16 bins (64), flat, row and column vectors, default and given "
          "instants; tones of every amplitude and phase on the grid; impulses of every amplitude")
OUTSIDE = "tones off the frequency grid (only their grid neighbours could be ranked); the Page representation's peak"
