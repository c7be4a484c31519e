"""C25: plots show the distribution, with the axes of what is shown."""
import math
from .lib import inst, shape_of, conj
from symtf.rec import Recorder

COHEN = "processing.cohen"
DIST = {
    "stft": ("processing.linear", "ShortTimeFourierTransform"),
    "spectrogram": (COHEN, "Spectrogram"),
    "page": (COHEN, "PageRepresentation"),
    "mh": (COHEN, "MargenauHillDistribution"),
    "pmh": (COHEN, "PseudoMargenauHillDistribution"),
    "wv": (COHEN, "WignerVilleDistribution"),
    "pwv": (COHEN, "PseudoWignerVilleDistribution"),
}
AFF = {"scalogram": "Scalogram", "bertrand": "BertrandDistribution", "unterberger": "UnterbergerDistribution",
       "dflandrin": "DFlandrinDistribution"}
HALF = ("stft", "spectrogram", "page", "mh", "pmh")
FIELDS = {"imshow": ("X",), "contour": ("X", "Y", "Z", "levels"), "plot_surface": ("X", "Y", "Z"),
          "plot_wireframe": ("X", "Y", "Z")}
CALL = {"cmap": "imshow", "contour": "contour", "surf": "plot_surface", "wireframe": "plot_wireframe"}


def drawn(name):
    return [c for c in Recorder.calls if c[0] == name]


def fields(c):
    """positional and keyword arguments of a drawing call by name"""
    f = dict(zip(FIELDS[c[0]], c[1]))
    f.update(c[2])
    return f


def shown(mk, name, T, n, thr, sqmod):
    """what the plot must show"""
    np = mk.np
    V = T[:n // 2, :] if name in HALF else T
    if name in ("wv", "pwv"):
        V = np.real(V * np.conj(V)) if sqmod else np.abs(V)
    elif name == "page" or (name in ("stft", "mh", "pmh") and sqmod):
        V = np.abs(V) ** 2
    return np.where(V <= np.amax(V) * thr, 0.0, V)


DEFTHR = {"spectrogram": 0.0}
DEFSQ = {"wv": False, "pwv": False, "spectrogram": False}
DEFKIND = {"pwv": "contour"}


def frames(mk, c, rows, T, lo, hi, step, kind):
    """the drawn array, after the check of the axes it is drawn on"""
    np = mk.np
    f = fields(c)
    if kind == "cmap":
        D = f["X"]
        e = list(f["extent"])
        mk.eq(mk.array(e[:2], "f"), mk.array([min(T), max(T)], "f"), "time range of the image")
        mk.ok(e[2] >= lo - step and e[2] <= lo + step, "first frequency of the image")
        mk.ok(e[3] >= hi - 1.6 * step and e[3] <= hi + step, "last frequency of the image")
        mk.ok(f.get("origin") == "lower", "low frequencies at the bottom")
    else:
        D = f["Z"]
        mk.ok(shape_of(f["X"]) == (rows, len(T)) and shape_of(f["Y"]) == (rows, len(T)), "mesh")
        if kind == "contour":
            for k in range(rows):
                mk.eq(f["X"][k, :], mk.array(list(T), "f"), "instants of the mesh")
        if rows:
            for i in (0, len(T) - 1):
                y = f["Y"][:, i]
                mk.ok(y[0] >= lo - step and y[0] <= lo + step, "first frequency of the mesh")
                mk.ok(y[rows - 1] >= hi - 1.6 * step and y[rows - 1] <= hi + step or rows == 1, "last frequency of the mesh")
                for k in range(rows - 1):
                    mk.ok(y[k] < y[k + 1], "frequencies increase")
    mk.ok(shape_of(D) == (rows, len(T)), "shape of the drawn array")
    return D


def plotted(mk, name, N, n, kind=None, tf=False, thr=None, sqmod=None, ts=None, L=None, ann=None, show=None, given=False):
    np = mk.np
    mod, cls = DIST[name]
    x = mk.cvec("x", N)
    kw = dict(n_fbins=n)
    if L is not None:
        kw["fwindow"] = mk.array([1.0 - 0.2 * abs(i - (L - 1) // 2) for i in range(L)], "f")
    if ts is not None:
        kw["timestamps"] = mk.array(list(ts), "i")
    d = getattr(mk.tftb(mod), cls)(x, **kw)
    tfr = d.run()[0]
    ref = shown(mk, name, tfr, n, DEFTHR.get(name, 0.05) if thr is None else thr, DEFSQ.get(name, True) if sqmod is None else sqmod)
    p = {}
    for k, v in (("kind", kind), ("threshold", thr), ("sqmod", sqmod), ("default_annotation", ann), ("show", show)):
        if v is not None:
            p[k] = v
    if tf:
        p["show_tf"] = True
    if given:
        p["ax"] = Recorder("given")
    del Recorder.calls[:]
    d.plot(**p)
    kind = kind or DEFKIND.get(name, "cmap")
    T = list(range(N)) if ts is None else list(ts)
    rows = n // 2 if name in HALF else n
    cs = drawn(CALL[kind])
    mk.ok(sum(len(drawn(v)) for v in CALL.values()) == 1 and len(cs) == 1, "drawn once")
    if given:
        mk.ok(cs[0][3].startswith("given."), "drawn on the given axes")
    D = frames(mk, cs[0], rows, T, 0.0, 0.5, 1.0 / n, kind)
    mk.eq(np.abs(D) if kind in ("surf", "wireframe") else D, np.abs(ref) if kind in ("surf", "wireframe") else ref,
          "the distribution, thresholded", scale=1.0)
    if tf:
        lines = drawn("plot")
        mk.ok(len(lines) == 2, "two panels")
        top = [c for c in lines if "append_axes(top)" in c[3]]
        left = [c for c in lines if "append_axes(left)" in c[3]]
        mk.ok(len(top) == 1 and len(left) == 1, "signal above, spectrum on the left")
        mk.eq(top[0][1][-1], mk.array([v.real for v in x], "f"), "real part of the signal")
        for c in drawn("set_xlim"):
            if "append_axes(top)" in c[3]:
                lim = c[1] if len(c[1]) == 2 else (c[1][0] if c[1] else (c[2].get("left", 0), c[2].get("right", N)))
                mk.ok(lim[0] <= 0 and lim[1] >= N - 1, "the panel shows the whole signal")
        h = N // 2
        X = np.abs(np.fft.fft(x)) ** 2
        m0 = (N + 1) // 2 - 1
        mk.eq(left[0][1][0], mk.array([X[m0 - j] for j in range(h)], "f"), "energy spectrum of the positive frequencies")
        mk.ok(shape_of(left[0][1][1]) == (h,), "one ordinate per frequency")
    mk.ok(len(drawn("show")) == (0 if show is False else 1), "shown when asked")
    titles = [c[1][0] for c in drawn("set_title")]
    if ann is False:
        mk.ok(not titles, "no annotation")
    else:
        mk.ok(d.name.upper() in titles, "named")


def affine(mk, name, N, nv, kind=None, tf=None, thr=None, fmin=0.1, fmax=0.3, sym=(3,)):
    np = mk.np
    C = getattr(mk.tftb("processing.affine"), AFF[name])
    base = [1.0, -0.5, 0.25, 0.75, -1.0, 0.5, -0.25, 0.125, 0.9, -0.8, 0.3, 0.7, -0.6, 0.45, 0.2, -0.35]
    x = mk.array([mk.real("x%d" % i, 0.6, 1.4) if i in sym else base[i % 16] for i in range(N)], "f")
    d = C(x, fmin=fmin, fmax=fmax, n_voices=nv)
    tfr = d.run()[0]
    th = 0.05 if thr is None else thr
    ref = np.where(tfr <= np.amax(tfr) * th, 0.0, tfr)
    p = {}
    for k, v in (("kind", kind), ("threshold", thr), ("show_tf", tf)):
        if v is not None:
            p[k] = v
    del Recorder.calls[:]
    d.plot(**p)
    kind = kind or "contour"
    cs = drawn(CALL[kind])
    mk.ok(len(cs) == 1, "drawn once")
    D = frames(mk, cs[0], nv, list(range(N)), fmin, fmax, 1e-6, kind) if kind in ("cmap", "contour") else fields(cs[0])["Z"]
    mk.eq(np.abs(D) if kind in ("surf", "wireframe") else D, np.abs(ref) if kind in ("surf", "wireframe") else ref,
          "the distribution, thresholded")
    if kind == "contour":
        y = fields(cs[0])["Y"][:, 0]
        mk.eq(y, mk.array([fmin * (fmax / fmin) ** (k / (nv - 1.0)) for k in range(nv)], "f"), "geometric frequencies")
    if tf or tf is None:
        top = [c for c in drawn("plot") if "append_axes(top)" in c[3]]
        mk.ok(len(top) == 1, "signal above")
        mk.eq(top[0][1][-1], x, "the signal")


def loglevels(mk, name, N, tf):
    """scale="log": 65 levels, geometric from the threshold to the maximum"""
    np = mk.np
    mod, cls = DIST[name]
    x = mk.cvec("x", N)
    for v in x:
        mk.assume((v * conj(v)).real > 0.05)
    d = getattr(mk.tftb(mod), cls)(x)
    tfr = d.run()[0]
    top = np.amax(tfr)
    del Recorder.calls[:]
    d.plot(kind="contour", scale="log", show_tf=tf, threshold=0.1)
    c = drawn("contour")
    mk.ok(len(c) == 1, "drawn once")
    f = fields(c[0])
    mk.ok("levels" in f, "levels given")
    lv = f["levels"]
    mk.eq(lv[len(lv) - 1], top, "last level: the maximum")
    mk.ok(lv[0] >= top * 0.0999, "first level: not below the threshold")
    mk.ok(lv[0] <= top * 1.0001, "first level: not above the maximum")


def plotifl(mk, n, m=1, signal=False):
    """laws against the instants; the ordinate range holds every law within [-1/2, 1/2]"""
    np = mk.np
    t = mk.array([2.0 * i + 1 for i in range(n)], "f")
    f = mk.rvec("f", n * m, -0.5, 0.5)
    if m > 1:
        f = f.reshape((n, m))
    kw = {}
    if signal:
        x = kw["signal"] = mk.cvec("x", n)
    del Recorder.calls[:]
    mk.tftb("processing.plotifl").plotifl(t, f, **kw)
    lines = drawn("plot")
    mk.ok(len(lines) == (2 if signal else 1), "one drawing per panel")
    if signal:
        mk.eq(lines[0][1][0], t, "instants of the signal")
        mk.eq(lines[0][1][1], mk.array([v.real for v in x], "f"), "real part of the signal")
    mk.eq(lines[-1][1][0], t, "instants")
    mk.eq(lines[-1][1][1], f, "laws")
    yl = drawn("ylim")[-1][1]
    lo, hi = yl if len(yl) == 2 else yl[0]
    mk.ok(hi == 0.5 and (lo == 0 or lo == -0.5), "ordinates up to half the sampling frequency")
    for v in (f if m == 1 else f.ravel()):
        mk.ok(v >= lo, "law within the ordinates")
    xl = drawn("xlim")[-1][1]
    a, b = xl if len(xl) == 2 else xl[0]
    mk.eq(mk.array([a, b], "f"), mk.array([1.0, 2.0 * n - 1], "f"), "abscissas")
    mk.ok(len(drawn("show")) == 1, "shown")


def instances(tier):
    th = tier == "thorough"
    out = []

    def add(name, **k):
        L = 3 if name in ("stft", "spectrogram", "pmh", "pwv") else None
        out.append(inst("plotted", name=name, L=L, **k))
    for name in DIST:
        sizes = [(4, 4), (5, 5), (3, 6), (5, 4)] if name != "mh" else [(4, 4), (5, 5), (3, 6), (4, 5)]
        if th:
            sizes += [(6, 6), (7, 7), (6, 8)]
        for N, n in sizes:
            for kind in ("cmap", "contour"):
                add(name, N=N, n=n, kind=kind)
            add(name, N=N, n=n, kind="contour", tf=True)
        add(name, N=4, n=5)
        add(name, N=4, n=6, tf=True, kind="cmap", show=False)
        add(name, N=3, n=4, kind="surf")
        add(name, N=4, n=5, kind="wireframe", ann=False)
        add(name, N=3, n=4, kind="cmap", thr=0.4)
        add(name, N=3, n=4, kind="cmap", thr=0.0, show=False)
        add(name, N=3, n=4, kind="cmap", given=True)
        add(name, N=3, n=4, kind="contour", given=True, thr=0.2)
        if name not in ("spectrogram", "stft"):
            add(name, N=3, n=4, kind="cmap", sqmod=False)
            add(name, N=3, n=4, kind="contour", sqmod=True)
        if name == "stft":
            add(name, N=3, n=4, kind="contour", sqmod=True)
        if name in ("spectrogram", "page", "mh"):
            add(name, N=5, n=6, kind="cmap", ts=(1, 2, 4))
            add(name, N=5, n=6, kind="contour", ts=(2, 3, 4), tf=True)
    for name in AFF:
        full = th or name in ("scalogram", "bertrand")
        for N, nv in [(11, 4), (12, 8)]:
            for kind, tf, t in [(None, None, None), ("cmap", None, None), ("cmap", False, None), ("contour", False, 0.2)]:
                if (nv == 8 and (kind is not None or name != "scalogram") or not full and (kind == "contour" or tf is None and kind)) and not th:
                    continue
                out.append(inst("affine", cost=3, name=name, N=N, nv=nv, kind=kind, tf=tf, thr=t))
        if full:
            out.append(inst("affine", cost=5, name=name, N=9, nv=4, kind="surf", tf=False, fmin=0.2, fmax=0.25))
    for name in ("wv", "pwv"):
        for tf in (True, False):
            out.append(inst("loglevels", name=name, N=3, tf=tf))
    for n, m, s in [(3, 1, False), (4, 1, True), (2, 2, False), (5, 1, True)]:
        out.append(inst("plotifl", n=n, m=m, signal=s))
    return out


BOUNDS = ("every complex signal of 3..5 samples (7 thorough), 4..6 bins (8), every plot kind with and without the signal and spectrum panels, "
          "thresholds 0, 0.05, 0.2, 0.4, explicit axes, instants; affine: one sample of a record of 11..12 symbolic, 4 and 8 voices; every "
          "frequency law of 2..5 instants for plotifl")
OUTSIDE = "rendering by matplotlib (recorded, not run); the ordinates of the spectrum panel of the affine class"
