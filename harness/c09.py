"""C09: results depend on the arguments only; arguments and earlier results stay as they were."""
import math
from .lib import inst, shape_of, conj, energy, sig

COHEN = "processing.cohen"
DIST = {
    "stft": ("processing.linear", "ShortTimeFourierTransform", True),
    "spectrogram": (COHEN, "Spectrogram", True),
    "page": (COHEN, "PageRepresentation", False),
    "mh": (COHEN, "MargenauHillDistribution", False),
    "pmh": (COHEN, "PseudoMargenauHillDistribution", True),
    "wv": (COHEN, "WignerVilleDistribution", False),
    "pwv": (COHEN, "PseudoWignerVilleDistribution", True),
}
AFF = {"scalogram": "Scalogram", "bertrand": "BertrandDistribution", "unterberger": "UnterbergerDistribution",
       "dflandrin": "DFlandrinDistribution"}
PLOTS = {
    "cmap": dict(), "contour": dict(kind="contour"), "surf": dict(kind="surf"), "wireframe": dict(kind="wireframe"),
    "tf": dict(show_tf=True), "tfc": dict(show_tf=True, kind="contour"), "sq": dict(sqmod=True), "nosq": dict(sqmod=False),
    "thr": dict(threshold=0.3), "log": dict(kind="contour", scale="log"), "bare": dict(default_annotation=False, show=False),
}


def isarr(v):
    return hasattr(v, "shape") and shape_of(v) != ()


class State(object):
    """remembers values and checks them later"""

    def __init__(self, mk):
        self.mk, self.v = mk, []

    def add(self, name, a):
        self.v.append((name, a, self.mk.snapshot(a)))
        return a

    def check(self, when):
        for name, a, s in self.v:
            if not (shape_of(a) == shape_of(s)):
                self.mk.ok(False, "%s: shape of %s" % (when, name))
            else:
                self.mk.eq(a, s, "%s: %s" % (when, name))


def _history(mk, d, st, fields, plots, other):
    first = d.run()
    for i, r in enumerate(first):
        if isarr(r):
            st.add("result %d of run" % i, r)
    ref = [mk.snapshot(r) for r in first if isarr(r)]
    st.add("tfr", d.tfr)
    for p in plots:
        before = {k: mk.snapshot(getattr(d, k)) for k in fields}
        d.plot(**PLOTS[p])
        for k in fields:
            a = getattr(d, k)
            if shape_of(a) != shape_of(before[k]):
                mk.ok(False, "plot keeps the shape of " + k)
            else:
                mk.eq(a, before[k], "plot keeps " + k)
        st.check("plot " + p)
    other()
    st.check("another object ran")
    again = [r for r in d.run() if isarr(r)]
    for i, (a, b) in enumerate(zip(again, ref)):
        mk.eq(a, b, "second run agrees with the first (%d)" % i)
    # overwriting the first distribution does not reach the second one, nor running again the first
    first[0][...] = 7.0
    mk.eq(again[0], ref[0], "result of the second run after the first was overwritten")
    third = d.run()
    mk.eq(third[0], ref[0], "third run")
    mk.eq(first[0], ref[0] * 0 + 7.0, "overwritten first result after a third run")
    first[0][...] = ref[0]
    for k in fields:
        mk.ok(hasattr(d, k), "attribute " + k)


def dist(mk, name, N, n=None, L=None, plots=(), shape=None, lo=None, kind="c"):
    mod, cls, hasw = DIST[name]
    C = getattr(mk.tftb(mod), cls)
    x = sig(mk, N, kind)
    if lo:
        for v in x:
            mk.assume((v * conj(v)).real > lo)
    if shape is not None:
        x = x.reshape((N, 1) if shape else (1, N))
    st = State(mk)
    st.add("signal", x)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if L is not None and hasw:
        w = [mk.real("h%d" % i, 0.5, 1.5) for i in range(L)]
        kw["fwindow"] = st.add("window", mk.array(w, "f"))
    y = mk.cvec("y", N)

    def other():
        C(y, **kw).run()
        # same sizes, other optional arguments
        C(y).run()
        k2 = dict(n_fbins=d.n_fbins)
        if hasw:
            k2["fwindow"] = mk.array([0.25 + 0.5 * i for i in range(3 + 2 * (L == 3))], "f")
        C(y, **k2).run()
    d = C(x, **kw)
    _history(mk, d, st, ["tfr", "freqs", "ts", "signal", "fwindow"], plots, other)
    # a fresh object gives the same
    r = C(x, **kw).run()
    mk.eq(r[0], d.tfr, "fresh object")
    st.check("end")
    # neither do the attributes of one object reach another one
    ref = mk.snapshot(r[0])
    for k in ("tfr", "freqs", "ts") + (() if "fwindow" in kw else ("fwindow",)):
        getattr(d, k)[...] = 3
    mk.eq(C(x, **kw).run()[0], ref, "fresh object after the attributes of another were overwritten")


def affine(mk, name, N, plots=(), sym=(3, 4)):
    C = getattr(mk.tftb("processing.affine"), AFF[name])
    base = [1.0, -0.5, 0.25, 0.75, -1.0, 0.5, -0.25, 0.125, 0.9, -0.8, 0.3, 0.7]
    x = mk.array([mk.real("x%d" % i, 0.6, 1.4) if i in sym else base[i % 12] for i in range(N)], "f")
    st = State(mk)
    st.add("signal", x)
    y = mk.array([base[(i + 3) % 12] for i in range(N)], "f")
    kw = dict(fmin=0.2, fmax=0.25, n_voices=4)
    d = C(x, **kw)
    _history(mk, d, st, ["tfr", "ts", "signal", "freqs"], plots, lambda: C(y, **kw).run())
    st.check("end")


def _x(mk, N, k="c", name="x"):
    return mk.cvec(name, N) if k == "c" else mk.rvec(name, N)


def _calls():
    """name -> (module, function, arguments builder); builders are called once per distinct call"""
    P, U, G = "processing", "utils", "generators"
    big = lambda mk, x: [mk.assume((v * conj(v)).real > 0.05) for v in x] and x  # noqa: E731
    t = {}

    def sv(f, mod, *more, **kw):
        k = kw.pop("k", "c")
        N = kw.pop("N", 4)
        return lambda mk, tag: (mod, f, [big(mk, _x(mk, N, k, tag + "x"))] + [m(mk, tag) for m in more], kw)
    arr = lambda *v: (lambda mk, tag: mk.array(list(v), "i"))  # noqa: E731
    num = lambda n, lo, hi: (lambda mk, tag: mk.real(tag + n, lo, hi))  # noqa: E731
    con = lambda v: (lambda mk, tag: v)  # noqa: E731
    win = lambda L: (lambda mk, tag: mk.array([mk.real("%sh%d" % (tag, i), 0.5, 1.5) for i in range(L)], "f"))  # noqa: E731
    mat = lambda m, n, lo, hi: (lambda mk, tag: mk.rvec(tag + "a", m * n, lo, hi).reshape((m, n)))  # noqa: E731
    t["loctime"] = sv("loctime", P)
    t["locfreq"] = sv("locfreq", P)
    t["inst_freq"] = sv("inst_freq", P)
    t["inst_freq_t"] = sv("inst_freq", P, arr(3, 2))
    t["sigmerge"] = lambda mk, tag: (G, "sigmerge", [big(mk, _x(mk, 3, "c", tag + "x")), big(mk, _x(mk, 3, "c", tag + "y")), mk.real(tag + "r", -9, 9)], {})
    t["narrow_band"] = sv("narrow_band", "processing.ambiguity", arr(-1, 0, 2), N=5)
    t["narrow_band_d"] = sv("narrow_band", "processing.ambiguity", N=4)
    t["spwv"] = sv("smoothed_pseudo_wigner_ville", P, arr(1, 3), con(6), win(3), win(5), N=5)
    t["spwv_d"] = sv("smoothed_pseudo_wigner_ville", P, N=4)
    R = "processing.reassigned"
    one = lambda N, k: (lambda mk, tag: mk.array([mk.real(tag + "x", 0.5, 1.5) if i == k else  # noqa: E731
                                                  complex(1.0 - 0.3 * i, 0.4 * i * (-1) ** i) for i in range(N)], "c"))
    t["re_spec"] = lambda mk, tag: (R, "spectrogram", [one(3, 0)(mk, tag), mk.array([0, 2], "i"), 4, mk.array([0.6, 2.0, 0.6], "f")], {})
    t["re_spec_d"] = lambda mk, tag: (R, "spectrogram", [one(4, 1)(mk, tag)], {})
    fixed = lambda N: (lambda mk, tag: mk.array([complex(1.0 - 0.3 * i, 0.4 * i * (-1) ** i)  # noqa: E731
                                                 * (2 if tag == "p" else 1) for i in range(N)], "c"))
    t["re_pwv"] = lambda mk, tag: (R, "pseudo_wigner_ville", [fixed(4)(mk, tag), mk.array([0, 2], "i"), 4, mk.array([0.6, 2.0, 0.6], "f")], {})
    t["re_pwv_d"] = lambda mk, tag: (R, "pseudo_wigner_ville", [one(4, 1)(mk, tag)], {})
    t["re_spwv"] = lambda mk, tag: (R, "smoothed_pseudo_wigner_ville", [
        fixed(4)(mk, tag), mk.array([1, 2], "i"), 3, mk.array([0.6, 2.0, 0.6], "f"), mk.array([0.8, 2.0, 0.8], "f")], {})
    t["wide"] = sv("wide_band", "processing.ambiguity", con(0.1), con(0.4), con(4), k="f", N=6)
    t["dopnoise"] = lambda mk, tag: (G, "dopnoise", [4, 200.0, 60.0, 10.0, 50.0], {})
    t["gabor"] = sv("gabor", "processing.linear", con(4), con(2), lambda mk, tag: mk.array([0.2, 1.0, 0.4], "f"), N=8)
    t["spectrum"] = sv("get_spectrum", "processing.utils")
    t["loctime_f"] = sv("loctime", P, k="f")
    t["locfreq_f"] = sv("locfreq", P, k="f")
    t["inst_freq_f"] = sv("inst_freq", P, k="f")
    t["inst_freq_t_f"] = sv("inst_freq", P, arr(3, 2), k="f")
    t["narrow_band_f"] = sv("narrow_band", "processing.ambiguity", arr(-1, 0, 2), N=5, k="f")
    t["narrow_band_d_f"] = sv("narrow_band", "processing.ambiguity", N=4, k="f")
    t["spwv_f"] = sv("smoothed_pseudo_wigner_ville", P, arr(1, 3), con(6), win(3), win(5), N=5, k="f")
    t["spwv_d_f"] = sv("smoothed_pseudo_wigner_ville", P, N=4, k="f")
    t["gabor_f"] = sv("gabor", "processing.linear", con(4), con(2), lambda mk, tag: mk.array([0.2, 1.0, 0.4], "f"), N=8, k="f")
    t["spectrum_f"] = sv("get_spectrum", "processing.utils", k="f")
    fixedf = lambda N: (lambda mk, tag: mk.array([(1.0 - 0.3 * i) * (2 if tag == "p" else 1) for i in range(N)], "f"))  # noqa: E731
    for f, more in (("spectrogram", ["h"]), ("pseudo_wigner_ville", ["h"]), ("smoothed_pseudo_wigner_ville", ["g", "h"])):
        t["re_%s_f" % f] = (lambda f, more: lambda mk, tag: (R, f, [
            fixedf(4)(mk, tag), mk.array([0, 2], "i"), 4] + [mk.array([0.6, 2.0, 0.6], "f") for _ in more], {}))(f, more)
    t["derive_window"] = lambda mk, tag: ("processing.utils", "derive_window", [win(5)(mk, tag)], {})
    t["integrate_2d"] = lambda mk, tag: ("processing.utils", "integrate_2d", [mat(3, 3, -2, 2)(mk, tag), mk.array([0.0, 1.0, 2.0], "f"), mk.array([0.5, 1.0, 2.0], "f")], {})
    t["renyi"] = lambda mk, tag: (P, "renyi_information", [mat(2, 3, 0.2, 2)(mk, tag)], {})
    t["renyi_full"] = lambda mk, tag: (P, "renyi_information", [mat(3, 2, 0.2, 2)(mk, tag), mk.array([0, 1], "i"), mk.array([0.2, 0.1, 0.4], "f"), 2.0], {})
    t["ideal_tfr"] = lambda mk, tag: (P, "ideal_tfr", [mk.array([mk.real("%sf%d" % (tag, i), 0.02, 0.48) for i in range(3)], "f").reshape((1, 3)), mk.array([0, 2], "i"), 4], {})
    t["hough"] = lambda mk, tag: ("processing.postprocessing", "hough_transform", [mat(3, 3, 1, 3)(mk, tag), 4, 5], {})
    t["friedman"] = lambda mk, tag: ("processing.postprocessing", "friedman_density", [mat(2, 2, 1, 1.5)(mk, tag), mk.array([0, 1, 1, 0j], "c").reshape((2, 2))], {})
    t["ridges"] = lambda mk, tag: ("processing.postprocessing", "ridges", [mat(2, 2, 1, 1.5)(mk, tag), mk.array([0, 1j, 1, 0j], "c").reshape((2, 2)), mk.array([3, 5], "i")], {})
    t["izak"] = lambda mk, tag: (U, "izak", [mk.cvec(tag + "z", 6).reshape((3, 2))], {})
    t["modulo"] = lambda mk, tag: (U, "modulo", [mk.ivec(tag + "m", 3, -5, 9), 4], {})
    t["nearest_odd"] = lambda mk, tag: (U, "nearest_odd", [mk.rvec(tag + "m", 3, 1, 7)], {})
    # generators
    for f in ("amgauss", "amexpos", "amrect", "amtriang"):
        t[f] = (lambda f: lambda mk, tag: (G, f, [6, mk.real(tag + "t", 0, 6), mk.real(tag + "s", 1, 4)], {}))(f)
    t["amexpos_u"] = lambda mk, tag: (G, "amexpos", [6, mk.real(tag + "t", 0, 6), mk.real(tag + "s", 1, 4), "unilateral"], {})
    t["fmconst"] = lambda mk, tag: (G, "fmconst", [5, mk.real(tag + "f", 0, 0.5), mk.real(tag + "t", 0, 5)], {})
    t["fmlin"] = lambda mk, tag: (G, "fmlin", [5, mk.real(tag + "a", 0, 0.5), mk.real(tag + "b", 0, 0.5), 3], {})
    t["fmsin"] = lambda mk, tag: (G, "fmsin", [5, mk.real(tag + "a", 0, 0.2), mk.real(tag + "b", 0.3, 0.5), 4, 2, mk.real(tag + "f", 0.21, 0.29)], {})
    t["fmodany"] = lambda mk, tag: (G, "fmodany", [mk.rvec(tag + "f", 4, 0.01, 0.49), 2], {})
    t["fmpar"] = lambda mk, tag: (G, "fmpar", [5, [mk.real(tag + "a", 0.1, 0.2), mk.real(tag + "b", 0, 0.01), mk.real(tag + "c", 0, 0.01)]], {})
    t["fmhyp"] = lambda mk, tag: (G, "fmhyp", [5, (1, 0.3), (5, 0.1)], {})
    t["fmpower"] = lambda mk, tag: (G, "fmpower", [5, 0.5, (0.1, mk.real(tag + "c", 0.05, 0.2))], {})
    t["atoms"] = lambda mk, tag: (G, "atoms", [6, mk.array([3.0, mk.real(tag + "f", 0.1, 0.4), 4.0, mk.real(tag + "a", 0.5, 2)], "f")], {})
    t["doppler"] = lambda mk, tag: (G, "doppler", [5, 200.0, mk.real(tag + "f", 20, 80), 10.0, 50.0], {})
    t["klauder"] = lambda mk, tag: (G, "klauder", [5, mk.real(tag + "l", 5, 12), 0.2], {})
    t["altes"] = lambda mk, tag: (G, "altes", [5, 0.05, 0.5, mk.real(tag + "l", 100, 300)], {})
    t["mexhat"] = lambda mk, tag: (G, "mexhat", [mk.real(tag + "n", 0.38, 0.49)], {})
    t["gdpower"] = lambda mk, tag: (G, "gdpower", [6, 0.5, mk.real(tag + "n", 0.5, 2)], {})
    t["anapulse"] = lambda mk, tag: (G, "anapulse", [5, 2 if tag == "p" else 4], {})
    t["anastep"] = lambda mk, tag: (G, "anastep", [5, 2 if tag == "p" else 4], {})
    t["anasing"] = lambda mk, tag: (G, "anasing", [5, 2.0, mk.real(tag + "h", 0, 1)], {})
    t["anaask"] = lambda mk, tag: (G, "anaask", [4, 2, mk.real(tag + "f", 0.1, 0.4)], {})
    t["anabpsk"] = lambda mk, tag: (G, "anabpsk", [4, 2, mk.real(tag + "f", 0.1, 0.4)], {})
    t["anaqpsk"] = lambda mk, tag: (G, "anaqpsk", [4, 2, mk.real(tag + "f", 0.1, 0.4)], {})
    t["anafsk"] = lambda mk, tag: (G, "anafsk", [4, 2, 4], {})
    t["noisecu"] = lambda mk, tag: (G, "noisecu", [4], {})
    t["noisecg"] = lambda mk, tag: (G, "noisecg", [4], {})
    return t


RANDOM = ("anaask", "anabpsk", "anaqpsk", "anafsk", "noisecu", "noisecg", "dopnoise")


def _variants(mk):
    """name -> the same function on the same sizes with other optional arguments"""
    A = lambda k, *v: mk.array(list(v), k)  # noqa: E731
    x = A("c", 1.0, 0.5j, -0.25 + 0.5j, 0.75)
    w3, w5 = A("f", 0.7, 1.0, 0.4), A("f", 0.3, 0.7, 1.0, 0.6, 0.2)
    m23 = A("f", 1.0, 0.5, 0.75, 0.25, 1.5, 1.25).reshape((2, 3))
    m33 = A("f", 1.0, 2.0, 1.5, 1.25, 1.75, 3.0, 2.5, 1.0, 2.0).reshape((3, 3))
    m22 = A("f", 1.0, 1.25, 1.5, 1.125).reshape((2, 2))
    r22 = A("c", 0j, 1j, 1, 1 + 1j).reshape((2, 2))
    x5 = A("c", 1.0, 0.5j, -0.25 + 0.5j, 0.75, 0.5)
    t = {
        "inst_freq": [((x, A("i", 2, 2)), {}), ((x,), dict(L=1))],
        "inst_freq_t": [((x,), {})],
        "narrow_band_d": [((x, A("i", -1, 0, 1), 4), {}), ((x,), dict(n_fbins=6))],
        "narrow_band": [((x5,), {})],
        "spwv_d": [((x, A("i", 3, 1, 2, 0), 4, w3, w3), {}), ((x, A("i", 2, 0), 6), {})],
        "spwv": [((x5,), {}), ((x5, A("i", 1, 3)), {})],
        "re_spec_d": [((x, A("i", 3, 2, 1, 0), 4, w3), {})],
        "re_pwv_d": [((x, A("i", 3, 2, 1, 0), 4, w3), {})],
        "re_pwv": [((x,), {})],
        "re_spwv": [((x,), {})],
        "integrate_2d": [((m33,), {})],
        "renyi": [((m23, A("f", 0.0, 3.0, 6.0), A("f", 0.1, 0.4), 2.0), {}), ((m23, A("i", 0, 1, 2)), {}), ((m23,), dict(alpha=2))],
        "renyi_full": [((m23.reshape((3, 2)),), {})],
        "hough": [((m33,), {}), ((m33, 5, 4), {})],
        "friedman": [((m22, r22, A("i", 4, 6)), {})],
        "ridges": [((m22, r22), {}), ((m22, r22, A("i", 1, 2), "rspwv"), {})],
        "fmconst": [((5,), {}), ((5, 0.1), {})],
        "fmlin": [((5,), {}), ((5, 0.1, 0.4), {})],
        "fmsin": [((5,), {})],
        "fmodany": [((A("f", 0.1, 0.2, 0.3, 0.4),), {})],
        "doppler": [((5, 200.0, 60.0, 10.0, 50.0), dict(t0=2.0))],
        "klauder": [((5,), {})],
        "altes": [((5,), {})],
        "mexhat": [((), {})],
        "gdpower": [((6,), {})],
        "anapulse": [((5,), {})],
        "anastep": [((5,), {})],
        "anasing": [((5,), {}), ((5, 3.0), {})],
        "anaask": [((4,), {})], "anabpsk": [((4,), {})], "anaqpsk": [((4,), {})], "anafsk": [((4,), {})],
    }
    for f in ("amgauss", "amexpos", "amrect", "amtriang"):
        t[f] = [((6,), {}), ((6, 2.0), {})]
    t["amexpos_u"] = [((6, 2.0, 3.0), {}), ((6,), {})]
    for k in ("inst_freq", "inst_freq_t", "narrow_band", "narrow_band_d", "spwv", "spwv_d"):
        t[k + "_f"] = t[k]
    return t


def _flat(r):
    if isinstance(r, (tuple, list)):
        out = []
        for v in r:
            out += _flat(v)
        return out
    return [r]


def call(mk, name):
    """same arguments, same result, whatever happened in between; arguments untouched"""
    B = _calls()[name]
    mod, f, a, kw = B(mk, "p")
    _, _, b, _ = B(mk, "q")
    fn = getattr(mk.tftb(mod), f)
    st = State(mk)
    for i, v in enumerate(a):
        if isarr(v):
            st.add("argument %d" % i, v)

    def go(args):
        if name in RANDOM:
            mk.draws([0.3, 0.8, 0.1, 0.6, 0.9])
        r = _flat(fn(*args, **kw))
        if name in RANDOM:
            mk.draws(None)
        return r
    r1 = go(a)
    st.check("call")
    for i, v in enumerate(r1):
        if isarr(v):
            st.add("result %d" % i, v)
    ref = [mk.snapshot(v) if isarr(v) else v for v in r1]
    go(b)
    st.check("second call")
    if name in RANDOM:
        mk.draws([0.6, 0.2, 0.7, 0.4, 0.05])
        n = fn(*a, **kw)
        n = n[0] if isinstance(n, tuple) else n
        mk.draws(None)
        mk.ok(bool((n != ref[0]).any()), "other draws give another signal")
    for args, k in _variants(mk).get(name, ()):
        if name in RANDOM:
            mk.draws([0.3, 0.8, 0.1, 0.6, 0.9])
        fn(*args, **k)
        mk.draws(None)
        st.check("call with other optional arguments")
        for i, (u, v) in enumerate(zip(go(a), ref)):
            mk.eq(u, v, "same result after a call with other optional arguments (%d)" % i)
    r3 = go(a)
    for i, (u, v) in enumerate(zip(r3, ref)):
        mk.eq(u, v, "same result for the same arguments (%d)" % i)
    # writing in a result does not reach later results (unless it is an argument)
    for v in r3:
        if isarr(v) and not any(v is w for w in a):
            try:
                v[...] = 0
            except ValueError:
                pass
    st.check("result overwritten")
    r4 = go(a)
    for i, (u, v) in enumerate(zip(r4, ref)):
        mk.eq(u, v, "same result after an earlier one was overwritten (%d)" % i)


def instances(tier):
    th = tier == "thorough"
    out = []
    common = ["cmap", "contour", "tf", "tfc", "bare"]
    for name in DIST:
        L = 3 if DIST[name][2] else None
        out.append(inst("dist", name=name, N=4, n=4, L=L, plots=common))
        out.append(inst("dist", name=name, N=3, n=None, L=None, plots=["cmap"]))
        out.append(inst("dist", name=name, N=4, n=4, L=L, plots=["surf"] if name in ("wv", "pwv") else ["contour", "cmap"]))
        out.append(inst("dist", name=name, N=5, n=6, L=L, shape=True))
        out.append(inst("dist", name=name, N=4, n=3, L=L, shape=False))
        out.append(inst("dist", name=name, N=4, n=5, L=L, plots=["cmap"], kind="f"))
        if name != "spectrogram":
            out.append(inst("dist", name=name, N=4, n=4, L=L, plots=["thr", "cmap"]))
            out.append(inst("dist", name=name, N=4, n=4, L=L, plots=["sq"] if name == "stft" else ["sq", "nosq"]))
    for name in ("wv", "pwv"):
        out.append(inst("dist", name=name, N=3, n=3, L=3 if name == "pwv" else None, plots=["log"], lo=0.05))
    for name in AFF:
        out.append(inst("affine", name=name, N=9, plots=["contour", "tfc"]))
        out.append(inst("affine", name=name, N=9, plots=["tfc", "thr"]))
    for name in _calls():
        out.append(inst("call", name=name))
    return out


BOUNDS = "every signal, window and parameter in the stated ranges; records of 3..9 samples; histories of construction, run, up to five plots, another object's run, run again"
OUTSIDE = "longer histories; what is drawn on the screen"
