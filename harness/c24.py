"""C24: arguments outside the documented range are refused, all others are accepted."""
from .lib import inst

REFUSED = (TypeError, ValueError, AssertionError)


def _num(mk, name, where):
    """a symbolic number in one of the ranges "lo..hi" (None: open end), bounds excluded if 'x'"""
    lo, hi, x = where
    v = mk.real(name, lo, hi)
    if x:
        if lo is not None:
            mk.assume(v > lo)
        if hi is not None:
            mk.assume(v < hi)
    return v


def _m(mk, name, r, c):
    return mk.cvec(name, r * c).reshape((r, c))


G, P, R = "generators", "processing", "processing.reassigned"

ABOVE, BELOW = (0.5, 50, True), (-50, -0.5, True)
NEG = (-50, 0, True)


def _cases():
    """name -> (module, function, [argument builders], keyword builders)"""
    t = {}

    def N(mk):
        return mk.integer("n", -20, 0)

    def c(name, mod, f, *args, **kw):
        t[name] = (mod, f, args, kw)

    def num(name, *w):
        return lambda mk: _num(mk, name, w)
    for f in ("amgauss", "amexpos", "amrect", "amtriang"):
        c(f + "-n", G, f, N, num("t", -9, 9, False), num("s", 0.5, 9, False))
        c(f + "-n0", G, f, 0)
    c("amexpos-u-n", G, "amexpos", N, 1.0, 2.0, "unilateral")
    c("fmconst-n", G, "fmconst", N, 0.25, 1)
    c("fmlin-n", G, "fmlin", N, 0.0, 0.5, 1)
    for side, w in (("hi", ABOVE), ("lo", BELOW)):
        c("fmconst-f-" + side, G, "fmconst", 6, num("f", *w))
        c("fmconst-ft-" + side, G, "fmconst", 6, num("f", *w), 2)
        c("fmlin-i-" + side, G, "fmlin", 6, num("f", *w), num("g", -0.5, 0.5, False))
        c("fmlin-f-" + side, G, "fmlin", 6, num("g", -0.5, 0.5, False), num("f", *w))
        c("fmlin-t-" + side, G, "fmlin", 6, num("f", *w), 0.25, 3)
        for j in (0, 2, 3):
            c("fmodany-%d-%s" % (j, side), G, "fmodany",
              lambda mk, j=j, w=w: mk.array([_num(mk, "f", w) if i == j else mk.real("g%d" % i, -0.5, 0.5) for i in range(4)], "f"))
        c("fmodany-col-" + side, G, "fmodany",
          lambda mk, w=w: mk.array([_num(mk, "f", w), 0.25, 0.1], "f").reshape((3, 1)))
    c("fmodany-row", G, "fmodany", lambda mk: mk.rvec("g", 4, -0.5, 0.5).reshape((1, 4)))
    c("fmodany-mat", G, "fmodany", lambda mk: mk.rvec("g", 4, -0.5, 0.5).reshape((2, 2)))
    c("fmodany-t-hi", G, "fmodany", lambda mk: mk.rvec("g", 4, -0.5, 0.5), lambda mk: mk.integer("t", 5, 30))
    c("fmodany-t-lo", G, "fmodany", lambda mk: mk.rvec("g", 4, -0.5, 0.5), lambda mk: mk.integer("t", -30, 0))
    for f in ("anaask", "anabpsk", "anaqpsk"):
        c(f + "-f-hi", G, f, 8, 4, num("f", *ABOVE))
        c(f + "-f-lo", G, f, 8, 4, num("f", *NEG))
        c(f + "-fd-hi", G, f, 8, None, num("f", *ABOVE))
    dop = [("s", 10, 400, False), ("f", 0, 5, False), ("d", 0.5, 60, False), ("v", 0, 90, False)]

    def doppler(tag, **repl):
        a = [(lambda mk, w=w: _num(mk, w[0], w[1:])) for w in dop]
        for k, v in repl.items():
            if k != "t0":
                a["sfdv".index(k)] = v
        kw = {"t0": repl["t0"]} if "t0" in repl else {}
        c("doppler-" + tag, G, "doppler", 6, *a, **kw)
    doppler("distance", d=num("d", -60, 0, False))
    doppler("speed", v=num("v", *NEG))
    doppler("f-lo", f=num("f", *NEG))
    doppler("s-lo", s=num("s", *NEG), f=0.0)
    doppler("t-hi", t0=num("t", 6, 50, True))
    doppler("t-lo", t0=num("t", -50, 1, True))

    def high(mk):
        f = mk.real("f", 5, 300)
        mk.assume(f > mk.real("s", 10, 400) * 0.5)
        return f
    doppler("f-hi", f=high)
    for side, w in (("hi", (0.5, 9, False)), ("lo", (-9, 0, False))):
        c("klauder-f-" + side, G, "klauder", 8, 10.0, num("f", *w))
        c("klauder-fa-" + side, G, "klauder", 8, num("a", 1, 20, False), num("f", *w))
    c("klauder-n", G, "klauder", N)
    c("mexhat-hi", G, "mexhat", num("f", *ABOVE))
    c("mexhat-lo", G, "mexhat", num("f", *NEG))
    c("gdpower-rate", G, "gdpower", 8, num("d", -2, 3, False), 0.0)
    c("noisecg-n", G, "noisecg", N)
    c("sigmerge-1", G, "sigmerge", lambda mk: _m(mk, "x", 2, 2), lambda mk: mk.cvec("y", 4), 1.0)
    c("sigmerge-2", G, "sigmerge", lambda mk: mk.cvec("x", 4), lambda mk: _m(mk, "y", 4, 1), 1.0)
    for f in ("loctime", "locfreq", "inst_freq", "group_delay"):
        c(f + "-mat", P, f, lambda mk: _m(mk, "x", 2, 3))
        c(f + "-mat2", P, f, lambda mk: _m(mk, "x", 3, 2))
        c(f + "-sq2", P, f, lambda mk: _m(mk, "x", 2, 2))
        c(f + "-sq3", P, f, lambda mk: _m(mk, "x", 3, 3))
    c("inst_freq-tmat", P, "inst_freq", lambda mk: mk.cvec("x", 6), lambda mk: mk.array([2, 3, 4, 5], "i").reshape((2, 2)))
    c("wide-mat", "processing.ambiguity", "wide_band", lambda mk: mk.rvec("x", 6).reshape((2, 3)), 0.1, 0.4, 4)
    even = lambda L, nm="h": (lambda mk: mk.rvec(nm, L, 0.1, 2))  # noqa: E731
    sigl = lambda mk: mk.cvec("x", 5)  # noqa: E731
    for L in (2, 4, 6):
        c("spwv-h%d" % L, P, "smoothed_pseudo_wigner_ville", sigl, fwindow=even(L))
        c("spwv-g%d" % L, P, "smoothed_pseudo_wigner_ville", sigl, twindow=even(L))
        c("gabor-%d" % L, "processing.linear", "gabor", lambda mk: mk.cvec("x", 8), 4, 2, even(L))
        c("re-pwv-%d" % L, R, "pseudo_wigner_ville", sigl, fwindow=even(L))
        c("re-spwv-h%d" % L, R, "smoothed_pseudo_wigner_ville", sigl, fwindow=even(L))
        c("re-spwv-g%d" % L, R, "smoothed_pseudo_wigner_ville", sigl, twindow=even(L))
        c("re-spec-%d" % L, R, "spectrogram", sigl, window=even(L))
    plain = lambda mk: mk.array([1.0, -0.5, 0.25, 0.75, -1.0], "f")  # noqa: E731
    for ts in ((0, 1, 3), (0, 2, 3, 4), (4, 2, 1), (2, 4, 2), (1, 2, 1, 2), (0, 3, 1)):
        tag = "".join(map(str, ts))
        c("re-spec-t" + tag, R, "spectrogram", plain, lambda mk, ts=ts: mk.array(list(ts), "i"))
        c("re-spwv-t" + tag, R, "smoothed_pseudo_wigner_ville", plain, lambda mk, ts=ts: mk.array(list(ts), "i"))

    def irregular(mk):
        a, b = mk.integer("a", 1, 2), mk.integer("b", 1, 2)
        mk.assume(a != b)
        return mk.array([0, a, a + b], "i")
    def any3(mk):
        a, b, d = [mk.integer(k, 0, 4) for k in "abd"]
        mk.assume(b - a != d - b)
        return mk.array([a, b, d], "i")
    c("re-spec-any", R, "spectrogram", plain, any3)
    c("re-spwv-any", R, "smoothed_pseudo_wigner_ville", plain, any3)
    c("re-spec-t", R, "spectrogram", sigl, irregular)
    c("re-spwv-t", R, "smoothed_pseudo_wigner_ville", sigl, irregular)

    def neg(mk):
        v = [mk.real("a%d" % i, -2, 2) for i in range(4)]
        mk.assume(mk.np.minimum(mk.np.minimum(v[0], v[1]), mk.np.minimum(v[2], v[3])) < 0)
        return mk.array(v, "f").reshape((2, 2))
    c("renyi-negative", P, "renyi_information", neg, None, None, 1)
    for s in ("", "tfrsp", "spwv", "TFRRPWV2"):
        c("ridges-" + (s or "none"), "processing.postprocessing", "ridges",
          lambda mk: mk.rvec("a", 4, 0.5, 2).reshape((2, 2)), lambda mk: mk.array([0, 1, 1, 0j], "c").reshape((2, 2)),
          None, s)
    return t


def _build(mk, v):
    return v(mk) if callable(v) else v


def refuse(mk, case):
    mod, f, args, kw = _cases()[case]
    fn = getattr(mk.tftb(mod), f)
    a = [_build(mk, v) for v in args]
    k = {n: _build(mk, v) for n, v in kw.items()}
    mk.ok(mk.raises(lambda: fn(*a, **k), REFUSED), "refused")


def _valid():
    t = {}

    def num(name, lo, hi):
        return lambda mk: mk.real(name, lo, hi)
    for f in ("amgauss", "amexpos", "amrect", "amtriang"):
        for n in (1, 2, 5):
            t["%s-%d" % (f, n)] = (G, f, (n, num("t", -20, 20), num("s", 0.5, 20)), {})
    for n in (1, 4):
        t["fmconst-%d" % n] = (G, "fmconst", (n, num("f", -0.5, 0.5)), {})
        t["fmodany-%d" % n] = (G, "fmodany", (lambda mk, n=n: mk.rvec("f", n, -0.5, 0.5),), {})
    t["fmlin"] = (G, "fmlin", (4, num("f", -0.5, 0.5), num("g", -0.5, 0.5)), {})
    for k in (1, 2, 3, 4):
        t["fmodany-t%d" % k] = (G, "fmodany", (lambda mk: mk.rvec("f", 4, -0.5, 0.5), k), {})
    t["fmodany-col"] = (G, "fmodany", (lambda mk: mk.rvec("f", 4, -0.5, 0.5).reshape((4, 1)),), {})
    for f in ("anaask", "anabpsk", "anaqpsk"):
        t[f] = (G, f, (5, 2, num("f", 0, 0.5)), {})

    def f0(mk):
        f = mk.real("f", 0, 200)
        mk.assume(f <= mk.real("s", 10, 400) * 0.5)
        mk.assume(f > 0.001)
        return f
    t["doppler"] = (G, "doppler", (6, num("s", 10, 400), f0, num("d", 0.001, 60), num("v", 0, 90)), {})
    t["doppler-t"] = (G, "doppler", (6, 200.0, 60.0, 10.0, 50.0), dict(t0=num("t", 1, 6)))
    t["klauder"] = (G, "klauder", (8, num("a", 1, 20), num("f", 0.001, 0.499)), {})
    t["mexhat"] = (G, "mexhat", (num("f", 0.3, 0.5),), {})
    t["gdpower"] = (G, "gdpower", (8, 0.5, num("r", 0.01, 4)), {})
    t["gdpower-neg"] = (G, "gdpower", (8, 0.5, num("r", -4, -0.01)), {})
    for n in (1, 2, 3):
        t["noisecg-%d" % n] = (G, "noisecg", (n,), {})
    pos = lambda mk: [mk.assume((v * (v.conjugate() if hasattr(v, "conjugate") else v)).real > 0.05) for v in mk_x(mk)] and mk_x(mk)  # noqa: E731

    def mk_x(mk):
        return mk.cvec("x", 4)
    for f in ("loctime", "locfreq", "inst_freq", "group_delay"):
        for sh in ((4, 1), (1, 4)):
            t["%s-%d%d" % ((f,) + sh)] = (P, f, (lambda mk, sh=sh: pos(mk).reshape(sh),), {})
    for L in (1, 3, 5):
        h = lambda mk, L=L: mk.rvec("h", L, 0.1, 2)  # noqa: E731
        x = lambda mk: mk.cvec("x", 4)  # noqa: E731
        t["spwv-h%d" % L] = (P, "smoothed_pseudo_wigner_ville", (x,), dict(fwindow=h))
        t["spwv-g%d" % L] = (P, "smoothed_pseudo_wigner_ville", (x,), dict(twindow=h))
    for ts in ((0, 1, 2), (0, 2), (3,), (3, 2, 1), (1, 3, 5)):
        n = lambda mk: mk.array([0.5, 1j, 0.25, -0.5, 0.3, 0.7], "c")  # noqa: E731
        tag = "".join(map(str, ts))
        t["re-spec-" + tag] = (R, "spectrogram", (n, lambda mk, ts=ts: mk.array(list(ts), "i"), 4), {})
        t["re-spwv-" + tag] = (R, "smoothed_pseudo_wigner_ville", (n, lambda mk, ts=ts: mk.array(list(ts), "i"), 4), {})
    t["renyi"] = (P, "renyi_information", (lambda mk: mk.rvec("a", 4, 0.1, 2).reshape((2, 2)), None, None, 1), {})
    t["renyi-3"] = (P, "renyi_information", (lambda mk: mk.rvec("a", 4, 0.1, 2).reshape((2, 2)),), {})
    return t


def accept(mk, case):
    """no refusal anywhere in the documented range"""
    mod, f, args, kw = _valid()[case]
    fn = getattr(mk.tftb(mod), f)
    a = [_build(mk, v) for v in args]
    k = {n: _build(mk, v) for n, v in kw.items()}
    mk.ok(not mk.raises(lambda: fn(*a, **k), REFUSED), "accepted")


def instances(tier):
    return [inst("refuse", case=k) for k in _cases()] + [inst("accept", case=k) for k in _valid()]


BOUNDS = ("every number beyond the documented range up to 50 (400 for frequencies in hertz), every number of points -20..0, every "
          "even window of 2..6 values, every matrix 2x3, 3x2, 2x2, 3x3, every irregular three instants of 0..4; conversely every parameter of the documented ranges, to their ends")
OUTSIDE = "arguments of a wrong type; limits the code does not document or check"
