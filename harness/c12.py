"""C12: frequency modulations, Doppler signal and atoms."""
import math
import warnings
from .lib import inst, shape_of, conj

PI = math.pi


def _cis(np, ph):
    return np.exp(2j * PI * ph)


def _fr(mk, name, lo=-0.5, hi=0.5):
    return mk.real(name, lo, hi)


def _cmp(mk, y, iflaw, ph, law, N):
    np = mk.np
    mk.ok(shape_of(y) == (N,) and shape_of(iflaw) == (N,), "shape")
    mk.eq(y, mk.array([_cis(np, p) for p in ph], "c"), "signal")
    mk.eq(iflaw, mk.array(law, "f"), "frequency law")


def const(mk, N, t0="sym", f="sym"):
    fm = mk.tftb("generators").fmconst
    kw = {}
    fv, tv = 0.25, float(round(N / 2.0))
    if f == "sym":
        fv = kw["fnorm"] = _fr(mk, "f")
    if t0 == "sym":
        tv = kw["t0"] = mk.real("t0", -1, N + 2)
    elif t0 == "int":
        tv = kw["t0"] = mk.integer("t0", 0, N)
    y, law = fm(N, **kw)
    _cmp(mk, y, law, [fv * (k - tv) for k in range(N)], [fv] * N, N)


def lin(mk, N, t0="sym", f="sym", T=None):
    fm = mk.tftb("generators").fmlin
    kw = {}
    a, b, tv = 0.0, 0.5, float(round(N / 2.0))
    if f == "sym":
        a, b = kw["fnormi"], kw["fnormf"] = _fr(mk, "fi"), _fr(mk, "ff")
    if t0 == "int":
        tv = kw["t0"] = T
    y, law = fm(N, **kw)
    # phase: running integral of the law, zero at the time reference (samples count from 1)
    ph = [a * (t - tv) + (b - a) / (2.0 * (N - 1)) * ((t - 1) ** 2 - (tv - 1) ** 2) for t in range(1, N + 1)]
    _cmp(mk, y, law, ph, [a + (b - a) * k / (N - 1.0) for k in range(N)], N)


def lin_unit(mk, N, j):
    """a fractional time reference keeps unit modulus and the frequency law"""
    np = mk.np
    fm = mk.tftb("generators").fmlin
    a, b = _fr(mk, "fi"), _fr(mk, "ff")
    T = j + mk.real("u", 0.01, 0.99)
    y, law = fm(N, a, b, T)
    mk.eq(y * np.conj(y), np.ones(N), "unit modulus")
    mk.eq(y[1:] * np.conj(y[:-1]), mk.array(
        [_cis(np, a + (b - a) * (2 * t - 1) / (2.0 * (N - 1))) for t in range(1, N)], "c"),
        "the phase advances by the mean of the law over the step")


def hyp(mk, N, t1, t2):
    np = mk.np
    fm = mk.tftb("generators").fmhyp
    f1, f2 = _fr(mk, "f1", 0.02, 0.5), _fr(mk, "f2", 0.02, 0.5)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y, law = fm(N, (t1, f1), (t2, f2))
    c = (f2 - f1) / (1.0 / t2 - 1.0 / t1)
    f0 = f1 - c / t1
    ref = [f0 + c / t for t in range(1, N + 1)]
    _cmp(mk, y, law, [f0 * t + c * math.log(t) for t in range(1, N + 1)], ref, N)
    if t1 == int(t1) and 1 <= t1 <= N:
        mk.eq(law[int(t1) - 1], f1, "the law passes through the first point")
    if t2 == int(t2) and 1 <= t2 <= N:
        mk.eq(law[int(t2) - 1], f2, "the law passes through the second point")
    _warned(mk, w, ref)


def _warned(mk, w, ref):
    np = mk.np
    bad = mk.array(ref, "f")
    out = np.logical_or(bad < -1e-6, bad > 0.5 + 1e-6)
    ins = np.logical_and(bad > 1e-6, bad < 0.5 - 1e-6)
    if len(w):
        mk.ok(np.logical_not(np.all(ins)), "warning only when the law leaves [0, 0.5]")
    else:
        mk.ok(np.logical_not(np.any(out)), "warning whenever the law leaves [0, 0.5]")


def par(mk, N):
    fm = mk.tftb("generators").fmpar
    a = [mk.real("a%d" % i, -1, 1) for i in range(3)]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y, law = fm(N, tuple(a))
    ref = [a[0] + a[1] * t + a[2] * t * t for t in range(N)]
    _cmp(mk, y, law, [a[0] * t + a[1] * t * t / 2.0 + a[2] * t ** 3 / 3.0 for t in range(N)], ref, N)
    _warned(mk, w, ref)


def power(mk, N, k, pts=None):
    fm = mk.tftb("generators").fmpower
    if pts is None:
        f0, c = mk.real("f0", -1, 1), mk.real("c", -1, 1)
        co = (f0, c)
    else:
        t1, t2 = pts
        f1, f2 = _fr(mk, "f1", 0.02, 0.5), _fr(mk, "f2", 0.02, 0.5)
        co = (t1, f1, t2, f2)
        c = (f2 - f1) / (1.0 / t2 ** k - 1.0 / t1 ** k)
        f0 = f1 - c / t1 ** k
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y, law = fm(N, k, co)
    ref = [f0 + c * float(t) ** -k for t in range(1, N + 1)]
    _cmp(mk, y, law, [f0 * t + c / (1.0 - k) * float(t) ** (1 - k) for t in range(1, N + 1)], ref, N)
    _warned(mk, w, ref)


def sine(mk, N, period=None, t0="none", f0=None, pm=1):
    np = mk.np
    fm = mk.tftb("generators").fmsin
    kw = {}
    a, b = _fr(mk, "fmin", 0.0, 0.25), _fr(mk, "fmax", 0.3, 0.5)
    kw["fnormin"], kw["fnormax"] = a, b
    P = N if period is None else period
    if period is not None:
        kw["period"] = period
    tv = N / 2.0
    if t0 == "sym":
        tv = kw["t0"] = mk.real("t0", 0, N)
    elif t0 != "none":
        tv = kw["t0"] = t0
    mid, dl = 0.5 * (a + b), 0.5 * (b - a)
    r = 0.0
    if f0 is not None:
        kw["fnorm0"] = mid + f0 * dl
        r = f0
    if pm != 1:
        kw["pm1"] = pm
    y, law = fm(N, **kw)
    phi = -pm * math.acos(r)
    ref, ph = [], []
    for k in range(N):
        t = k - tv
        ref.append(mid + dl * np.cos(2 * PI * t / P + phi))
        ph.append(mid * t + dl * P / (2 * PI) * (np.sin(2 * PI * t / P + phi) - math.sin(phi)))
    _cmp(mk, y, law, ph, ref, N)
    if t0 not in ("none", "sym") and t0 == int(t0):
        mk.eq(y[int(t0)], 1.0, "1 at the time reference")
        mk.eq(law[int(t0)], mid + r * dl, "frequency at the time reference")


def anylaw(mk, N, t0=None, col=False):
    np = mk.np
    fm = mk.tftb("generators").fmodany
    law = mk.rvec("f", N, -0.5, 0.5)
    L = law.reshape((N, 1)) if col else law
    y = fm(L) if t0 is None else fm(L, t0)
    T = 1 if t0 is None else t0
    mk.ok(shape_of(y) == (N,), "shape")
    ph = []
    for k in range(N):
        s = 0.0
        for j in range(min(k, T - 1) + 1, max(k, T - 1) + 1):
            s = s + law[j]
        ph.append(s if k >= T - 1 else -s)
    mk.eq(y, mk.array([_cis(np, p) for p in ph], "c"), "phase accumulates the law, 0 at sample t0")


def doppler(mk, N, t0="none", vw=False, still=False):
    np = mk.np
    fn = mk.tftb("generators").doppler
    fs = mk.real("fs", 10, 500)
    f0 = mk.real("f0", 0.5, 5)
    d = mk.real("d", 0.5, 50)
    v = 0.0 if still else mk.real("v", 0, 100)
    kw = {}
    c = 340.0
    if vw:
        c = kw["v_wave"] = mk.real("c", 200, 2000)
    tv = N / 2.0
    if t0 == "sym":
        tv = kw["t0"] = mk.real("t0", 1, N)
    fm, am, law = fn(N, fs, f0, d, v, **kw)
    mk.ok(shape_of(fm) == (N,) and shape_of(am) == (N,) and shape_of(law) == (N,), "shape")
    ph, amp, ref = [], [], []
    for k in range(1, N + 1):
        t = (k - tv) / fs
        r2 = d * d + v * v * t * t
        r = np.sqrt(r2)
        ph.append(_cis(np, f0 * (t - r / c)))
        amp.append(1.0 / np.sqrt(r))
        ref.append((1 - v * v * t / r / c) * f0 / fs)
    mk.eq(fm, mk.array(ph, "c"), "frequency modulation")
    mk.eq(am, mk.array(amp, "f"), "amplitude modulation")
    mk.eq(law, mk.array(ref, "f"), "frequency law")


def doppler_zero(mk, N):
    fn = mk.tftb("generators").doppler
    fs, d, v = mk.real("fs", 10, 500), mk.real("d", 0.5, 50), mk.real("v", 0, 100)
    fm, am, law = fn(N, fs, 0.0, d, v)
    mk.eq(am * mk.np.ones(N), mk.np.zeros(N), "no amplitude")
    mk.eq(fm, mk.np.ones(N), "constant")
    mk.eq(law, mk.np.zeros(N), "zero frequency")


def atom(mk, N, K, flat=False, pin=None):
    np = mk.np
    g = mk.tftb("generators")
    rows = []
    for k in range(K):
        t = mk.real("t%d" % k, -2, N + 3) if pin is None else float(pin[k])
        rows.append([t, mk.real("f%d" % k, -0.2, 0.7), mk.real("T%d" % k, 0.5, 4 * N), mk.real("A%d" % k, -3, 3)])
    C = mk.array([v for r in rows for v in r], "f")
    C = C if flat else C.reshape((K, 4))
    y = g.atoms(N, C)
    mk.ok(shape_of(y) == (N,), "shape")
    ref = [0.0] * N
    for t, f, T, A in rows:
        tc = np.round(np.maximum(np.minimum(t, N), 1))
        fc = np.maximum(np.minimum(f, 0.5), 0.0)
        for k in range(N):
            ref[k] = ref[k] + A * np.exp(-PI * ((k + 1 - tc) / T) ** 2) * _cis(np, fc * (k - tc))
    mk.eq(y, mk.array(ref, "c"), "sum of modulated Gaussians")


def instances(tier):
    out = []
    Ns = [1, 2, 3, 5, 8, 16, 33]
    big = [64, 100, 128]
    if tier == "thorough":
        Ns = list(range(1, 41))
        big = [64, 65, 100, 127, 128, 256]
    for N in Ns + big:
        out.append(inst("const", N=N))
    for N in (1, 2, 7, 8, 128):
        out.append(inst("const", N=N, t0="int"))
        out.append(inst("const", N=N, t0="none"))
        out.append(inst("const", N=N, t0="none", f="none"))
    for N in Ns[1:] + big:
        out.append(inst("lin", N=N, t0="none"))
        out.append(inst("lin", N=N, t0="none", f="none"))
        for T in sorted(set((1, 2, N // 2, N - 1, N))):
            if T >= 1:
                out.append(inst("lin", N=N, t0="int", f="sym", T=T))
    for N, j in [(2, 1), (3, 1), (3, 2), (5, 3), (8, 4), (33, 20)]:
        out.append(inst("lin_unit", N=N, j=j))
    for N, a, b in [(8, 1, 8), (8, 2, 5), (5, 1, 32), (16, 3, 11), (6, 1.5, 4.5), (33, 1, 20)]:
        out.append(inst("hyp", N=N, t1=a, t2=b))
    for N in (1, 2, 3, 5, 8, 16, 33):
        out.append(inst("par", N=N))
    for N, k, p in [(8, 0.5, None), (8, 2, None), (6, 3, None), (5, -1, None), (12, 0.25, None), (33, 0.5, None),
                    (8, 0.5, (1, 8)), (8, 2, (1, 5)), (16, 0.5, (1, 100)), (6, 3, (2, 6)), (1, 0.5, None), (7, 1.5, (2, 7))]:
        out.append(inst("power", N=N, k=k, pts=p))
    for N, kw in [(8, {}), (9, {}), (16, dict(period=10)), (8, dict(period=5, t0=2)), (12, dict(period=7, t0=3, f0=0.5)),
                  (12, dict(period=7, t0=3, f0=0.5, pm=-1)), (8, dict(t0="sym")), (10, dict(period=100, t0=4, f0=-0.25, pm=-1)),
                  (33, dict(period=20, t0=0, f0=1.0)), (9, dict(t0=5, pm=-1))]:
        out.append(inst("sine", N=N, **kw))
    for N in (1, 2, 3, 5, 8, 16, 40):
        out.append(inst("anylaw", N=N))
    for N, T in [(3, 1), (3, 3), (5, 2), (8, 8), (16, 7)]:
        out.append(inst("anylaw", N=N, t0=T))
    out.append(inst("anylaw", N=6, t0=3, col=True))
    out.append(inst("anylaw", N=4, t0=None, col=True))
    for N in (2, 3, 4, 7, 8, 16):
        out.append(inst("doppler", N=N))
    for N in (1, 3, 4):
        out.append(inst("doppler", N=N, t0="sym"))
    out.append(inst("doppler", N=5, t0="sym", vw=True))
    out.append(inst("doppler", N=6, t0="none", vw=True, still=True))
    out.append(inst("doppler_zero", N=5))
    out.append(inst("atom", N=6, K=1, flat=True))
    out.append(inst("atom", N=4, K=2))
    out.append(inst("atom", N=8, K=2, pin=(3.2, 6.5)))
    out.append(inst("atom", N=7, K=3, pin=(-4, 9.5, 2.5)))
    out.append(inst("atom", N=16, K=2, pin=(1, 16)))
    out.append(inst("atom", N=5, K=1, flat=False))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("every frequency in [-1/2,1/2], coefficient in [-1,1], time reference (symbolic real or integer), distance, speed, "
          "atom centre/width/amplitude; 1..16,33,64,100,128 samples (thorough 1..40,...,256)")
OUTSIDE = "fmlin with a single sample (its slope is 0/0); symbolic exponents of the power law; fmsin period is concrete"
