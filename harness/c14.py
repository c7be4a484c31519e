"""C14: wavelets, power-law group delay, noises: definition, length, unit energy."""
import cmath
import math
from .lib import inst, shape_of, conj

PI = math.pi


def _unit(mk, y, name="unit energy"):
    s = 0.0
    for v in y:
        s = s + (v * conj(v)).real
    mk.eq(s, 1.0, name)


def _idft(v):
    n = len(v)
    out = []
    for m in range(n):
        s = 0.0
        for k in range(n):
            s = s + v[k] * cmath.exp(2j * PI * ((k * m) % n) / n)
        out.append(s / n)
    return out


def _dft(v):
    n = len(v)
    out = []
    for k in range(n):
        s = 0.0
        for m in range(n):
            s = s + v[m] * cmath.exp(-2j * PI * ((k * m) % n) / n)
        out.append(s)
    return out


def _hil(v):
    """analytic signal of a list of reals"""
    n = len(v)
    V = _dft(v)
    w = [1.0] + [2.0] * ((n - 1) // 2) + ([1.0] if n % 2 == 0 and n > 1 else [])
    return _idft([a * b for a, b in zip(V, w + [0.0] * (n - len(w)))])


def _norm(mk, v):
    s = 0.0
    for x in v:
        s = s + (x * conj(x)).real
    return mk.np.sqrt(s)


def altes(mk, N, fmin=None, fmax=None, alpha=None):
    np = mk.np
    fn = mk.tftb("generators").altes
    kw = {}
    for n, v in (("fmin", fmin), ("fmax", fmax), ("alpha", alpha)):
        if v is not None:
            kw[n] = v
    y = fn(N, **kw)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    _unit(mk, y)
    a, b, A = kw.get("fmin", 0.05), kw.get("fmax", 0.5), kw.get("alpha", 300)
    lg = math.log(b / a) ** 2 / (8 * math.log(A))
    be = math.sqrt(2 * lg * math.log(A))
    t0 = N / (2 * math.sinh(be))
    v = []
    for k in range(N):
        r = math.log(math.exp(-be) + 2 * math.sinh(be) * k / N)
        v.append(math.exp(-r * r / (2 * lg)) * math.cos(2 * PI * t0 * math.sqrt(a * b) * math.exp(lg) * r))
    e = math.sqrt(sum(x * x for x in v))
    mk.eq(y, mk.array([x / e for x in v], "f"), "Altes signal")


def altes_sym(mk, N):
    """any band and attenuation: unit energy"""
    fn = mk.tftb("generators").altes
    a, b = mk.real("fmin", 0.02, 0.2), mk.real("fmax", 0.25, 0.5)
    A = mk.real("alpha", 10, 1000)
    y = fn(N, a, b, A)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    _unit(mk, y)


def klauder(mk, N, att=True, f=True):
    np = mk.np
    fn = mk.tftb("generators").klauder
    kw = {}
    a, f0 = 10.0, 0.2
    if att:
        a = kw["attenuation"] = mk.real("a", 0.5, 20)
    if f:
        f0 = kw["f0"] = mk.real("f0", 0.1, 0.45)
    y = fn(N, **kw)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    h = N // 2
    w = [0.0] * N
    for k in range(1, N):
        j = min(k, N - k)
        fr = 0.5 * j / h
        w[k] = np.exp(-2 * PI * a * fr) * np.exp((2 * PI * a * f0 - 0.5) * math.log(fr))
    x = _idft(w)
    x = [v.real for v in x[N - h:] + x[:N - h]]
    # normalised to unit energy
    mk.eq(y * _norm(mk, x), mk.array(x, "f"), "Klauder wavelet")
    _unit(mk, y)


def mexhat(mk, j):
    """nu in (1.5/j, 1.5/(j-1)): 2j+1 samples"""
    np = mk.np
    fn = mk.tftb("generators").mexhat
    lo, hi = 1.5 / j, min(0.5, 1.5 / (j - 1) if j > 1 else 0.5)
    nu = mk.real("nu", lo + 1e-4, hi - 1e-4) if j > 3 else 0.5
    h = fn(nu)
    mk.ok(shape_of(h) == (2 * j + 1,), "2 ceil(1.5/nu) + 1 samples")
    al = PI ** 2 * nu ** 2
    v = []
    for t in range(-j, j + 1):
        v.append(nu * math.sqrt(PI) / 2 * np.exp(-al * t * t) * (1 - 2 * al * t * t))
    mk.eq(h, mk.array(v, "f"), "Mexican hat")


def mexhat_default(mk):
    fn = mk.tftb("generators").mexhat
    h = fn()
    nu, al = 0.05, PI ** 2 * 0.05 ** 2
    mk.eq(h, mk.array([nu * math.sqrt(PI) / 2 * math.exp(-al * t * t) * (1 - 2 * al * t * t) for t in range(-30, 31)], "f"),
          "Mexican hat")


def gdpower(mk, N, deg, rate="sym", neg=False):
    np = mk.np
    fn = mk.tftb("generators").gdpower
    if rate == "sym":
        r = mk.real("r", -3, -0.25) if neg else mk.real("r", 0.25, 3)
        x, gpd, nu = fn(N, deg, r)
    else:
        r = 1.0
        x, gpd, nu = fn(N) if deg == 0 else fn(N, deg)
    L = int(math.ceil(N / 2.0))
    fr = [0.5 * (k + 1) / L for k in range(L)]
    mk.ok(shape_of(x) == (N,), "n_points samples")
    mk.eq(nu, mk.array(fr, "f"), "frequencies")
    _unit(mk, x)
    s = 0.0
    for v in x:
        s = s + v
    mk.eq(s, 0.0, "zero mean")
    t0 = N / 10.0
    if deg == 1:
        mk.eq(gpd, mk.array([float(N - 1)] * L, "f"), "group delay")
        return
    if deg == 0:
        d = r
    elif deg < 1 and deg > 0 or deg < 0:
        d = np.exp(math.log(N) * deg * r)
    else:
        d = N * 2.0 ** (deg - 1.0) * r
        t0 = 0.0
    mk.eq(gpd, mk.array([t0 + (N + 1.0 if neg else 0.0) + d * f ** (deg - 1.0) for f in fr], "f"), "group delay law")
    X = [0.0] * N
    for k, f in enumerate(fr):
        ph = d * math.log(f) if deg == 0 else d * (f ** deg / deg)
        X[k] = np.exp(-2j * PI * (t0 * f + ph)) * f ** ((deg - 2.0) / 6.0)
    X[0] = 0.0            # the mean is removed
    E = sum(fr[k] ** ((deg - 2.0) / 3.0) for k in range(1, L)) / N
    mk.eq(x * math.sqrt(E), mk.array(_idft(X), "c"), "spectrum: power-law amplitude, phase with the group delay law")


def _drawn(mk, n):
    return [mk.real("rnd%d" % i) for i in range(n)]


def _std(mk, d):
    n = len(d)
    m = 0.0
    for v in d:
        m = m + v
    m = m / n
    s = 0.0
    for v in d:
        s = s + (v - m) ** 2
    return s / n


def noise(mk, kind, N):
    """analytic, variance one over its power-of-two record, last n_points samples returned"""
    np = mk.np
    g = mk.tftb("generators")
    y = (g.noisecg if kind == "g" else g.noisecu)(N)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    if N <= 2:
        d = _drawn(mk, 2 * N)
        off, sc = (0.5, math.sqrt(6)) if kind == "u" else (0.0, math.sqrt(0.5))
        mk.eq(y, mk.array([((d[k] - off) + 1j * (d[N + k] - off)) * sc for k in range(N)], "c"), "scaled draws")
        return
    M = 1
    while M < N:
        M *= 2
    d = _drawn(mk, M)
    if kind == "u":
        d = [v - 0.5 for v in d]
    v = _std(mk, d)
    mk.assume(v > 1e-3)
    h = _hil(d)[M - N:]
    s = np.sqrt(2 * v)
    mk.eq(y * s, mk.array(h, "c"), "analytic signal of the draws over its standard deviation")


def dop(mk, N, tc=None, par="num"):
    np = mk.np
    fn = mk.tftb("generators").dopnoise
    if par == "num":
        fs, ft, D, v, c = 200.0, 60.0, 10.0, 70.0, 340.0
    else:
        fs, ft, D, v = mk.real("fs", 50, 400), mk.real("ft", 1, 20), mk.real("D", 1, 50), mk.real("v", 0, 90)
        c = 340.0
        mk.draws([0.3, 0.6, 0.2, 0.8, 0.9, 0.45, 0.11])
    kw = {} if tc is None else dict(time_center=tc)
    y, law = fn(N, fs, ft, D, v, **kw)
    mk.draws(None)
    mk.ok(shape_of(y) == (N,) and shape_of(law) == (N,), "n_points samples")
    t0 = N // 2 if tc is None else tc
    ref, rr = [], []
    for k in range(2 * N):
        t = (k + 1 - t0 - N) / fs
        r = np.sqrt(D * D + v * v * t * t)
        rr.append(r)
        ref.append((1 - v * v * t / r / c) * ft / fs)
    mk.eq(law, mk.array(ref[N:], "f"), "Doppler frequency law")
    if par != "num":
        return
    _unit(mk, y)
    x = _drawn(mk, 2 * N)
    s = [0.0] * (2 * N)
    for k in range(2, 2 * N):
        s[k] = x[k] - 0.81 * (x[k - 2] + s[k - 2]) + 1.8 * math.cos(2 * PI * ref[k]) * s[k - 1]
    h = _hil(s[N:])
    h = [a * (1.0 / math.sqrt(r)) for a, r in zip(h, rr[N:])]
    E = 0.0
    for a in h:
        E = E + (a * conj(a)).real
    mk.assume(E > 1e-3)
    mk.eq(y * np.sqrt(E), mk.array(h, "c"), "resonant noise over the square root of the distance")


def instances(tier):
    out = []
    for N in (1, 2, 3, 8, 33, 128):
        out.append(inst("altes", N=N))
    for N, a, b, A in [(16, 0.1, 0.45, 300), (33, 0.05, 0.4, 10000), (64, 0.1, 0.45, 50)]:
        out.append(inst("altes", N=N, fmin=a, fmax=b, alpha=A))
    out.append(inst("altes_sym", N=2))
    out.append(inst("altes_sym", N=5))
    for N in (4, 5, 6, 7, 8, 9):
        out.append(inst("klauder", N=N))
    for N in (16, 33, 128):
        out.append(inst("klauder", N=N, att=False, f=False))
    out.append(inst("klauder", N=8, att=False, f=True))
    out.append(inst("klauder", N=12, att=True, f=False))
    for j in (3, 4, 5, 8, 15, 30):
        out.append(inst("mexhat", j=j))
    out.append(inst("mexhat_default"))
    for N in (4, 5, 8, 9):
        for deg in (0.0, 0.5, 1.0, 2.0, 3.0, -0.5, -1.0, 1.5):
            out.append(inst("gdpower", N=N, deg=deg))
            out.append(inst("gdpower", N=N, deg=deg, rate="sym", neg=True))
    for N in (16, 33, 64):
        out.append(inst("gdpower", N=N, deg=0.0, rate="none"))
        out.append(inst("gdpower", N=N, deg=0.5, rate="none"))
    for k in ("u", "g"):
        for N in (1, 2, 3, 4, 5, 7, 8) + ((9, 15, 16, 17, 32, 33) if tier == "thorough" else (9, 16)):
            out.append(inst("noise", kind=k, N=N))
    for N in (2, 3, 4, 5) + ((6, 8, 12) if tier == "thorough" else (8,)):
        out.append(inst("dop", N=N))
    out.append(inst("dop", N=4, tc=1))
    out.append(inst("dop", N=3, tc=None, par="sym"))
    out.append(inst("dop", N=4, tc=3, par="sym"))
    return out


BOUNDS = ("noise: every outcome of the draws, 1..9,16 samples (thorough ..33); klauder: every attenuation in [0.5,20] and frequency, "
          "4..9 samples (concrete parameters up to 128); mexhat: every nu giving 7..61 samples; gdpower: every rate in +-[0.25,3], "
          "degrees -1..3, 4..9 samples; altes: default and selected parameters, unit energy for every band and attenuation; "
          "dopnoise: every draw, 2..5,8 samples; every speed, distance and frequency for its law")
OUTSIDE = "statistical quality of the noise generators; mexhat for nu exactly at a change of length"
