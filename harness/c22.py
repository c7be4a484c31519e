"""C22: affine distributions (scalogram, Bertrand, Unterberger, D-Flandrin)."""
import math
import numpy as N_
import scipy.interpolate
from .lib import inst, shape_of, conj

PI = math.pi
CLS = {"bertrand": "BertrandDistribution", "unterberger": "UnterbergerDistribution",
       "dflandrin": "DFlandrinDistribution", "scalogram": "Scalogram"}


def _cls(mk, name):
    return getattr(mk.tftb("processing.affine"), CLS[name])


def _analytic(x):
    """spectrum of the analytic signal of a real one"""
    n = len(x)
    out = []
    for k in range(n):
        g = 1.0 if k == 0 or 2 * k == n else 2.0 if 2 * k < n else 0.0
        s = 0.0
        if g:
            for t in range(n):
                a = -2 * PI * ((k * t) % n) / n
                s = s + x[t] * (g * complex(math.cos(a), math.sin(a)))
        out.append(s)
    return out


def _band(Z, fmin, fmax):
    """energy of bins fmin (n - 2) .. fmax (n - 2)"""
    n = len(Z)
    e = 0.0
    for k in range(int(N_.round(fmin * (n - 2))), int(N_.round(fmax * (n - 2))) + 1):
        if k < n:
            e = e + (Z[k] * conj(Z[k])).real
    return e


def _integral(W, ts, f):
    """trapezoidal rule of rows W[k][j] over the instants and the frequencies"""
    r = []
    for w in W:
        s = 0.0
        for j in range(len(ts) - 1):
            s = s + (w[j] + w[j + 1]) * (0.5 * (ts[j + 1] - ts[j]))
        r.append(s)
    t = 0.0
    for k in range(len(f) - 1):
        t = t + (r[k] + r[k + 1]) * (0.5 * (f[k + 1] - f[k]))
    return t


def _umax(name, r):
    lo, hi = 0.0, 50.0
    fn = {"bertrand": lambda u: math.exp(u),
          "unterberger": lambda u: (math.sqrt(1 + u * u / 4) + u / 2) / (math.sqrt(1 + u * u / 4) - u / 2),
          "dflandrin": lambda u: ((1 + u / 4) / (1 - u / 4)) ** 2}[name]
    if name == "dflandrin":
        hi = 4 - 1e-12
    for _ in range(200):
        mid = (lo + hi) / 2
        if fn(mid) < r:
            lo = mid
        else:
            hi = mid
    return lo


def _half(name, n, fmin, fmax):
    """half the number of lags of the quadratic distributions"""
    m = (n + n % 2) // 2
    um = _umax(name, fmax / fmin)
    teq = m / (fmax * um)
    lim = n if name == "bertrand" else 2 * m
    return m + (int(N_.round(2 * m * m / teq - m)) + 1 if teq < lim else 0)


def _voices(name, n, fmin, fmax):
    """default number of voices: smallest power of two holding the sampling bound of the Mellin transform"""
    if name == "scalogram":
        return n
    R = 2.0 * (fmax - fmin) / (fmax + fmin)
    q = (fmax - fmin) * (2 * _half(name, n, fmin, fmax) - 1) * (1 + 2 / R) * math.log((2 + R) / (2 - R))
    k = int(math.ceil(q / 2))
    k -= k % 2
    v = 1
    while v < k:
        v *= 2
    return v


def _kernel(name, n, fmin, fmax, nv, form="A"):
    """K[k, t, a, b]: the distribution of x at (f_k, t) is sum x_a x_b K before normalisation"""
    f = fmin * (fmax / fmin) ** (N_.arange(nv) / (nv - 1.0))
    lq = math.log(fmax / fmin) / (nv - 1)
    m = (n + n % 2) // 2
    um = _umax(name, fmax / fmin)
    m1 = _half(name, n, fmin, fmax)
    # spectrum on the geometric grid, its Mellin transform
    S = N_.exp(-2j * PI * N_.outer(f, N_.arange(n) - m))
    S = N_.vstack((S, N_.zeros((nv, n))))
    M = N_.roll(N_.fft.ifft(S, axis=0), nv, axis=0)
    beta = (N_.arange(2 * nv) / float(nv) - 1) / (2 * lq)
    sgn = 0.5 if name == "bertrand" else -0.5
    E = N_.exp(-2j * PI * N_.outer(N_.arange(nv), N_.arange(2 * nv) - nv) / (2 * nv))

    def dilate(g):
        return E.dot((g ** sgn * N_.exp(-2j * PI * beta * math.log(g)))[:, None] * M)
    A = N_.zeros((2 * m1, nv, n, n), dtype=complex)
    for j in range(2 * m1):
        u = (j - m1) * um / m1
        a = math.sqrt(1 + u * u / 4)
        if name == "bertrand":
            if j == m1:
                g1 = g2 = 1.0
            else:
                g1, g2 = [u / 2 * math.exp(s * u / 2) / math.sinh(u / 2) for s in (-1, 1)]
        elif name == "unterberger":
            g1, g2 = a - u / 2, a + u / 2
        else:
            g1, g2 = (1 - u / 4) ** 2, (1 + u / 4) ** 2
        X1, X2 = dilate(g1), dilate(g2)
        A[j] = X1[:, :, None] * N_.conj(X2[:, None, :]) * f[:, None, None]
        if form != "A" and name == "unterberger":
            A[j] /= a
    c = m1 - 1 - N_.arange(2 * m1)
    F = N_.exp(2j * PI * N_.outer(c, N_.arange(2 * m1) - m1) / (2 * m1)) / (2 * m1)
    Y = N_.real(N_.einsum("sj,jkab->ksab", F, A))
    half = (n - 1) / 2.0
    gam = N_.linspace(-f[-1] * half, f[-1] * half, 2 * m1)
    K = N_.zeros((nv, n, n, n))
    for k in range(nv):
        i = N_.nonzero(N_.abs(gam) <= f[k] * half * (1 + 1e-12))[0]
        xi = (N_.arange(n) - half - (1 if name == "unterberger" else 0)) * f[k]
        y = Y[k][i].reshape(len(i), -1)
        B = N_.array([scipy.interpolate.splev(xi, scipy.interpolate.splrep(gam[i], e)) for e in N_.eye(len(i))]).T
        K[k] = B.dot(y).reshape(n, n, n)
    return f, K


def _quad(K, x):
    """rows of x' K x"""
    n = len(x)
    sq = {}
    for a in range(n):
        for b in range(a, n):
            sq[a, b] = x[a] * x[b]
    out = []
    for k in range(K.shape[0]):
        row = []
        for t in range(K.shape[1]):
            s = 0.0
            for (a, b), v in sq.items():
                s = s + v * float(K[k, t, a, b] + (K[k, t, b, a] if a != b else 0.0))
            row.append(s)
        out.append(row)
    return out


def _signal(mk, n, sym, base=None):
    """sym: positions of the symbolic samples (None: all)"""
    v = []
    for i in range(n):
        if sym is None or i in sym:
            v.append(mk.real("x%d" % i))
        else:
            v.append([1.0, -0.5, 0.25, 0.75, -1.0, 0.5, -0.25][(base or 0) + i - 7 * (((base or 0) + i) // 7)])
    return v


def _axes(mk, out, ts, fr, fmin, fmax, nv):
    tfr, t, f = out[:3]
    mk.ok(shape_of(tfr) == (nv, len(ts)), "voices by instants")
    mk.eq(t, mk.array(ts, "i"), "instants")
    mk.eq(f, mk.array([fmin * (fmax / float(fmin)) ** (k / (nv - 1.0)) for k in range(nv)], "f"), "geometric frequency axis")


def bilinear(mk, name, n, fmin, fmax, nv, sym=None, form=None, base=None):
    """definition and energy of Bertrand, Unterberger and D-Flandrin distributions"""
    x = _signal(mk, n, sym, base)
    opt = {} if nv is None else {"n_voices": nv}
    nv = nv or _voices(name, n, fmin, fmax)
    f, K = _kernel(name, n, fmin, fmax, nv, form or "A")
    ref = _quad(K, x)
    I = _integral(ref, list(range(n)), f)
    mk.assume(I * I > 0.0004)
    kw = {} if form is None else {"form": form}
    X = mk.array(x, "f")
    s = mk.snapshot(X)
    out = _cls(mk, name)(X, fmin=fmin, fmax=fmax, **opt, **kw).run()
    mk.eq(X, s, "signal unchanged")
    _axes(mk, out, list(range(n)), f, fmin, fmax, nv)
    E = _band(_analytic(x), fmin, fmax)
    tfr = out[0]
    for k in range(nv):
        for t in range(n):
            mk.eq(tfr[k, t] * I * nv, ref[k][t] * E, "proportional to its definition")
    mk.eq(_integral([[tfr[k, t] for t in range(n)] for k in range(nv)], list(range(n)), f) * nv, E, "energy of the band")


def scalogram(mk, n, fmin, fmax, nv, wave=None, sym=None, ts=None, kind="f", base=None):
    """continuous wavelet transform with the Morlet (Mexican hat) wavelet, squared"""
    x = _signal(mk, n, sym, base)
    opt = {} if nv is None else {"n_voices": nv}
    nv = nv or n
    mean = 0.0
    for v in x:
        mean = mean + v
    mean = mean / n
    xc = [v - mean for v in x]
    Z = _analytic(xc)
    z = []
    for t in range(n):
        s = 0.0
        for k in range(n):
            if 2 * k <= n:
                a = 2 * PI * ((k * t) % n) / n
                s = s + Z[k] * complex(math.cos(a) / n, math.sin(a) / n)
        z.append(s)
    f = [fmin * (fmax / float(fmin)) ** (k / (nv - 1.0)) for k in range(nv)]
    w0 = math.sqrt(n) if wave is None else wave
    tt = list(range(n)) if ts is None else ts
    W = []
    for k in range(nv):
        a = fmax / f[k]
        if w0:
            h = w0 * a
            H = int(round(h))
            ha = [math.exp(-2 * math.log(10) / (h * h) * j * j) * complex(math.cos(2 * PI * f[k] * j), math.sin(2 * PI * f[k] * j))
                  for j in range(-H, H + 1)]
        else:
            H = int(math.ceil(1.5 / f[k]))
            al = (PI * f[k]) ** 2
            ha = [(math.sqrt(PI) / 2) * f[k] * math.exp(-al * j * j) * (1 - 2 * al * j * j) for j in range(-H, H + 1)]
        row = []
        for t in tt:
            s = 0.0
            for j in range(-H, H + 1):
                if 0 <= t - j < n:
                    s = s + z[t - j] * (ha[j + H] / math.sqrt(a))
            row.append(s)
        W.append(row)
    P = [[(v * conj(v)).real for v in r] for r in W]
    I = _integral(P, tt, f)
    mk.assume(I > 0.02)
    kw = {}
    if wave is not None:
        kw["waveparams"] = wave
    if ts is not None:
        kw["timestamps"] = mk.array(ts, "i")
    X = mk.array(x, "f")
    snap = mk.snapshot(X)
    out = _cls(mk, "scalogram")(X, fmin=fmin, fmax=fmax, **opt, **kw).run()
    mk.eq(X, snap, "signal unchanged")
    _axes(mk, out, tt, f, fmin, fmax, nv)
    tfr, wt = out[0], out[3]
    mk.ok(shape_of(wt) == (nv, len(tt)), "one coefficient per cell")
    E = _band(Z, fmin, fmax)
    for k in range(nv):
        for j in range(len(tt)):
            mk.eq(wt[k, j], W[k][j] + 0j, "wavelet transform")
            mk.eq(tfr[k, j] * I * nv, P[k][j] * E, "squared modulus, normalised")
    mk.eq(_integral([[tfr[k, j] for j in range(len(tt))] for k in range(nv)], tt, f) * nv, E, "energy of the band")


def homogeneous(mk, name, n, fmin, fmax, nv, sym):
    """scaling the signal scales the distribution by the square"""
    x = _signal(mk, n, sym)
    c = mk.real("c", 0.2, 3)
    if name != "scalogram":
        f, K = _kernel(name, n, fmin, fmax, nv)
        I = _integral(_quad(K, x), list(range(n)), f)
        mk.assume(I * I > 0.0004)
    C = _cls(mk, name)
    a = C(mk.array(x, "f"), fmin=fmin, fmax=fmax, n_voices=nv).run()[0]
    b = C(mk.array([c * v for v in x], "f"), fmin=fmin, fmax=fmax, n_voices=nv).run()[0]
    d = C(mk.array([-1 * v for v in x], "f"), fmin=fmin, fmax=fmax, n_voices=nv).run()[0]
    mk.eq(b, a * (c * c), "quadratic")
    mk.eq(d, a * 1.0, "even")


def band(mk, n, tones):
    """the default band holds every frequency with more than a hundredth of the largest energy"""
    np = mk.np
    amp = {k: mk.real("a%d" % k, 0.01, 3) for k in tones}
    x = []
    for t in range(n):
        s = 0.0
        for k in tones:
            s = s + amp[k] * math.cos(2 * PI * ((k * t) % n) / n)
        x.append(s)
    X = mk.array(x, "f")
    P = {k: amp[k] * amp[k] * (4.0 if k == 0 else 1.0) for k in tones}
    big = P[tones[0]]
    for k in tones[1:]:
        big = np.where(P[k] > big, P[k], big)
    d = _cls(mk, "scalogram")(X, n_voices=4)
    mk.ok(d.fmin >= 0.01 - 1e-9, "lower bound of the band")
    mk.ok(d.fmax <= 0.5 + 1e-9, "upper bound of the band")
    for k in tones:
        sig = P[k] > big * 0.0101
        mk.ok(np.logical_or(np.logical_not(sig), d.fmin <= max(k / float(n), 0.01) + 1e-9), "band starts before every significant frequency")
        mk.ok(np.logical_or(np.logical_not(sig), d.fmax >= k / float(n) - 1e-9), "band ends after every significant frequency")
        mk.ok(np.logical_or(np.logical_not(P[k] >= big), d.fmin > k / float(n) - 0.05 * (len(tones) == 1) - (len(tones) > 1)), "band is tight")


def instances(tier):
    th = tier == "thorough"
    out = []
    for name in ("bertrand", "unterberger", "dflandrin"):
        for n, a, b, nv in [(8, 0.2, 0.25, 4), (9, 0.2, 0.25, 4)]:
            out.append(inst("bilinear", name=name, n=n, fmin=a, fmax=b, nv=nv))
        for n, a, b, nv, s in [(13, 0.2, 0.25, 5, [5, 6, 7]), (16, 0.1, 0.4, 6, [7, 8]), (12, 0.1, 0.4, 7, [3, 11]), (14, 0.15, 0.35, 5, [4, 9])]:
            out.append(inst("bilinear", name=name, n=n, fmin=a, fmax=b, nv=nv, sym=s))
        for n, a, b, s in [(14, 0.1, 0.4, [6, 7]), (20, 0.15, 0.35, [8, 10]), (12, 0.1, 0.4, [2, 7])]:
            out.append(inst("bilinear", name=name, n=n, fmin=a, fmax=b, nv=None, sym=s))
        out.append(inst("homogeneous", name=name, n=9, fmin=0.2, fmax=0.25, nv=4, sym=[3, 4]))
    for form in "AB":
        out.append(inst("bilinear", name="unterberger", n=8, fmin=0.2, fmax=0.25, nv=4, form=form))
    for n, a, b, nv, w in [(8, 0.1, 0.4, 4, None), (9, 0.2, 0.25, 3, None), (8, 0.1, 0.4, 4, 2), (7, 0.15, 0.35, 5, 1.4), (6, 0.15, 0.35, 3, 0), (8, 0.15, 0.35, 3, None), (9, 0.25, 0.45, 3, 1.5), (8, 0.28, 0.4, 3, None)]:
        out.append(inst("scalogram", n=n, fmin=a, fmax=b, nv=nv, wave=w))
    out.append(inst("scalogram", n=16, fmin=0.1, fmax=0.4, nv=6, sym=[2, 7, 8]))
    out.append(inst("scalogram", n=12, fmin=0.1, fmax=0.4, nv=6, sym=[0, 11], ts=[1, 4, 7, 10]))
    out.append(inst("homogeneous", name="scalogram", n=9, fmin=0.2, fmax=0.25, nv=4, sym=[3, 4]))
    out.append(inst("scalogram", n=10, fmin=0.1, fmax=0.4, nv=None, sym=[0, 4, 5]))
    for n, tones in [(8, [2]), (16, [3, 5]), (16, [1, 4, 6]), (40, [0, 7]), (64, [5, 20, 27])]:
        out.append(inst("band", n=n, tones=tones))
    return out


BOUNDS = ("every real signal of 6..9 samples (scalogram and quadratic distributions), 12..20 samples with 2 or 3 symbolic samples; 3..7 voices, and the default number of voices; "
          "bands (0.1, 0.4), (0.15, 0.35), (0.2, 0.25); integral of the raw distribution away from zero; default band for 1..3 tones of any amplitude up to 64 samples")
OUTSIDE = "chosen instants for the quadratic distributions; explicit wavelets; the time reference of the quadratic distributions is taken as implemented"
