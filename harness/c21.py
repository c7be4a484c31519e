"""C21: integer and array utilities, inverse Zak transform, derivative of a window."""
import cmath
import math
from .lib import inst, shape_of, conj

PI = math.pi


def _u(mk):
    return mk.tftb("utils")


def pow2(mk, lo, hi, kind="i"):
    """the least exponent whose power of two is at least n"""
    f = _u(mk).nextpow2
    n = mk.integer("n", lo, hi) if kind == "i" else mk.real("n", lo, hi)
    k = mk.whole(f(n))
    mk.ok(2 ** k >= n - 1e-9, "2^k >= n")
    mk.ok(2 ** (k - 1) < n + 1e-9, "no smaller exponent")


def div(mk, lo, hi):
    """two factors whose product is n, none of n's divisors lying between them"""
    f = _u(mk).divider
    n = mk.integer("n", lo, hi)
    a, b = f(n)
    a, b = mk.int(a), mk.int(b)
    mk.ok(a * b == n, "product")
    small, big = (a, b) if bool(a <= b) else (b, a)
    for d in range(1, hi + 1):
        if bool(d > small) and bool(d * d <= n):
            mk.ok(n % d != 0, "no factor closer to the square root")
    mk.ok(small * small <= n, "smaller factor at most the square root")


def odd(mk, kind, lo, hi):
    """the result is odd and at most one away"""
    f = _u(mk).nearest_odd
    n = mk.integer("n", lo, hi) if kind == "i" else mk.real("n", lo, hi)
    r = f(n)
    k = mk.int(r)
    mk.ok(r == k, "integer")
    mk.ok(k % 2 == 1, "odd")
    mk.ok(mk.np.abs(r - n) <= 1 + 1e-9, "at most one away")
    if kind == "i":
        mk.ok(mk.np.logical_or(n % 2 == 0, r == n), "odd numbers unchanged")


def odds(mk, n, lo, hi, kind="f"):
    """element-wise on an array or list"""
    np = mk.np
    f = _u(mk).nearest_odd
    x = mk.rvec("x", n, lo, hi) if kind == "f" else mk.ivec("x", n, lo, hi)
    s = mk.snapshot(x)
    y = f(list(x) if kind == "l" else x)
    mk.ok(shape_of(y) == (n,), "same length")
    for k in range(n):
        mk.ok(y[k] % 2 == 1, "odd")
        mk.ok(np.abs(y[k] - x[k]) <= 1 + 1e-9, "at most one away")
    mk.eq(x, s, "argument unchanged")


def mod(mk, n, N=None, kind="i", lo=-20, hi=20):
    """congruent to x, in 1..N (0 excluded, N included)"""
    np = mk.np
    f = _u(mk).modulo
    x = mk.ivec("x", n, lo, hi) if kind == "i" else mk.rvec("x", n, lo, hi)
    s = mk.snapshot(x)
    y = f(x, N)
    mk.ok(shape_of(y) == (n,), "same length")
    for k in range(n):
        mk.ok(y[k] > 0, "positive")
        mk.ok(y[k] <= N + 1e-9, "at most N")
        q = (y[k] - x[k]) / float(N)
        mk.ok(np.abs(q - np.round(q)) <= 1e-6, "congruent")
    mk.eq(x, s, "argument unchanged")


def modulo_complex(mk, n, N, real):
    """real and imaginary parts are reduced separately; some elements may be real"""
    np = mk.np
    f = _u(mk).modulo
    re, im = mk.ivec("x", n, -9, 9), mk.ivec("y", n, -9, 9)
    z = [re[k] * 1.0 + 1j * (0.0 if k in real else im[k] * 1.0) for k in range(n)]
    x = mk.array(z, "c")
    s = mk.snapshot(x)
    y = f(x, N)
    mk.ok(shape_of(y) == (n,), "same length")
    for k in range(n):
        for a, b in ((y[k].real, re[k]), (y[k].imag, 0 if k in real else im[k])):
            mk.ok(a >= -1e-9, "not negative")
            mk.ok(a <= N + 1e-9, "at most N")
            q = (a - b) / float(N)
            mk.ok(np.abs(q - np.round(q)) <= 1e-6, "congruent")
    mk.eq(x, s, "argument unchanged")


def linear_yes(mk, n):
    """arithmetic progressions are linear"""
    f = _u(mk).is_linear
    a, b = mk.real("a", -50, 50), mk.real("b", -5, 5)
    if not mk.symbolic:
        b = round(b, 3)
        a = round(a, 3)
    mk.ok(f(mk.array([a + b * k for k in range(n)], "f")), "linear")


def linear_no(mk, n, i, dec=None):
    """a kink beyond the decimals is not"""
    f = _u(mk).is_linear
    a, b = mk.real("a", -50, 50), mk.real("b", -5, 5)
    e = mk.real("e", 2.1 * 10.0 ** -(5 if dec is None else dec), 3)
    v = [a + b * k + (e if k > i else 0.0) for k in range(n)]
    r = f(mk.array(v, "f")) if dec is None else f(mk.array(v, "f"), dec)
    mk.ok(mk.np.logical_not(r), "not linear")


def zak(mk, n, m):
    """column k holds the spectrum of the samples k, k + m, k + 2m...; the energy is kept"""
    f = _u(mk).izak
    D = mk.cvec("x", n * m).reshape((n, m))
    s = f(D)
    mk.ok(shape_of(s) == (n * m,), "n m samples")
    ref = [0.0] * (n * m)
    E = 0.0
    for k in range(m):
        for j in range(n):
            v = 0.0
            for q in range(n):
                v = v + D[q, k] * cmath.exp(2j * PI * ((q * j) % n) / n)
            ref[k + j * m] = v / math.sqrt(n)
            E = E + (D[j, k] * conj(D[j, k])).real
    mk.eq(s, mk.array(ref, "c"), "inverse transform")
    e = 0.0
    for v in s:
        e = e + (v * conj(v)).real
    mk.eq(e, E, "energy")


def window(mk, L, sym=False):
    """central differences inside; symmetric windows: odd, vanishing outside"""
    f = mk.tftb("processing.utils").derive_window
    h = L // 2
    if sym:
        w = [mk.real("h%d" % i, -2, 2) for i in range(h + 1)]
        w = w[:h] + [w[h]] + w[:h][::-1]
    else:
        w = [mk.real("h%d" % i, -2, 2) for i in range(L)]
    W = mk.array(w, "f")
    s = mk.snapshot(W)
    d = f(W)
    mk.eq(W, s, "window unchanged")
    mk.ok(shape_of(d) == (L,), "same length")
    for k in range(1, L - 1):
        mk.eq(d[k], (w[k + 1] - w[k - 1]) * 0.5, "central difference")
    if sym and L > 1:
        mk.eq(d[0], (w[0] + w[1]) * 0.5, "first sample")
        mk.eq(d[L - 1], (w[0] + w[1]) * -0.5, "last sample")
        for k in range(L):
            mk.eq(d[k], -d[L - 1 - k], "odd")
    if sym and L == 1:
        mk.eq(d[0], 0.0, "single sample")


def spectrum(mk, N, kind="c"):
    """energy spectrum, zero frequency in the middle"""
    f = mk.tftb("processing.utils").get_spectrum
    x = mk.cvec("x", N) if kind == "c" else mk.rvec("x", N)
    S = f(x)
    ref = []
    for k in range(-(N // 2), N - N // 2):
        v = 0.0
        for t in range(N):
            v = v + x[t] * cmath.exp(-2j * PI * ((k * t) % N) / N)
        ref.append((v * conj(v)).real)
    mk.eq(S, mk.array(ref, "f"), "energy spectrum")


def instances(tier):
    th = tier == "thorough"
    out = []
    for lo, hi in [(1, 40), (100, 140), (1000, 1030), (65530, 65540)] + ([(1, 300), (1 << 20, (1 << 20) + 50)] if th else []):
        out.append(inst("pow2", lo=lo, hi=hi))
    out.append(inst("pow2", lo=0.2, hi=60, kind="f"))
    for lo in range(1, 121 if th else 61, 15):
        out.append(inst("div", lo=lo, hi=lo + 14))
    out.append(inst("odd", kind="i", lo=-1000, hi=1000))
    out.append(inst("odd", kind="f", lo=-50, hi=50))
    for n in (1, 2, 3):
        for kind in "fil":
            out.append(inst("odds", n=n, lo=-9, hi=30, kind=kind))
    for n, N in [(1, 2), (3, 3), (4, 5), (2, 10), (3, 1)]:
        out.append(inst("mod", n=n, N=N))
        out.append(inst("mod", n=n, N=N, kind="f"))
    for n, N, r in [(1, 3, []), (2, 4, []), (2, 3, [0]), (3, 5, [1, 2]), (2, 2, [0, 1])]:
        out.append(inst("modulo_complex", n=n, N=N, real=r))
    for n in (2, 3, 5, 9):
        out.append(inst("linear_yes", n=n))
    for n, i in [(3, 0), (3, 1), (5, 2), (8, 6)]:
        out.append(inst("linear_no", n=n, i=i))
        out.append(inst("linear_no", n=n, i=i, dec=2))
    for n, m in [(1, 1), (2, 2), (3, 2), (4, 3), (5, 5), (1, 4), (4, 1)] + ([(8, 8), (16, 3)] if th else []):
        out.append(inst("zak", n=n, m=m))
    for L in (1, 3, 5, 7, 9, 17) + ((33, 65) if th else ()):
        out.append(inst("window", L=L))
        out.append(inst("window", L=L, sym=True))
    for N in (1, 2, 3, 4, 5, 8):
        out.append(inst("spectrum", N=N))
        out.append(inst("spectrum", N=N, kind="f"))
    return out


BOUNDS = ("nextpow2 on every integer of the listed ranges up to 65540 and every real in [0.2, 60]; divider for every n up to 60 (thorough 120); nearest_odd for every "
          "|n| <= 1000; modulo for |x| <= 20, complex integers with parts of at most 9; izak for every array up to 5x5 (thorough 16x3); windows of 1..17 samples (thorough 65)")
OUTSIDE = "larger integers; the end values of the derivative of an asymmetric window"
