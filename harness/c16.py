"""C16: time and frequency localisation are the moments of |x|^2 and |X|^2."""
import cmath
import math
from .lib import inst, sig, conj, energy

PI = math.pi


def _moments(mk, p, ax, got, name):
    """got = (mean, spread) of the distribution p over ax"""
    m, w = got
    E = 0.0
    S1 = 0.0
    for a, v in zip(ax, p):
        E = E + v
        S1 = S1 + a * v
    mk.eq(m * E, S1, name + ": centre of gravity")
    mk.ok(w >= 0, name + ": spread is not negative")
    S2 = 0.0
    for a, v in zip(ax, p):
        S2 = S2 + (a - m) * (a - m) * v
    mk.eq(w * w * E, 4 * PI * S2, name + ": spread is 2 sqrt(pi) standard deviations")
    mk.le(min(ax), m, name + ": centre not before the first value")
    mk.le(m, max(ax), name + ": centre not after the last value")


def _freqs(N):
    return [(k if k < (N + 1) // 2 else k - N) / float(N) for k in range(N)]


def _spec(x):
    N = len(x)
    out = []
    for k in range(N):
        s = 0.0
        for t in range(N):
            s = s + x[t] * cmath.exp(-2j * PI * ((k * t) % N) / N)
        out.append((s * conj(s)).real)
    return out


def time(mk, N, kind="c", col=None):
    f = mk.tftb("processing").loctime
    x = sig(mk, N, kind)
    mk.assume(energy(x) > 0.05)
    y = x if col is None else x.reshape((N, 1) if col else (1, N))
    _moments(mk, [(v * conj(v)).real for v in x], list(range(N)), f(y), "time")


def freq(mk, N, kind="c", col=None):
    f = mk.tftb("processing").locfreq
    x = sig(mk, N, kind)
    mk.assume(energy(x) > 0.05)
    y = x if col is None else x.reshape((N, 1) if col else (1, N))
    _moments(mk, _spec(x), _freqs(N), f(y), "frequency")


def covariance(mk, M, s, N):
    """delay moves the centre and keeps the spread; so do scaling and conjugation"""
    f = mk.tftb("processing").loctime
    x = mk.cvec("x", M)
    mk.assume(energy(x) > 0.05)
    c = mk.cplx("c")
    mk.assume((c * conj(c)).real > 0.01)
    z = [0.0] * N
    a = mk.array(list(x) + z[M:], "c")
    b = mk.array(z[:s] + [c * v for v in x] + z[s + M:], "c")
    ma, wa = f(a)
    mb, wb = f(b)
    mk.eq(mb - ma, float(s), "centre moves with the signal")
    mk.eq(wb * wb, wa * wa, "spread does not change")


def modulated(mk, N, q):
    """the energy spectrum shifts with the carrier: moments of the rotated spectrum"""
    f = mk.tftb("processing").locfreq
    x = mk.cvec("x", N)
    mk.assume(energy(x) > 0.05)
    y = mk.array([x[t] * cmath.exp(2j * PI * ((q * t) % N) / N) for t in range(N)], "c")
    S = _spec(x)
    _moments(mk, [S[(k - q) % N] for k in range(N)], _freqs(N), f(y), "modulated")


def weak(mk, N, kind="c"):
    """two samples of any amplitude, however small: the moments do not depend on the scale"""
    P = mk.tftb("processing")
    a = mk.real("a", 1e-9, 1)
    z = [0.0] * N
    x = list(z)
    x[0], x[N - 1] = a, 2 * a
    m, w = P.loctime(mk.array(x, kind))
    mk.eq(m, 0.8 * (N - 1), "time: centre of gravity")
    mk.eq(w * w, 4 * PI * 0.16 * (N - 1) ** 2, "time: spread")
    y = mk.array([a * cmath.exp(2j * PI * t / N) for t in range(N)], "c")
    m, w = P.locfreq(y)
    mk.eq(m, _freqs(N)[1], "frequency of the tone")


def tone(mk, N, k):
    """a tone on the grid of any amplitude is localised at its frequency with no spread"""
    f = mk.tftb("processing").locfreq
    c = mk.cplx("c")
    mk.assume((c * conj(c)).real > 0.01)
    x = mk.array([c * cmath.exp(2j * PI * ((k * t) % N) / N) for t in range(N)], "c")
    m, w = f(x)
    mk.eq(m, _freqs(N)[k], "frequency of the tone")
    mk.eq(w * w, 0.0, "no spread")


def impulse(mk, N):
    g = mk.tftb("processing").loctime
    c = mk.cplx("c")
    mk.assume((c * conj(c)).real > 0.01)
    for t0 in range(N):
        m, w = g(mk.array([c if t == t0 else 0.0 for t in range(N)], "c"))
        mk.eq(m, float(t0), "instant of the impulse")
        mk.eq(w * w, 0.0, "no spread")


def matrix(mk, n, m):
    """a matrix is refused"""
    P = mk.tftb("processing")
    x = mk.cvec("x", n * m).reshape((n, m))
    mk.ok(mk.raises(lambda: P.loctime(x), TypeError), "loctime refuses a matrix")
    mk.ok(mk.raises(lambda: P.locfreq(x), TypeError), "locfreq refuses a matrix")


def instances(tier):
    out = []
    th = tier == "thorough"
    for N in (1, 2, 3, 4, 5, 8, 9, 16) + ((24, 33, 64) if th else ()):
        for kind in "cfi":
            out.append(inst("time", N=N, kind=kind))
    for N in (1, 2, 3, 4, 5):
        for kind in "cfi":
            out.append(inst("freq", N=N, kind=kind))
    for N in (3, 4):
        for col in (True, False):
            out.append(inst("time", N=N, col=col))
            out.append(inst("freq", N=N, col=col))
    for M, s, N in [(2, 1, 4), (3, 2, 5), (3, 4, 8)] + ([(5, 6, 12)] if th else []):
        out.append(inst("covariance", M=M, s=s, N=N))
    for N, q in [(3, 1), (4, 1), (5, 3)] + ([(6, 2), (8, 3)] if th else []):
        out.append(inst("modulated", N=N, q=q))
    for N in (4, 5, 8) + ((16, 33) if th else ()):
        for k in range(N):
            out.append(inst("tone", N=N, k=k))
        out.append(inst("impulse", N=N))
        out.append(inst("weak", N=N))
    out += [inst("matrix", n=2, m=2), inst("matrix", n=3, m=2)]
    return out


BOUNDS = "every complex, real or integer signal of energy above 0.05; 1..16 samples in time (thorough 64), 1..8 in frequency (thorough 16)"
OUTSIDE = "the zero signal (moments undefined); longer records"
