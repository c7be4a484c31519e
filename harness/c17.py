"""C17: instantaneous frequency and group delay."""
import cmath
import math
from .lib import inst, shape_of, conj, energy, sig

PI = math.pi


def ifreq(mk, N, t=None, shape=None, kind="c"):
    """2 f is the phase advance over two samples, as a number of turns in [0, 1]"""
    np = mk.np
    f = mk.tftb("processing").inst_freq
    x = mk.cvec("x", N) if kind == "c" else mk.rvec("x", N)
    ts = list(range(2, N)) if t is None else list(t)
    for i in ts:
        for j in (i, i - 2):
            mk.assume((x[j] * conj(x[j])).real > 0.01)
    y = x if shape is None else x.reshape((N, 1) if shape else (1, N))
    if t is None:
        fn, tt = f(y)
    else:
        a = mk.array(ts, "i")
        fn, tt = f(y, a if shape is None else a.reshape((len(ts), 1) if shape else (1, len(ts))))
    mk.eq(tt, mk.array(ts, "i"), "instants returned")
    mk.ok(shape_of(fn) == (len(ts),), "one value per instant")
    for k, i in enumerate(ts):
        z = x[i] * conj(x[i - 2])
        r = np.sqrt((z * conj(z)).real)
        mk.eq(np.exp(4j * PI * fn[k]) * r, z + 0j, "phase advance over two samples")
        mk.le(0.0, fn[k], "not negative")
        mk.le(fn[k], 0.5, "at most one half")


def tone(mk, N):
    """exact for a tone of any frequency in (0, 1/2), amplitude and phase"""
    np = mk.np
    f = mk.tftb("processing").inst_freq
    v = mk.real("f", 0.01, 0.49)
    c = mk.cplx("c")
    mk.assume((c * conj(c)).real > 0.01)
    x = mk.array([c * np.exp(2j * PI * v * t) for t in range(N)], "c")
    fn, tt = f(x)
    for k in range(N - 2):
        mk.eq(np.exp(4j * PI * fn[k]), np.exp(4j * PI * v), "frequency of the tone")
        mk.le(0.0, fn[k], "not negative")
        mk.le(fn[k], 0.5, "at most one half")


def _delay(mk, x, freqs):
    """first moment of the signal over its spectrum, None where the spectrum may vanish"""
    out = []
    N = len(x)
    for fr in freqs:
        n = d = 0.0
        for t in range(N):
            e = x[t] * cmath.exp(-2j * PI * fr * t)
            n = n + (t + 1) * e
            d = d + e
        D = (d * conj(d)).real
        mk.assume(D > 0.01)
        out.append((n / d).real)
    return out


def delay(mk, N, fnorm=None, shape=None, kind="c"):
    np = mk.np
    f = mk.tftb("processing").group_delay
    x = sig(mk, N, kind)
    if fnorm is None:
        fr = [k / float(N) for k in range(-(N // 2), N - N // 2)]
    else:
        fr = fnorm
    ref = _delay(mk, x, fr)
    y = x if shape is None else x.reshape((N, 1) if shape else (1, N))
    gd = f(y) if fnorm is None else f(y, mk.array(fnorm, "f"))
    mk.ok(shape_of(gd) == (len(fr),), "one value per frequency")
    for k, r in enumerate(ref):
        keep = np.logical_and(r >= 1, r <= N + 3)
        mk.eq(gd[k], np.where(keep, r, 0.0), "moment of the signal over its spectrum, zero outside [1, n + 3]")


def impulse(mk, N, t0, fnorm=None):
    """an impulse of any amplitude is delayed by its position (samples count from 1) at every frequency"""
    f = mk.tftb("processing").group_delay
    c = mk.cplx("c")
    mk.assume((c * conj(c)).real > 0.01)
    x = mk.array([c if t == t0 else 0.0 for t in range(N)], "c")
    if fnorm is None:
        gd = f(x)
    else:
        fr = [mk.real("f%d" % i, -0.5, 0.5) for i in range(fnorm)]
        gd = f(x, mk.array(fr, "f"))
    for v in gd:
        mk.ok(mk.np.abs(v - (t0 + 1)) <= 1e-6, "group delay of the impulse")


def matrix(mk, n, m):
    P = mk.tftb("processing")
    x = mk.cvec("x", n * m).reshape((n, m))
    mk.ok(mk.raises(lambda: P.inst_freq(x), TypeError), "inst_freq refuses a matrix")
    mk.ok(mk.raises(lambda: P.group_delay(x), TypeError), "group_delay refuses a matrix")
    y = mk.cvec("y", 6)
    t = mk.array([2, 3, 4, 5], "i").reshape((2, 2))
    mk.ok(mk.raises(lambda: P.inst_freq(y, t), TypeError), "inst_freq refuses a matrix of instants")


def instances(tier):
    th = tier == "thorough"
    out = []
    for N in (3, 4, 5, 8) + ((16, 33) if th else ()):
        out.append(inst("ifreq", N=N))
    out.append(inst("ifreq", N=6, kind="f"))
    for N, t in [(6, [2]), (6, [5, 3]), (8, [7, 7, 2])]:
        out.append(inst("ifreq", N=N, t=t))
    out += [inst("ifreq", N=5, t=[2, 4], shape=True), inst("ifreq", N=5, t=[2, 4], shape=False), inst("ifreq", N=4, shape=True)]
    for N in (3, 4, 8) + ((16,) if th else ()):
        out.append(inst("tone", N=N))
    for N in (1, 2, 3, 4, 5, 6, 8) + ((9, 12) if th else ()):
        out.append(inst("delay", N=N))
    for N, fr in [(3, [0.1]), (4, [0.2, -0.3]), (2, [0.0, 0.25]), (5, [0.37, -0.5, 0.11])] + ([(5, [0.1, 0.37])] if th else []):
        out.append(inst("delay", N=N, fnorm=fr))
    for k in "fi":
        out.append(inst("delay", N=4, kind=k))
        out.append(inst("delay", N=3, fnorm=[0.1, -0.4], kind=k))
    out += [inst("delay", N=3, shape=True), inst("delay", N=3, shape=False)]
    for N in (1, 4, 5, 8):
        for t0 in sorted(set([0, N // 2, N - 1])):
            out.append(inst("impulse", N=N, t0=t0))
            out.append(inst("impulse", N=N, t0=t0, fnorm=2))
    out.append(inst("matrix", n=2, m=3))
    return out


BOUNDS = ("every signal whose modulus (spectrum, for the group delay) exceeds 0.1 where it is divided; 3..8 samples for the frequency "
          "(thorough 33), 1..6,8 for the delay (thorough 12); tones of every frequency in [0.01, 0.49], impulses at every frequency")
OUTSIDE = "zeros of the signal or spectrum; values of the group delay within 1e-6 of the cut-offs"
