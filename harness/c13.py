"""C13: keyed signals (ASK, BPSK, FSK, QPSK) for every outcome of the random draws."""
import math
from .lib import inst, shape_of

PI = math.pi


def _args(mk, N, L, f, flt):
    kw = {}
    if L is not None:
        kw["n_comp"] = float(L) if flt else L
    fv = 0.25
    if f:
        fv = kw["f0"] = mk.real("f0", 0, 0.5)
    return kw, fv


def _steps(mk, v, N, L, name):
    """constant over each symbol of L samples"""
    for k in range(N):
        mk.eq(v[k], v[k - k % L], name)


def _in(mk, v, alphabet, name):
    np = mk.np
    c = False
    for a in alphabet:
        c = np.logical_or(c, np.abs(v - a) <= 1e-6)
    mk.ok(c, name)


def _carrier(mk, fv, N, off):
    np = mk.np
    return mk.array([np.exp(2j * PI * fv * (k - off)) for k in range(N)], "c")


def ask(mk, N, L=None, f=True):
    np = mk.np
    fn = mk.tftb("generators").anaask
    kw, fv = _args(mk, N, L, f, False)
    y, am = fn(N, **kw)
    mk.ok(shape_of(y) == (N,) and shape_of(am) == (N,), "n_points samples")
    _steps(mk, am, N, max(round(N / 2.0), 1) if L is None else L, "amplitude constant over a symbol")
    for k in range(N):
        mk.ok(np.logical_and(am[k] >= 0, am[k] < 1), "amplitude in [0, 1)")
    mk.eq(y, am * _carrier(mk, fv, N, 1), "amplitude times carrier")


def bpsk(mk, N, L=None, f=True):
    fn = mk.tftb("generators").anabpsk
    kw, fv = _args(mk, N, L, f, False)
    y, am = fn(N, **kw)
    mk.ok(shape_of(y) == (N,) and shape_of(am) == (N,), "n_points samples")
    L = max(round(N / 5.0), 1) if L is None else L
    _steps(mk, am, N, L, "sign constant over a symbol")
    for k in range(0, N, L):
        _in(mk, am[k], (-1, 1), "sign +1 or -1")
    mk.eq(y, am * _carrier(mk, fv, N, 1), "sign times carrier")


def qpsk(mk, N, L=None, f=True, flt=False):
    np = mk.np
    fn = mk.tftb("generators").anaqpsk
    kw, fv = _args(mk, N, L, f, flt)
    y, pm = fn(N, **kw)
    mk.ok(shape_of(y) == (N,) and shape_of(pm) == (N,), "n_points samples")
    L = max(round(N / 5.0), 1) if L is None else L
    _steps(mk, pm, N, L, "phase constant over a symbol")
    for k in range(0, N, L):
        _in(mk, pm[k], (0, PI / 2, PI, 3 * PI / 2), "phase among the four")
    mk.eq(y, mk.array([np.exp(1j * pm[k]) for k in range(N)], "c") * _carrier(mk, fv, N, 1), "phase times carrier")


def fsk(mk, N, L=None, M=None, flt=False):
    np = mk.np
    fn = mk.tftb("generators").anafsk
    kw = {}
    if L is not None:
        kw["n_comp"] = float(L) if flt else L
    if M is not None:
        kw["Nbf"] = float(M) if flt else M
    y, law = fn(N, **kw)
    mk.ok(shape_of(y) == (N,) and shape_of(law) == (N,), "n_points samples")
    L = max(int(round(N / 5.0)), 1) if L is None else L
    M = 4 if M is None else M
    _steps(mk, law, N, L, "frequency constant over a symbol")
    for k in range(0, N, L):
        _in(mk, law[k], [0.25 + 0.25 * (j / M - (M - 1) / (2.0 * M)) for j in range(M)], "frequency among the %d" % M)
    ph, s = [], 0.0
    for k in range(N):
        s = s + law[k]
        ph.append(np.exp(2j * PI * s))
    mk.eq(y, mk.array(ph, "c"), "the phase accumulates the frequency law")


def alphabet(mk, kind, M=4):
    """every symbol of the alphabet occurs for some outcome of the draws"""
    g = mk.tftb("generators")
    if kind == "fsk":
        al = [0.25 + 0.25 * (j / M - (M - 1) / (2.0 * M)) for j in range(M)]
        fn = lambda: g.anafsk(3, 2, M)[1]
    elif kind == "qpsk":
        al = [0, PI / 2, PI, 3 * PI / 2]
        fn = lambda: g.anaqpsk(3, 2)[1]
    else:
        al = [-1, 1]
        fn = lambda: g.anabpsk(3, 2)[1]
    K = len(al)
    seen = set()
    for j in range(K):
        mk.draws([(j + 0.4) / K, 0.1])
        v = float(fn()[0])
        # every draw of the same K-th part of [0, 1) gives the same symbol: the symbols are equally likely
        mk.draws([mk.real("u%d" % j, (j + 1e-3) / K, (j + 1 - 1e-3) / K), 0.1])
        mk.eq(fn()[0], v, "equally likely symbols")
        seen |= set(i for i, a in enumerate(al) if abs(a - v) < 1e-9)
    mk.draws(None)
    mk.ok(len(seen) == K, "all symbols occur")


def two(mk, kind, N, L):
    """successive symbols are drawn independently: both orders of two symbols occur"""
    g = mk.tftb("generators")
    fn = {"ask": g.anaask, "bpsk": g.anabpsk, "qpsk": g.anaqpsk, "fsk": g.anafsk}[kind]
    out = []
    for u in ([0.1, 0.9], [0.9, 0.1]):
        mk.draws(u)
        out.append(fn(N, L)[1])
    mk.draws(None)
    for k in range(N):
        j = k // L
        mk.ok(bool(out[0][k] < out[1][k]) if j % 2 == 0 else bool(out[0][k] > out[1][k]), "symbol follows its own draw")


def instances(tier):
    out = []
    cases = [(8, 2), (8, 3), (5, 5), (6, 7), (9, 4), (12, 5), (1, 1), (16, 4), (7, 1)]
    big = [(33, 8), (64, 16)]
    if tier == "thorough":
        cases = [(N, L) for N in range(1, 17) for L in range(1, N + 2)] + [(64, 10), (100, 30)]
        big = [(33, 8), (64, 16), (128, 32), (100, 30)]
    for N, L in cases + big:
        for fn in ("ask", "bpsk", "qpsk", "fsk"):
            out.append(inst(fn, N=N, L=L))
    for N in (1, 2, 3, 5, 8, 13):
        for fn in ("ask", "bpsk", "qpsk"):
            out.append(inst(fn, N=N, L=None, f=False))
        out.append(inst("fsk", N=N))
    for N, L in [(8, 3), (12, 4)]:
        out.append(inst("qpsk", N=N, L=L, f=True, flt=True))
        out.append(inst("fsk", N=N, L=L, M=5, flt=True))
        for M in (2, 3, 8):
            out.append(inst("fsk", N=N, L=L, M=M))
    out.append(inst("fsk", N=5, L=2, M=1))
    for k in ("bpsk", "qpsk"):
        out.append(inst("alphabet", kind=k))
    for M in (2, 4, 5):
        out.append(inst("alphabet", kind="fsk", M=M))
    for k in ("ask", "bpsk", "qpsk", "fsk"):
        out.append(inst("two", kind=k, N=8, L=3))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("every outcome of the uniform draws (symbolic in [0,1)), every carrier frequency in [0,1/2]; 1..16,33,64 samples "
          "(thorough: all 1..16 with every symbol length, 64, 100, 128), symbol lengths 1..16, 1..8 FSK frequencies")
OUTSIDE = "the quality of the generator of the uniform draws"
