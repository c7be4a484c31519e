"""C01: short-time Fourier transform."""
from .lib import inst, conj, column, grid, sig, shape_of


def _spec(mk, x, w, n, T):
    N = len(x)
    lh = (len(w) - 1) // 2
    lim = min((n - 1) // 2, lh)
    cols = []
    for m in range(T):
        ker = {t: x[m + t] * conj(w[lh + t]) for t in range(-lim, lim + 1) if 0 <= m + t < N}
        cols.append(column(mk, ker, n))
    return grid(mk, cols)


def defn(mk, N, n, L, kind="c", wkind="c", ts=None):
    """every column is the windowed Fourier sum centred on its sample"""
    np = mk.np
    STFT = mk.tftb("processing.linear").ShortTimeFourierTransform
    x = sig(mk, N, kind)
    kw = {}
    if L is not None:
        w = sig(mk, L, wkind, "w")
        kw["fwindow"] = w
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.linspace(ts[0], ts[1], N)
    obj = STFT(x, **kw)
    tfr, t, f = obj.run()
    nn = N if n is None else n
    if L is None:
        w = obj.fwindow
        mk.ok(len(w) % 2 == 1, "default window has odd length")
    mk.ok(shape_of(tfr) == (nn, N), "shape")
    mk.eq(tfr, _spec(mk, x, w, nn, N), "stft")


def additive(mk, N, n, L):
    """linearity: STFT(a x + b y) = a STFT(x) + b STFT(y)"""
    STFT = mk.tftb("processing.linear").ShortTimeFourierTransform
    x, y = sig(mk, N), sig(mk, N, "c", "y")
    a, b = mk.cplx("a"), mk.cplx("b")
    w = sig(mk, L, "f", "w")
    T = [STFT(s, n_fbins=n, fwindow=w).run()[0] for s in (x, y, x * a + y * b)]
    mk.eq(T[2], T[0] * a + T[1] * b, "linear")


def column_vector(mk, N):
    """an (N, 1) column is treated as the N-sample signal"""
    STFT = mk.tftb("processing.linear").ShortTimeFourierTransform
    x = sig(mk, N)
    mk.eq(STFT(x.reshape((N, 1))).run()[0], STFT(x).run()[0], "column vector")


def instances(tier):
    out = []
    Ns = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]
    for N in Ns:
        out.append(inst("defn", N=N, n=None, L=None))
    for N, n, L in [(4, 4, 3), (5, 5, 5), (6, 6, 3), (7, 4, 5), (8, 6, 9), (8, 12, 5), (9, 9, 7), (6, 5, 11),
                    (8, 8, 4), (5, 3, 7), (6, 2, 3), (4, 1, 3), (10, 16, 7), (3, 8, 5), (7, 10, 1), (9, 8, 2),
                    (12, 9, 8)]:
        out.append(inst("defn", N=N, n=n, L=L, kind="c", wkind="c"))
    for N, n, L in [(5, 8, 3), (8, 8, 5), (6, 7, 5)]:
        out.append(inst("defn", N=N, n=n, L=L, kind="f", wkind="f"))
    for k, w in ["if", "ic", "fc", "fi", "ci", "ii"]:
        out.append(inst("defn", N=6, n=6, L=3, kind=k, wkind=w))
        out.append(inst("defn", N=5, n=8, L=5, kind=k, wkind=w))
    out.append(inst("defn", N=8, n=8, L=3, kind="c", wkind="f", ts=(0.0, 1.0)))
    out.append(inst("defn", N=5, n=6, L=3, kind="f", wkind="f", ts=(10.0, 12.5)))
    for N, n, L in [(4, 4, 3), (6, 8, 3), (7, 5, 5)]:
        out.append(inst("additive", N=N, n=n, L=L))
    for N in (3, 8):
        out.append(inst("column_vector", N=N))
    out.append(inst("defn", N=40, n=None, L=None, cost=9))
    out.append(inst("defn", N=33, n=16, L=9, kind="c", wkind="f", cost=9))
    for N, n, L in [(257, 4, 3), (600, 8, 7)]:
        out.append(inst("defn", N=N, n=n, L=L, cost=3))
    if tier == "thorough":
        for N in range(1, 25):
            for n in (N, N - 1, N + 3, max(1, N // 2)):
                if n < 1:
                    continue
                for L in (3, 4, 7, N | 1):
                    out.append(inst("defn", N=N, n=n, L=L))
        for N in (64, 100, 128):
            out.append(inst("defn", N=N, n=None, L=None, cost=90))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all complex/real/integer signals and all window values; signal lengths 1..9,12,16,33,40 and 257, 600 with few bins (quick), "
          "1..24,64,100,128 (thorough); n_fbins below, equal to and above the length, odd and even; "
          "window lengths 1..11 odd and even, and the default window")
OUTSIDE = "timestamps whose number differs from the number of samples"
