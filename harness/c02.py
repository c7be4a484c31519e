"""C02: spectrogram."""
from .lib import inst, conj, column, grid, sig, shape_of, energy


def _win(mk, L, wkind):
    w = sig(mk, L, wkind, "w")
    lh = (L - 1) // 2
    mk.assume((w[lh] * conj(w[lh])).real >= 0.01)
    return w


def _cols(mk, x, w, n, ts):
    N = len(x)
    lh = (len(w) - 1) // 2
    lim = min((n - 1) // 2, lh)
    for t in ts:
        taus = [u for u in range(-lim, lim + 1) if 0 <= t + u < N]
        ker = {u: x[t + u] * conj(w[lh + u]) for u in taus}
        q = 0.0
        for u in taus:
            q = q + (w[lh + u] * conj(w[lh + u])).real
        yield ker, q


def defn(mk, N, n, L, kind="c", wkind="f", ts=None):
    np = mk.np
    Spec = mk.tftb("processing.cohen").Spectrogram
    x = sig(mk, N, kind)
    kw = {}
    if L is not None:
        w = _win(mk, L, wkind)
        kw["fwindow"] = w
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.array(list(ts))
    obj = Spec(x, **kw)
    tfr, t, f = obj.run()
    nn = N if n is None else n
    tt = list(range(N)) if ts is None else list(ts)
    if L is None:
        w = obj.fwindow
    mk.ok(not np.iscomplexobj(tfr), "real valued")
    mk.ok(shape_of(tfr) == (nn, len(tt)), "shape")
    cols, pars = [], []
    for ker, q in _cols(mk, x, w, nn, tt):
        c = column(mk, ker, nn)
        cols.append([(v * conj(v)).real / q for v in c])
        e = 0.0
        for v in ker.values():
            e = e + (v * conj(v)).real
        pars.append(e / q)
    mk.eq(tfr, grid(mk, cols, "f"), "squared modulus of the normalised windowed spectrum")
    mk.eq(np.sum(tfr, axis=0) / nn, mk.array(pars, "f"), "energy of the windowed segment at each instant")


def window_scale(mk, N, n, L):
    """scaling the window changes nothing; scaling the signal scales by |c|^2"""
    Spec = mk.tftb("processing.cohen").Spectrogram
    x = sig(mk, N)
    w = _win(mk, L, "f")
    a = mk.real("a", 0.5, 4)
    c = mk.cplx("c")
    T0 = Spec(x, n_fbins=n, fwindow=w).run()[0]
    mk.eq(Spec(x, n_fbins=n, fwindow=w * a).run()[0], T0, "window scale")
    mk.eq(Spec(x * c, n_fbins=n, fwindow=w).run()[0], T0 * (c * conj(c)).real, "signal scale")


def instances(tier):
    out = []
    for N in [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16]:
        out.append(inst("defn", N=N, n=None, L=None))
    for N, n, L in [(4, 4, 3), (5, 5, 5), (6, 6, 3), (7, 4, 5), (8, 12, 5), (6, 9, 7), (6, 5, 11), (7, 7, 4),
                    (5, 3, 7), (6, 2, 3), (4, 1, 3), (8, 10, 3), (3, 8, 5), (7, 10, 1), (7, 8, 2)]:
        out.append(inst("defn", N=N, n=n, L=L, kind="c", wkind="f", cost=2))
    for N, n, L, k, wk in [(5, 8, 3, "f", "f"), (5, 5, 3, "c", "c"), (6, 6, 5, "f", "c"), (5, 6, 3, "i", "f"), (5, 5, 5, "i", "c"), (4, 6, 3, "f", "i"), (5, 5, 3, "c", "i"), (4, 4, 3, "i", "i")]:
        out.append(inst("defn", N=N, n=n, L=L, kind=k, wkind=wk, cost=2))
    for N, n, L, ts in [(8, 8, 3, (0, 2, 4, 6)), (6, 8, 3, (5, 1, 3)), (7, 6, 5, (3,)), (8, 16, None, (1, 4, 7)),
                        (9, None, None, (0, 8))]:
        out.append(inst("defn", N=N, n=n, L=L, kind="c", wkind="f", ts=ts))
    for N, n, L, ts in [(8, 8, 7, (6, 1, 3)), (6, 7, 9, (4, 1)), (5, 5, 5, (4, 0, 4, 2))]:
        out.append(inst("defn", N=N, n=n, L=L, kind="c", wkind="f", ts=ts))
    for N, n, L in [(5, 6, 3), (6, 5, 3)]:
        out.append(inst("window_scale", N=N, n=n, L=L))
    out.append(inst("defn", N=32, n=None, L=None, cost=9))
    for N, n, L, ts in [(257, 4, 3, None), (600, 8, 7, (0, 255, 256, 257, 511, 512, 599)), (128, None, None, (0, 64, 127))]:
        out.append(inst("defn", N=N, n=n, L=L, ts=ts, cost=3))
    if tier == "thorough":
        for N in range(2, 17):
            for n in (N, N - 1, N + 3, max(1, N // 2)):
                out.append(inst("defn", N=N, n=n, L=None))
                for L in (3, 4, 7):
                    out.append(inst("defn", N=N, n=n, L=L, cost=3))
        for N in (48, 64):
            out.append(inst("defn", N=N, n=None, L=None, cost=90))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all signals and all windows whose centre sample has modulus >= 0.1; signal lengths 1..9,12,16,32, 128 and 257, 600 with few bins "
          "(quick), up to 64 (thorough); n_fbins below, equal to and above the length, odd and even; window "
          "lengths 1..11 odd and even and the default window; contiguous, strided, unordered and single instants")
OUTSIDE = "instants outside the signal; windows that vanish at their centre"
