"""C23: Gabor representation: analysis by the dual window, exact reconstruction."""
import cmath
import math
from .lib import inst, shape_of, conj, sig

PI = math.pi


def _place(N, nc, q, w):
    """synthesis window on the record, first sample of the record last by half a record (fftshift)"""
    nh = len(w)
    al = int(round((2.0 * N / nc - 1 - nh) / (2 * q)))
    st = int(round((N - (nh - 1)) / 2.0)) - al
    h = [0.0] * N
    for i, v in enumerate(w):
        h[st - 1 + i] = v
    s = N // 2
    return [h[(t - s) % N] for t in range(N)]


def _check(mk, N, nc, q, x, w, res, full=True):
    tfr, dgr, gam = res
    mb, m, nb = N // nc, q * N // nc, nc // q
    mk.ok(shape_of(dgr) == (m, nc), "frequencies by times")
    mk.ok(shape_of(tfr) == (m, nc), "frequencies by times")
    mk.ok(shape_of(gam) == (N,), "dual window as long as the signal")
    s = N // 2
    for n in range(nc):
        for k in range(m):
            mk.eq(tfr[k, n], (dgr[k, n] * conj(dgr[k, n])).real, "squared modulus of the coefficients")
            if full:
                v = 0.0
                for t in range(N):
                    v = v + x[t] * (gam[(t - s - n * mb) % N] * cmath.exp(-2j * PI * ((k * nb * t) % N) / N))
                mk.eq(dgr[k, n], v, "coefficients are products with the shifted dual window")
    h = _place(N, nc, q, w)
    for t in range(N):
        v = 0.0
        for n in range(nc):
            e = h[(t - n * mb) % N]
            if not isinstance(e, float) or e:
                c = 0.0
                for k in range(m):
                    c = c + dgr[k, n] * cmath.exp(2j * PI * ((k * nb * t) % N) / N)
                v = v + c * e
        mk.eq(v, x[t] + 0j, "reconstruction")


def _win(kind, nh):
    if kind == "gauss":
        return [math.exp(math.log(0.005) * (2.0 * i / (nh - 1) - 1) ** 2) for i in range(nh)]
    if kind == "skew":
        return [1.0 / (1 + (i - nh // 2) ** 2) + 0.03 * i for i in range(nh)]
    if kind == "tiny":
        return [1e-5 * v for v in _win("skew", nh)]
    if kind == "huge":
        return [1e4 * v for v in _win("skew", nh)]
    return [1.0] * nh


def signal(mk, N, nc, q, nh, win="gauss", kind="c"):
    """every signal, a given window"""
    f = mk.tftb("processing.linear").gabor
    x = sig(mk, N, kind)
    w = _win(win, nh)
    s = mk.snapshot(x)
    W = mk.array(w, "f")
    r = f(x, nc, q, W)
    mk.eq(x, s, "signal unchanged")
    mk.eq(W, mk.array(w, "f"), "window unchanged")
    _check(mk, N, nc, q, x, w, r)


def window(mk, N, nc, q, nh):
    """every window with one dominant sample per residue modulo the time step, a given signal"""
    f = mk.tftb("processing.linear").gabor
    x = [complex(((3 * t) % 7) / 3.0 - 1, ((5 * t) % 11) / 5.0 - 1) for t in range(N)]
    mb = N // nc
    w = [mk.real("w%d" % i, 0.6, 1.0) if i < mb else mk.real("w%d" % i, -0.5 / nh, 0.5 / nh) for i in range(nh)]
    r = f(mk.array(x, "c"), nc, q, mk.array(w, "f"))
    _check(mk, N, nc, q, x, w, r)


def default(mk, N, nc, q):
    """default window, number of times and oversampling"""
    f = mk.tftb("processing.linear").gabor
    x = mk.cvec("x", N)
    nh = nc if nc % 2 else nc + 1
    w = _win("gauss", nh)
    e = math.sqrt(sum(v * v for v in w))
    _check(mk, N, nc, q, x, [v / e for v in w], f(x))


def refused(mk, N):
    f = mk.tftb("processing.linear").gabor
    x = mk.cvec("x", N)
    for nh in (2, 4, 6):
        w = mk.rvec("w%d_" % nh, nh)
        mk.ok(mk.raises(lambda: f(x, 4, 2, w), ValueError), "window of even length refused")


def instances(tier):
    th = tier == "thorough"
    out = []
    for N, nc, q, nh in [(16, 4, 2, 5), (16, 8, 2, 3), (16, 8, 4, 5), (8, 4, 2, 3), (24, 6, 3, 7), (15, 5, 1, 3), (9, 3, 1, 3), (16, 4, 4, 5),
                         (27, 9, 3, 5), (32, 8, 2, 9)] + ([(32, 16, 4, 9), (36, 6, 2, 7), (30, 6, 3, 9), (64, 16, 4, 17)] if th else []):
        for w in ("gauss", "skew"):
            out.append(inst("signal", N=N, nc=nc, q=q, nh=nh, win=w))
    for N, nc, q, nh in [(8, 4, 2, 3), (8, 4, 1, 3), (12, 4, 2, 3), (9, 3, 1, 3), (8, 2, 1, 5)]:
        out.append(inst("window", N=N, nc=nc, q=q, nh=nh))
    for w in ("tiny", "huge"):
        out.append(inst("signal", N=16, nc=4, q=2, nh=5, win=w))
        out.append(inst("signal", N=9, nc=3, q=1, nh=3, win=w))
    for k in "fi":
        out.append(inst("signal", N=16, nc=8, q=2, nh=5, win="skew", kind=k))
    out.append(inst("default", N=16, nc=4, q=2))
    out.append(inst("default", N=30, nc=5, q=1)) if th else None
    out.append(inst("refused", N=16))
    return out


BOUNDS = ("every complex signal of 8..32 samples (thorough 64) for 20 combinations of times, oversampling and window (amplitudes 1e-5..1e4); every window of 3..5 taps with one "
          "dominant tap per residue, for a fixed signal")
OUTSIDE = "windows which do not generate a frame (vanishing Zak transform)"
