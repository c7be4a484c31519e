"""C15: analytic pulse, step and singularity."""
import math
from .lib import inst, shape_of
from .c14 import _hil

PI = math.pi


def _analytic(mk, y, N):
    np = mk.np
    Y = np.fft.fft(y)
    for k in range(N // 2 + 1, N):
        mk.eq(Y[k], 0.0, "no negative frequencies")
    X = np.fft.fft(np.real(y))
    mk.eq(Y[0], X[0], "mean kept")
    for k in range(1, (N + 1) // 2):
        mk.eq(Y[k], 2 * X[k], "positive frequencies doubled")


def pulse(mk, N, ti="int"):
    fn = mk.tftb("generators").anapulse
    t = {"int": lambda: mk.integer("ti", -1, N + 1), "real": lambda: mk.real("ti", -1, N + 1),
         "none": lambda: round(N / 2.0)}[ti]()
    y = fn(N) if ti == "none" else fn(N, t)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    mk.eq(mk.np.real(y), mk.array([mk.np.asarray(t == k) * 1.0 for k in range(N)], "f"), "unit impulse at ti")
    _analytic(mk, y, N)


def step(mk, N, ti="int"):
    fn = mk.tftb("generators").anastep
    t = {"int": lambda: mk.integer("ti", -1, N + 1), "real": lambda: mk.real("ti", -1, N + 1),
         "none": lambda: round(N / 2.0)}[ti]()
    y = fn(N) if ti == "none" else fn(N, t)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    mk.eq(mk.np.real(y), mk.array([mk.np.asarray(t < k) * 1.0 for k in range(N)], "f"), "unit step after ti")
    _analytic(mk, y, N)


def sing_pos(mk, N, h, t0=None):
    """h > 0: the maximum of |t - t0|^h minus |t - t0|^h"""
    np = mk.np
    fn = mk.tftb("generators").anasing
    t = mk.real("t0", 0, N) if t0 == "sym" else (N / 2.0 if t0 is None else t0)
    hv = mk.real("h", 0.25, 3) if h == "sym" else h
    y = fn(N, h=hv) if t0 is None else fn(N, t, hv)
    mk.ok(shape_of(y) == (N,), "n_points samples")
    v = []
    for k in range(N):
        d = np.abs(k - t)
        if h == "sym":
            v.append(0.0 if d == 0 else np.exp(hv * math.log(d)))
        elif h == 2:
            v.append(d * d)
        elif h == 1:
            v.append(d)
        else:
            v.append(np.sqrt(d))
    m = np.max(mk.array(v, "f"))
    mk.eq(np.real(y), mk.array([m - q for q in v], "f"), "cusp of exponent h at t0")
    _analytic(mk, y, N)


def sing_neg(mk, N, h, t0=None):
    """h <= 0: spectrum f^(-1-h) on the positive frequencies, centred on t0, maximum scaled to 1, minimum moved to 0"""
    np = mk.np
    fn = mk.tftb("generators").anasing
    t = mk.real("t0", 1, N) if t0 == "sym" else (N / 2.0 if t0 is None else t0)
    y = fn(N, t, h) if t0 is not None else (fn(N) if h == 0 else fn(N, h=h))
    mk.ok(shape_of(y) == (N,), "n_points samples")
    r = []
    for m in range(N):
        s = 0.0
        for k in range(1, N // 2):
            s = s + (k / float(N)) ** (-1 - h) * np.cos(2 * PI * k * (m - (t - 1)) / N)
        r.append(s / N)
    r = mk.array(r, "f")
    M = np.max(r)
    mk.assume(M > 1e-3)
    z = np.real(y)
    mk.eq((z - z[0]) * M, r - r[0], "singularity of exponent h at t0, maximum scaled to 1")
    mk.eq(np.min(z), 0.0, "minimum 0")
    _analytic(mk, y, N)


def instances(tier):
    out = []
    for N in (1, 2, 3, 4, 5, 8, 9, 16) + ((24, 33) if tier == "thorough" else ()):
        for fn in ("pulse", "step"):
            out.append(inst(fn, N=N))
            out.append(inst(fn, N=N, ti="none"))
    for N in (1, 4, 5, 8):
        for fn in ("pulse", "step"):
            out.append(inst(fn, N=N, ti="real"))
    for N in (32, 33, 64):
        out.append(inst("pulse", N=N, ti="none"))
        out.append(inst("step", N=N, ti="none"))
    for N, h, t0 in [(4, 1, "sym"), (5, 2, "sym"), (4, 2, None), (6, "sym", 2), (5, "sym", None), (4, 0.5, "sym"),
                     (9, 0.5, None), (16, 1, 5.5), (33, 2, 7)]:
        out.append(inst("sing_pos", N=N, h=h, t0=t0))
    for N, h, t0 in [(4, 0.0, "sym"), (5, -0.5, "sym"), (8, -1.0, "sym"), (8, 0.0, None), (9, -0.5, 3),
                     (16, 0.0, 5), (33, -0.5, None), (64, 0.0, None)]:
        out.append(inst("sing_neg", N=N, h=h, t0=t0))
    return out


BOUNDS = ("every position of the pulse, step and (4..8 samples) singularity, every strength in [0.25,3]; 1..16 samples "
          "(thorough ..33), concrete positions up to 64")
OUTSIDE = "singularities of fewer than four samples (h <= 0), whose spectrum is empty"
