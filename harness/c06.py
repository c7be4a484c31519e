"""C06: covariance of the representations."""
import cmath
import math
from .lib import inst, conj, sig, grid


def _run(mk, name, x, n, L):
    np = mk.np
    co = mk.tftb("processing.cohen")
    if name == "stft":
        return mk.tftb("processing.linear").ShortTimeFourierTransform(x, n_fbins=n, fwindow=_w(mk, L)).run()[0]
    if name == "spectrogram":
        return co.Spectrogram(x, n_fbins=n, fwindow=_w(mk, L)).run()[0]
    if name == "wv":
        return co.WignerVilleDistribution(x, n_fbins=n).run()[0]
    if name == "pwv":
        return co.PseudoWignerVilleDistribution(x, n_fbins=n, fwindow=_w(mk, L)).run()[0]
    if name == "spwv":
        return co.smoothed_pseudo_wigner_ville(x, freq_bins=n, twindow=mk.array([0.5, 1.0, 0.75], "f"),
                                               fwindow=_w(mk, L))
    if name == "mh":
        return co.MargenauHillDistribution(x, n_fbins=n).run()[0]
    if name == "pmh":
        return co.PseudoMargenauHillDistribution(x, n_fbins=n, fwindow=_w(mk, L)).run()[0]
    raise ValueError(name)


def _w(mk, L):
    return mk.array([1.0 / (1.0 + 0.3 * abs(i - L // 2) + 0.05 * (i % 3)) for i in range(L)], "f")


def shift(mk, name, M, pad, s, n, L=3, kind="c"):
    """delaying a signal by s samples delays its representation by s columns"""
    np = mk.np
    y = sig(mk, M, kind)
    z = lambda k: np.zeros(k, dtype={"c": complex, "f": float, "i": int}[kind])  # noqa: E731
    x0 = np.concatenate([z(pad), y, z(pad)])
    x1 = np.concatenate([z(pad + s), y, z(pad - s)])
    N = M + 2 * pad
    edge = (L - 1) // 2 + 1
    T0, T1 = _run(mk, name, x0, n, L), _run(mk, name, x1, n, L)
    lo, hi = edge, N - s - edge
    mk.eq(T1[:, lo + s:hi + s], T0[:, lo:hi], name)


def modulate(mk, name, N, q, n, L=3, kind="c"):
    """multiplying by exp(2 i pi q t / n) moves every line by q bins (2q for the Wigner-Ville family)"""
    np = mk.np
    x = sig(mk, N, kind)
    e = mk.array([cmath.exp(2j * math.pi * q * t / n) for t in range(N)], "c")
    T0, T1 = _run(mk, name, x, n, L), _run(mk, name, x * e, n, L)
    d = 2 * q if name in ("wv", "pwv", "spwv") else q
    R = np.roll(T0, d, axis=0)
    if name == "stft":
        R = R * e
    mk.eq(T1, R, name)


def phase(mk, name, N, n, L=3, kind="c"):
    """a constant factor c multiplies a quadratic representation by |c|^2, the STFT by c"""
    x = sig(mk, N, kind)
    c = mk.cplx("c") if kind == "c" else mk.real("c")
    T0, T1 = _run(mk, name, x, n, L), _run(mk, name, x * c, n, L)
    mk.eq(T1, T0 * (c if name == "stft" else (c * conj(c)).real), name)


ALL = ("stft", "spectrogram", "wv", "pwv", "spwv", "mh", "pmh")


def instances(tier):
    out = []
    for nm in ALL:
        for M, pad, s, n in [(3, 4, 2, 11), (2, 5, 3, 16), (4, 3, 1, 10)]:
            out.append(inst("shift", name=nm, M=M, pad=pad, s=s, n=n))
        if nm != "mh":
            out.append(inst("shift", name=nm, M=3, pad=4, s=2, n=6))
            out.append(inst("modulate", name=nm, N=7, q=1, n=4))
        for N, q, n in [(5, 1, 5), (6, 2, 8), (8, 3, 8), (7, 2, 9)]:
            out.append(inst("modulate", name=nm, N=N, q=q, n=n))
        for N, n in [(5, 5), (6, 8)]:
            out.append(inst("phase", name=nm, N=N, n=n))
        for k in "fi":
            out.append(inst("shift", name=nm, M=3, pad=4, s=2, n=11, kind=k))
            out.append(inst("phase", name=nm, N=5, n=6, kind=k))
            out.append(inst("modulate", name=nm, N=6, q=1, n=8, kind=k))
    if tier == "thorough":
        for nm in ALL:
            for M in range(1, 7):
                for pad in (3, 5, 7):
                    for s in (1, 2, 3):
                        for n in (M + 2 * pad, M + 2 * pad + 3):
                            out.append(inst("shift", name=nm, M=M, pad=pad, s=s, n=n, L=5 if pad > 3 else 3))
            for N in range(2, 13):
                for q in (1, 2, 5):
                    out.append(inst("modulate", name=nm, N=N, q=q, n=N + 1, L=5))
    seen = {}
    for i in out:
        seen.setdefault(i["name"], i)
    return list(seen.values())


BOUNDS = ("all complex signals of 1..6 samples inside a zero-padded record of 10..20 samples, shifts 1..3 (time "
          "shift); all complex signals of 2..12 samples, 1..5 bins (modulation); columns whose window lies inside "
          "the record")
OUTSIDE = "fractional shifts"
