"""C20: ideal representation, Hough transform, Friedman density, ridges."""
import math
from .lib import inst, shape_of

PI = math.pi


def ideal(mk, K, T, n=None, ts=None):
    """one in the cells nearest to the laws, zero elsewhere"""
    np = mk.np
    f = mk.tftb("processing").ideal_tfr
    law = [[mk.real("f%d_%d" % (i, t), 0, 0.5) for t in range(T)] for i in range(K)]
    A = mk.array([v for r in law for v in r], "f").reshape((K, T))
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = mk.array(ts, "i")
    tfr, t, fr = f(A, **kw)
    n = T if n is None else n
    ts = list(range(T)) if ts is None else ts
    mk.ok(shape_of(tfr) == (n, len(ts)), "bins by instants")
    mk.eq(t, mk.array(ts, "i"), "instants")
    mk.eq(fr, mk.array([0.5 * k / n for k in range(n)], "f"), "frequency axis")
    for c, ti in enumerate(ts):
        for k in range(n):
            hit = miss = None
            for i in range(K):
                d = np.abs(law[i][ti] * (2 * (n - 1)) - k)
                h, m = d < 0.5 - 1e-6, d > 0.5 + 1e-6
                hit = h if hit is None else np.logical_or(hit, h)
                miss = m if miss is None else np.logical_and(miss, m)
            mk.ok(np.logical_or(np.logical_not(hit), tfr[k, c] == 1), "one on the law")
            mk.ok(np.logical_or(np.logical_not(miss), tfr[k, c] == 0), "zero off the laws")
            mk.ok(np.logical_or(tfr[k, c] == 0, tfr[k, c] == 1), "zero or one")


def _geometry(X, Y, m, n):
    """cells certainly / possibly receiving each pixel"""
    rmax = math.sqrt(X * X + Y * Y) / 2.0
    dr, dt = rmax / (m - 1.0), 2 * PI / n
    xc = (X + 1) // 2 if X % 2 else X // 2
    yc = (Y + 1) // 2 if Y % 2 else Y // 2
    out = {}
    for i in range(X):
        for j in range(Y):
            x, y = i + 1 - xc, j + 1 - yc
            for a in range(n):
                th = a * dt
                rho = x * math.cos(th) - y * math.sin(th)
                if rho < -1e-9 or rho > rmax + 1e-9:
                    continue
                q = max(rho, 0.0) / dr
                cand = set([int(math.floor(q + 0.5 - 1e-9)), int(math.floor(q + 0.5 + 1e-9))])
                cand = set(b for b in cand if b < m)
                sure = len(cand) == 1 and (rho > 1e-9 or x == 0 and y == 0) and rho < rmax - 1e-9
                for b in cand:
                    out.setdefault((b, a), []).append(((i, j), sure))
    return rmax, dr, dt, out


def hough(mk, X, Y, m=None, n=None, pix=None, lo=0.0, hi=3.0):
    """each significant pixel is added to the cell of every line through it"""
    np = mk.np
    f = mk.tftb("processing").hough_transform if hasattr(mk.tftb("processing"), "hough_transform") else \
        mk.tftb("processing.postprocessing").hough_transform
    v = {}
    for i in range(X):
        for j in range(Y):
            v[i, j] = mk.real("p%d_%d" % (i, j), lo, hi) if pix is None or [i, j] in pix else 0.0
    A = mk.array([v[i, j] for i in range(X) for j in range(Y)], "f").reshape((X, Y))
    kw = {}
    if m is not None:
        kw["m"] = m
    if n is not None:
        kw["n"] = n
    ht, rho, th = f(A, **kw)
    m, n = m or X, n or Y
    rmax, dr, dt, cells = _geometry(X, Y, m, n)
    mk.ok(shape_of(ht) == (m, n), "m by n")
    mk.eq(rho, mk.array([b * dr for b in range(m)], "f"), "radial axis")
    mk.eq(th, mk.array([a * dt for a in range(n)], "f"), "angular axis")
    M = np.max(A)
    w = {k: (np.where(q > M / 20.0, q, 0.0) if pix is None or list(k) in pix else 0.0) for k, q in v.items()}
    for b in range(m):
        for a in range(n):
            sure = maybe = 0.0
            for k, s in cells.get((b, a), ()):
                if s:
                    sure = sure + w[k]
                else:
                    maybe = maybe + w[k]
            mk.le(sure, ht[b, a], "pixels of the line counted")
            mk.le(ht[b, a], sure + maybe, "nothing else counted")


def friedman(mk, n, T, lo=0.5, hi=3.0, sym="coord"):
    """share of the significant cells whose reassigned frequency falls in each bin"""
    np = mk.np
    f = mk.tftb("processing").friedman_density if hasattr(mk.tftb("processing"), "friedman_density") else \
        mk.tftb("processing.postprocessing").friedman_density
    P = [[mk.real("p%d_%d" % (i, j), lo, hi) for j in range(T)] for i in range(n)]
    if sym == "coord":
        R = [[mk.real("r%d_%d" % (i, j), 0, n - 1) for j in range(T)] for i in range(n)]
    else:
        R = [[float((i * 2 + j) % n) for j in range(T)] for i in range(n)]
    d = f(mk.array([v for r in P for v in r], "f").reshape((n, T)),
          mk.array([v + 1j * j for r in R for j, v in enumerate(r)], "c").reshape((n, T)))
    mk.ok(shape_of(d) == (n, T), "same size")
    tot = 0.0
    for r in P:
        for v in r:
            tot = tot + v
    thr = tot * (0.5 / (n * T))
    cnt = [[0.0] * T for _ in range(n)]
    N = 0.0
    for j in range(T):
        for i in range(n):
            up = np.where(P[i][j] > thr, 1.0, 0.0)
            N = N + up
            for k in range(n):
                b = np.floor(R[i][j]) == k
                cnt[k][j] = cnt[k][j] + np.where(b, up, 0.0)
    s = 0.0
    for k in range(n):
        for j in range(T):
            mk.eq(d[k, j] * N, cnt[k][j], "share of the significant cells")
            s = s + d[k, j]
    mk.eq(s, 1.0, "sums to one")


def ridge(mk, method, n, T, sym=None, ts=None, off=0):
    """the significant cells that are their own centre of gravity"""
    np = mk.np
    f = mk.tftb("processing").ridges if hasattr(mk.tftb("processing"), "ridges") else \
        mk.tftb("processing.postprocessing").ridges
    P, R = {}, {}
    for i in range(n):
        for j in range(T):
            s = sym is None or [i, j] in sym
            P[i, j] = mk.real("p%d_%d" % (i, j), 0.0, 3.0) if s else 1.0 + ((2 * i + j) % 3) * 0.1
            a = mk.integer("a%d_%d" % (i, j), 0, n - 1) if s else (i if (i + j) % 2 else (i + 1) % n)
            b = mk.integer("b%d_%d" % (i, j), 0, T - 1) if s else j
            R[i, j] = (a + off if s else a + off * (j % 2), b)
    ks = [(i, j) for i in range(n) for j in range(T)]
    A = mk.array([P[k] for k in ks], "f").reshape((n, T))
    if method in ("rpwv", "rpmh"):
        B = mk.array([R[k][0] for k in ks], "f" if off else "i").reshape((n, T))
    else:
        B = mk.array([R[k][0] + 1j * R[k][1] for k in ks], "c").reshape((n, T))
    tot = 0.0
    for k in ks:
        tot = tot + P[k]
    thr = tot * (0.5 / (n * T))
    if ts is None:
        tt, ff = f(A, B, method=method)
        ts = list(range(T))
    else:
        tt, ff = f(A, B, mk.array(ts, "i"), method)
    rt, rf = [], []
    den = float(n) if method.lower() in ("rsp", "type1") else 2.0 * n
    for j in range(T):
        for i in range(n):
            a, b = R[i, j]
            c = np.logical_and(P[i, j] > thr, np.asarray(a == i))
            if method.lower() not in ("rpwv", "rpmh"):
                c = np.logical_and(c, np.asarray(b == j))
            if bool(c):
                rt.append(float(ts[j]))
                rf.append(i / den)
    mk.ok(shape_of(tt) == (len(rt),) and shape_of(ff) == (len(rf),), "as many points as fixed cells")
    if rt:
        mk.eq(tt, mk.array(rt, "f"), "instants of the ridge")
        mk.eq(ff, mk.array(rf, "f"), "frequencies of the ridge")


def unknown(mk):
    f = mk.tftb("processing.postprocessing").ridges
    A = mk.rvec("p", 4).reshape((2, 2))
    mk.ok(mk.raises(lambda: f(A, A, method="wv"), ValueError), "unknown method refused")


def instances(tier):
    th = tier == "thorough"
    out = []
    for K, T, n in [(1, 2, None), (1, 3, None), (2, 2, 5), (1, 2, 8), (3, 2, 4), (2, 4, None), (2, 3, 2)] + (
            [(2, 5, 9), (3, 3, 16)] if th else []):
        out.append(inst("ideal", K=K, T=T, n=n))
    out.append(inst("ideal", K=2, T=4, n=5, ts=[1, 3]))
    out.append(inst("ideal", K=1, T=5, n=3, ts=[4, 0, 2]))
    for X, Y in [(3, 3), (4, 4), (3, 4), (5, 4), (2, 3)] + ([(6, 6), (7, 5)] if th else []):
        out.append(inst("hough", X=X, Y=Y, lo=1.0, hi=3.0))
    for X, Y, m, n in [(3, 3, 5, 8), (4, 4, 3, 6), (4, 3, 9, 5), (5, 5, 4, 12)]:
        out.append(inst("hough", X=X, Y=Y, m=m, n=n, lo=1.0, hi=3.0))
    for X, Y, m, n, pix in [(2, 2, 3, 4, None), (3, 3, 4, 8, [[0, 0], [1, 1], [2, 1]]), (4, 4, 5, 7, [[0, 3], [1, 1], [3, 2]])]:
        out.append(inst("hough", X=X, Y=Y, m=m, n=n, pix=pix, lo=0.01))
    for n, T in [(2, 1), (2, 2), (3, 1)] + ([(3, 2)] if th else []):
        out.append(inst("friedman", n=n, T=T))
    out.append(inst("friedman", n=3, T=1, sym="none", lo=0.05))
    out.append(inst("friedman", n=2, T=2, sym="none", lo=0.05))
    out.append(inst("friedman", n=4, T=3, sym="none", lo=1.0, hi=1.9))
    for method in ("rsp", "type1", "rspwv", "rpwv", "rpmh", "RSP"):
        out.append(inst("ridge", method=method, n=2, T=1))
        out.append(inst("ridge", method=method, n=3, T=2, sym=[[1, 0], [2, 1]]))
        out.append(inst("ridge", method=method, n=4, T=3, sym=[[3, 2]], ts=[2, 5, 8]))
    out.append(inst("ridge", method="rspwv", n=2, T=2, sym=[[0, 0], [1, 1], [1, 0]]))
    for method in ("rsp", "type1", "rspwv", "rpwv", "rpmh"):
        for off in (0.25, -0.5):
            out.append(inst("ridge", method=method, n=3, T=2, sym=[[1, 0], [2, 1]], off=off))
    out.append(inst("unknown"))
    return out


BOUNDS = ("laws of every value in [0, 1/2], 1..3 laws over 2..4 instants and 2..8 bins; images up to 5x4 with every pixel in [1,3], or 3..4 pixels of "
          "any value; every matrix of centres 2x1..3x1 (density), 2 to 3 symbolic cells of up to 4x3, with integer and fractional centres (ridges)")
OUTSIDE = "undefined (NaN) law samples; Hough cells whose distance falls on a rounding tie; negative images"
