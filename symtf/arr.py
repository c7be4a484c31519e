"""Symbolic arrays: shape and index arithmetic are concrete, elements are
Python numbers, Sym or SBool.  Mimics the numpy.ndarray surface."""
import builtins
import math
import sys
import cmath
import numpy as np

from . import sym as S
from .sym import Sym, SBool, Unsupported, is_sym, kind_of, maxkind, KR

NPK = {"b": np.bool_, "i": np.int64, "f": np.float64, "c": np.complex128}
SHIMTYPES = {}     # shim type object -> real type (filled by shim.py)


def norm_dtype(dt):
    """any dtype spec -> kind letter (or None)"""
    if dt is None:
        return None
    try:
        dt = SHIMTYPES.get(dt, dt)
    except TypeError:
        pass
    if isinstance(dt, str) and dt in ("b", "i", "f", "c"):
        return {"b": "i"}.get(dt, dt)
    d = np.dtype(dt)
    if d.kind == "b":
        return "b"
    if d.kind in "iu":
        return "i"
    if d.kind == "f":
        return "f"
    if d.kind == "c":
        return "c"
    if d.kind == "O":
        return None
    raise Unsupported("dtype %r" % (dt,))


def cast(x, k):
    """value conversion performed by astype / assignment"""
    if k is None:
        return x
    xk = kind_of(x)
    if xk == k:
        return x
    if k == "c":
        if isinstance(x, SBool):
            x = S.indicator(x)
        return S.setkind(x, "c") if isinstance(x, Sym) else complex(x)
    if k == "f":
        if isinstance(x, SBool):
            x = S.indicator(x)
        if isinstance(x, Sym):
            return S.setkind(S.real(x), "f")
        return float(x.real)
    if k == "i":
        if isinstance(x, SBool):
            return S.indicator(x)
        if isinstance(x, Sym):
            return S.trunc(S.real(x)) if isinstance(S.real(x), Sym) else int(S.real(x))
        x = x.real
        if x != x or x in (float("inf"), float("-inf")):
            return -2 ** 63
        return int(x)
    if k == "b":
        if isinstance(x, Sym):
            return S.bnot(S.iszero(x))
        return bool(x)
    raise Unsupported("cast")


def clean(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, SArr):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return x


def arrkind(a):
    """kind of a plain ndarray"""
    k = a.dtype.kind
    if k == "u":
        return "i"
    if k in "bifc":
        return k
    if k == "O":
        r = "b"
        for x in a.flat:
            r = maxkind(r, kind_of(x))
        return r if a.size else "f"
    raise Unsupported("array kind %r" % a.dtype)


_obj = np.dtype(object)


class SArr(object):
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, a, k=None, cm=None):
        if type(a) is not np.ndarray:
            a = np.asarray(a)
        if k is None:
            k = arrkind(a)
        if a.dtype != _obj and a.dtype != NPK[k]:
            a = a.astype(NPK[k])
        self.a = a
        self.k = k
        self.cm = cm          # symbolic compression mask (object bool ndarray)

    # ------------------------------------------------------------ helpers
    @staticmethod
    def from_list(xs, shape=None, k=None):
        a = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            a[i] = clean(x)
        if k is None:
            k = arrkind(a) if len(xs) else "f"
        if shape is not None:
            a = a.reshape(shape)
        return SArr(a, k).demote()

    def demote(self):
        """numeric backing when every element is concrete"""
        if self.a.dtype == _obj and not any(is_sym(x) for x in self.a.flat):
            self.a = self.a.astype(NPK[self.k])
        return self

    @property
    def symbolic(self):
        return self.a.dtype == _obj and any(is_sym(x) for x in self.a.flat)

    def conc(self):
        """plain numeric ndarray or Unsupported"""
        self.mat()
        if self.a.dtype != _obj:
            return self.a
        if self.symbolic:
            raise Unsupported("concrete array required")
        return self.a.astype(NPK[self.k])

    def obj(self):
        """promote the backing store (in place) to object"""
        if self.a.dtype != _obj:
            if isinstance(self.a.base, np.ndarray) and sys.getrefcount(self.a.base) > 2:
                raise Unsupported("symbolic write through a concrete view")
            a = np.empty(self.a.shape, dtype=object)
            if self.a.size:
                a[...] = self.a.tolist() if self.a.ndim else self.a.item()
            self.a = a
        return self.a

    def mat(self):
        """materialise a symbolic compression by forking on the mask"""
        if self.cm is None:
            return self
        keep = [i for i, m in enumerate(self.cm.flat) if bool(m)]
        vals = [self.a.flat[i] for i in keep]
        a = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            a[i] = v
        self.a, self.cm = a, None
        self.demote()
        return self

    # ------------------------------------------------------------ attributes
    @property
    def shape(self):
        return self.mat().a.shape

    @shape.setter
    def shape(self, s):
        self.mat().a.shape = s

    @property
    def ndim(self):
        return self.a.ndim if self.cm is None else 1

    @property
    def size(self):
        return self.mat().a.size

    @property
    def dtype(self):
        return np.dtype(NPK[self.k])

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def base(self):
        return self.a.base

    @property
    def flags(self):
        return self.a.flags

    @property
    def T(self):
        return SArr(self.mat().a.T, self.k)

    @property
    def flat(self):
        return FlatView(self.mat())

    @property
    def real(self):
        if self.k != "c":
            return self
        return RealView(self, "real")

    @real.setter
    def real(self, v):
        cur = self.copy()
        self[...] = ew("add", SArr(np.broadcast_to(_as_arr(v).a, self.shape), _as_arr(v).k),
                       ew("multiply", 1j, ew("imag", cur)))

    @property
    def imag(self):
        if self.k != "c":
            return ew("imag", self)
        return RealView(self, "imag")

    @imag.setter
    def imag(self, v):
        cur = self.copy()
        self[...] = ew("add", ew("real", cur), ew("multiply", 1j, v))

    # ------------------------------------------------------------ protocol
    def __len__(self):
        self.mat()
        if self.a.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.a.shape[0]

    def __iter__(self):
        self.mat()
        if self.a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.a.shape[0]):
            yield self[i]

    def __bool__(self):
        self.mat()
        if self.a.size == 1:
            return bool(self.a.flat[0])
        if self.a.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is "
                         "ambiguous. Use a.any() or a.all()")

    def item(self, *idx):
        self.mat()
        if idx:
            return clean(self[idx if len(idx) > 1 else idx[0]])
        if self.a.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return clean(self.a.flat[0])

    def __int__(self):
        return int(self.item())

    def __float__(self):
        return float(self.item())

    def __complex__(self):
        return complex(self.item())

    def __index__(self):
        x = self.item()
        return x.__index__()

    def __array__(self, dtype=None, copy=None):
        a = self.conc()
        return a if dtype is None else a.astype(dtype)

    def __repr__(self):
        return "SArr(%s, %s)" % (self.k, self.a)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import shim
        return shim.do_ufunc(ufunc.__name__, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import shim
        return shim.call_numpy(func, args, kwargs)

    # ------------------------------------------------------------ indexing
    def _key(self, key):
        """-> ('c', key) concrete | ('m', mask) | ('s', tuple) symbolic ints"""
        if isinstance(key, tuple):
            ks = tuple(_normkey(k) for k in key)
        else:
            ks = _normkey(key)
        flat = ks if isinstance(ks, tuple) else (ks,)
        if any(isinstance(k, SArr) and k.k == "b" for k in flat):
            if not isinstance(ks, tuple):
                return "m", ks
            if len(ks) == 1:
                return "m", ks[0]
            # mask within a tuple: materialise by forking
            ks = tuple(_matmask(k) if isinstance(k, SArr) and k.k == "b" else k for k in ks)
            flat = ks
        if any(isinstance(k, (Sym, SArr)) for k in flat):
            return "s", (ks if isinstance(ks, tuple) else (ks,))
        return "c", ks

    def __getitem__(self, key):
        if self.cm is not None:
            self.mat()
        typ, k = self._key(key)
        if typ == "c":
            r = self.a[k]
            if isinstance(r, np.ndarray):
                o = SArr(r, self.k)
                if r.dtype == _obj:
                    pass
                return o
            return r
        if typ == "m":
            if k.shape == self.a.shape:
                # lazily compressed
                flat = self.a.ravel()
                if flat.dtype != _obj:
                    f2 = np.empty(flat.shape, dtype=object)
                    f2[...] = flat.tolist()
                    flat = f2
                else:
                    flat = flat.copy()
                return SArr(flat, self.k, cm=_maskid(k))
            k = _matmask(k)
            return SArr(self.a[k], self.k)
        # symbolic integers
        return _symget(self, k)

    def __setitem__(self, key, val):
        if self.cm is not None:
            self.mat()
        typ, k = self._key(key)
        if typ == "m":
            if k.shape != self.a.shape:
                k = _matmask(k)
                typ = "c"
            else:
                return self._maskset(k, val)
        if typ == "s":
            return _symset(self, k, val)
        v = _as_val(val)
        if isinstance(v, SArr):
            v.mat()
            if v.a.dtype != _obj and self.a.dtype != _obj:
                if KR[v.k] > KR[self.k] and self.k in "fi" and v.k == "c":
                    self.a[k] = v.a.real
                else:
                    self.a[k] = v.a
                return
            if self.a.dtype != _obj and v.symbolic:
                self.obj()
            if self.a.dtype == _obj:
                if v.k == self.k and v.a.dtype == _obj:
                    self.a[k] = v.a
                else:
                    self.a[k] = _castarr(v, self.k)
            else:
                self.a[k] = _castarr(v, self.k).astype(NPK[self.k])
            return
        v = cast(v, self.k)
        if is_sym(v) and self.a.dtype != _obj:
            self.obj()
        self.a[k] = v

    def _maskset(self, m, val):
        self.obj()
        mid = _maskid(m)
        v = _as_val(val)
        flat = self.a.reshape(-1)
        share = np.shares_memory(flat, self.a) if flat.size else True
        n = flat.shape[0]
        if isinstance(v, SArr):
            if v.cm is not None and v.cm is mid:
                vals = v.a.reshape(-1)
            elif v.cm is None and v.size == 1:
                vals = [v.item()] * n
            else:
                idx = _matmask(m)
                self[idx] = v.mat()
                return
        else:
            vals = [v] * n
        for i in range(n):
            c = mid.flat[i]
            if not isinstance(c, SBool) and not c:
                continue
            flat[i] = cast(S.ite(c, cast(clean(vals[i]), self.k), flat[i]), self.k)
        if not share:
            self.a[...] = flat.reshape(self.a.shape)

    # ------------------------------------------------------------ methods
    def copy(self, order="C"):
        self.mat()
        return SArr(self.a.copy(), self.k)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def view(self, *a, **k):
        if a or k:
            raise Unsupported("view with dtype")
        return SArr(self.mat().a[...], self.k)

    def astype(self, dt, copy=True, **kw):
        k = norm_dtype(dt)
        if k is None:
            return self.copy()
        if self.a.dtype != _obj:
            a = self.a
            if k in "fib" and self.k == "c":
                a = a.real
            with np.errstate(all="ignore"):
                return SArr(a.astype(NPK[k]), k)
        out = np.empty(self.a.shape, dtype=object)
        for i, x in enumerate(self.a.flat):
            out.flat[i] = cast(x, k)
        r = SArr(out, k, cm=self.cm)
        return r if self.cm is not None else r.demote()

    def ravel(self, order="C"):
        return SArr(self.mat().a.ravel(order), self.k)

    def flatten(self, order="C"):
        return SArr(self.mat().a.flatten(order), self.k)

    def reshape(self, *s, **kw):
        order = kw.get("order", "C")
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        elif len(s) == 1 and isinstance(s[0], SArr):
            s = tuple(s[0].conc().tolist())
        s = tuple(_idx(x) for x in s)
        return SArr(self.mat().a.reshape(s, order=order), self.k)

    def transpose(self, *ax):
        return SArr(self.mat().a.transpose(*ax), self.k)

    def swapaxes(self, a, b):
        return SArr(self.mat().a.swapaxes(a, b), self.k)

    def squeeze(self, axis=None):
        return SArr(self.mat().a.squeeze(axis), self.k)

    def repeat(self, n, axis=None):
        return SArr(self.mat().a.repeat(_conc(n), axis), self.k)

    def take(self, idx, axis=None, **kw):
        return SArr(self.mat().a.take(_conc(idx), axis=axis), self.k)

    def resize(self, *s, **k):
        raise Unsupported("resize")

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return self.mat().a.tolist()

    def conj(self):
        return ew("conjugate", self)

    conjugate = conj

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("add", self, axis, keepdims, dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_("multiply", self, axis, keepdims, dtype)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        self.mat()
        n = self.a.size if axis is None else np.prod([self.a.shape[x] for x in np.atleast_1d(axis)])
        s = self.sum(axis=axis, keepdims=keepdims)
        if n == 0:
            return float("nan")
        return s / float(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        self.mat()
        n = self.a.size if axis is None else self.a.shape[axis]
        m = self.mean(axis=axis, keepdims=True) if axis is not None else self.mean()
        d = ew("subtract", self, m)
        q = ew("real", ew("multiply", d, ew("conjugate", d)))
        return reduce_("add", q, axis, keepdims, None) / float(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return ew("sqrt", v)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("minimum", self, axis, keepdims, None)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("maximum", self, axis, keepdims, None)

    def ptp(self, axis=None):
        return self.max(axis=axis) - self.min(axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_or", self.astype(bool), axis, keepdims, None)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_("logical_and", self.astype(bool), axis, keepdims, None)

    def argmax(self, axis=None, **kw):
        return _arg(self, axis, lambda a, b: S.lt(a, b))

    def argmin(self, axis=None, **kw):
        return _arg(self, axis, lambda a, b: S.lt(b, a))

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate("add", self, axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate("multiply", self, axis)

    def dot(self, b):
        return dot(self, b)

    def clip(self, lo=None, hi=None, out=None, min=None, max=None):
        lo = lo if min is None else min
        hi = hi if max is None else max
        r = self
        if lo is not None:
            r = ew("maximum", r, lo)
        if hi is not None:
            r = ew("minimum", r, hi)
        return r

    def round(self, decimals=0, out=None):
        return ew("around", self, decimals)

    def nonzero(self):
        self.mat()
        m = _matmask(self.astype(bool))
        return tuple(SArr(x, "i") for x in np.nonzero(m))

    def sort(self, axis=-1, **kw):
        self.mat()
        self.a[...] = sort_arr(self, axis).a if self.a.dtype != _obj else _objof(sort_arr(self, axis))

    def argsort(self, axis=-1, **kw):
        if not self.symbolic:
            return SArr(np.argsort(self.conc(), axis=axis), "i")
        import functools
        if self.a.ndim != 1:
            raise Unsupported("argsort nd")
        xs = list(self.a)
        idx = sorted(range(len(xs)), key=functools.cmp_to_key(
            lambda i, j: -1 if bool(S.lt(xs[i], xs[j])) else (1 if bool(S.lt(xs[j], xs[i])) else 0)))
        return SArr(np.array(idx, dtype=int), "i")

    def searchsorted(self, v, side="left", sorter=None):
        from . import shim
        return shim.TABLE["searchsorted"](self, v, side)

    def diagonal(self, *a, **k):
        return SArr(self.mat().a.diagonal(*a, **k), self.k)

    def trace(self, *a):
        return self.diagonal().sum()

    def compress(self, cond, axis=None):
        from . import shim
        return shim.TABLE["compress"](cond, self, axis)

    def tobytes(self):
        return self.conc().tobytes()


class FlatView(object):
    def __init__(self, s):
        self.s = s

    def __len__(self):
        return self.s.a.size

    def __iter__(self):
        return iter(list(self.s.a.flat))

    def __getitem__(self, k):
        return SArr(self.s.a.reshape(-1), self.s.k)[k]

    def __setitem__(self, k, v):
        f = SArr(self.s.obj().reshape(-1), self.s.k)
        f[k] = v
        if not np.shares_memory(f.a, self.s.a):
            self.s.a[...] = f.a.reshape(self.s.a.shape)


class RealView(SArr):
    """x.real / x.imag: readable copy that writes through"""

    def __init__(self, parent, part):
        src = ew(part, parent)
        SArr.__init__(self, src.a if src.a.base is None else src.a.copy(), "f", cm=src.cm)
        self.parent = parent
        self.part = part

    def __setitem__(self, k, v):
        SArr.__setitem__(self, k, v)
        setattr(self.parent, self.part, SArr(self.a.copy(), "f"))

    def copy(self, order="C"):
        return SArr(self.a.copy(), self.k)


_maskcache = {}


def _maskid(m):
    """intern a symbolic mask array so that x[m] and x[m]=.. match"""
    flat = m.a.reshape(-1)
    key = tuple(S.bkey(b) if isinstance(b, SBool) else bool(b) for b in flat)
    ctx = S.ctx()
    store = ctx.__dict__.setdefault("masks", {})
    r = store.get(key)
    if r is None:
        r = flat.copy()
        store[key] = r
    return r


def _matmask(m):
    if m.a.dtype != _obj:
        return m.a
    out = np.empty(m.a.shape, dtype=bool)
    for i, x in enumerate(m.a.flat):
        out.flat[i] = bool(x)
    return out


def _idx(x):
    if isinstance(x, (SArr, Sym)):
        return x.__index__()
    return x


def _conc(x):
    if isinstance(x, SArr):
        return x.conc()
    if isinstance(x, Sym):
        return x.__index__() if x.kind == "i" else S.ctx().engine.concretize(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_conc(e) for e in x)
    try:
        return SHIMTYPES.get(x, x)
    except TypeError:
        return x


def _normkey(k):
    if isinstance(k, SArr):
        k.mat()
        if k.k == "b":
            if k.symbolic:
                return k
            return k.conc()
        if k.k in "fc":
            if k.a.size:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return k.a.astype(int) if False else _bad_index()
        if k.symbolic:
            return k if k.a.ndim else k.item()
        return k.conc()
    if isinstance(k, SBool):
        return bool(k)
    if isinstance(k, Sym):
        if k.kind not in "ib":
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        return k
    if isinstance(k, slice):
        return slice(_idx(k.start), _idx(k.stop), _idx(k.step))
    if isinstance(k, list):
        if any(isinstance(x, (Sym, SBool, SArr)) for x in k):
            return _normkey(_as_arr(k))
        return k
    return k


def _bad_index():
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


def _candidates(i, n):
    """feasible concrete values of a symbolic index on an axis of length n;
    raises IndexError on the path where it is out of range."""
    eng = S.ctx().engine
    oob = S.bor(S.lt(i, -n), S.lt(n - 1, i))
    if isinstance(oob, SBool):
        if bool(oob):
            raise IndexError("index is out of bounds for axis with size %d" % n)
    elif oob:
        raise IndexError("index is out of bounds for axis with size %d" % n)
    neg = S.lt(i, 0)
    rng = range(0, n)
    if isinstance(neg, SBool):
        f = eng.feasible(neg)
        if f:
            rng = range(-n, n)
    elif neg:
        rng = range(-n, 0)
    out = [v for v in rng if eng.feasible(i == v)]
    return out


def _symget(x, ks):
    for p, k in enumerate(ks):
        if isinstance(k, Sym):
            n = x.a.shape[p]
            cand = _candidates(k, n)
            if not cand:
                raise S.PathAbort()
            conds = []
            for v in cand[:-1]:
                conds.append(k == v)
            r = x[ks[:p] + (cand[-1],) + ks[p + 1:]]
            if x.k != "b" and all(isinstance(c, SBool) for c in conds) and _finite_vals(x):
                # one-hot and exhaustive: a sum of indicator * value
                r0 = r
                for v, c in zip(cand[:-1], conds):
                    o = x[ks[:p] + (v,) + ks[p + 1:]]
                    r = ew("add", r, ew("multiply", S.indicator(c), ew("subtract", o, r0)))
                return r if isinstance(r, SArr) else S.setkind(r, x.k) if isinstance(r, Sym) else r
            for v, c in zip(reversed(cand[:-1]), reversed(conds)):
                o = x[ks[:p] + (v,) + ks[p + 1:]]
                r = where(c, o, r)
            return r
        if isinstance(k, SArr):
            if len(ks) == 1 and k.a.ndim == 1:
                rows = [x[(e,)] if isinstance(e, Sym) else x[e] for e in k.a]
                if x.a.ndim == 1:
                    return SArr.from_list(rows, k=x.k)
            idx = np.array([e.__index__() if isinstance(e, Sym) else e for e in k.a.flat],
                           dtype=int).reshape(k.a.shape)
            return x[ks[:p] + (idx,) + ks[p + 1:]]
    return x[ks]


def _symset(x, ks, val):
    for p, k in enumerate(ks):
        if isinstance(k, Sym):
            n = x.a.shape[p]
            cand = _candidates(k, n)
            if not cand:
                raise S.PathAbort()
            # one-hot, exhaustive: the last indicator is 1 - (sum of others)
            rest = 1
            inds = []
            for v in cand[:-1]:
                c = k == v
                inds.append(S.indicator(c) if isinstance(c, SBool) else int(c))
            vid = [S.single_var(i) for i in inds]
            for j, v in enumerate(cand):
                if j + 1 < len(cand):
                    i = inds[j]
                    rest = rest - i
                else:
                    i = rest
                asg = {w: (1 if q == j else 0) for q, w in enumerate(vid) if w is not None}
                sub = ks[:p] + (v,) + ks[p + 1:]
                old = x[sub]
                if isinstance(old, SArr):
                    old = old.copy()
                x[sub] = ew("add", old, ew("multiply", i, ew("subtract", _given(val, asg), old)))
            return
        if isinstance(k, SArr):
            idx = np.array([e.__index__() if isinstance(e, Sym) else e for e in k.a.flat],
                           dtype=int).reshape(k.a.shape)
            x[ks[:p] + (idx,) + ks[p + 1:]] = val
            return
    x[ks] = val


def _finite_vals(x):
    for v in x.a.flat:
        if not isinstance(v, (Sym, SBool)) and not (v == v and abs(v) != float("inf")):
            return False
    return True


def _given(x, asg):
    """x where the indicators in asg have the given values"""
    if not asg:
        return x
    if isinstance(x, SArr):
        if x.symbolic:
            return SArr.from_list([_given(v, asg) for v in x.a.flat], x.a.shape, k=x.k)
        return x
    return S.given(x, asg) if isinstance(x, Sym) else x


def where(c, a, b):
    if not isinstance(c, SArr) and not isinstance(c, np.ndarray):
        if not isinstance(c, SBool):
            if isinstance(c, Sym):
                c = S.bnot(S.iszero(c))
            else:
                if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
                    return ew("where", c, a, b)
                return a if c else b
        if not isinstance(a, (SArr, np.ndarray)) and not isinstance(b, (SArr, np.ndarray)):
            return S.ite(c, clean(a), clean(b))
    return ew("where", c, a, b)


def _as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return SArr(x)
    if isinstance(x, (Sym, SBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return SArr(a, kind_of(x))
    if isinstance(x, (list, tuple)):
        if not has_sym(x):
            return SArr(np.array(deconc(x)))
        subs = [_as_arr(e) for e in x]
        shp = subs[0].shape
        if any(s.shape != shp for s in subs):
            raise ValueError("inhomogeneous shape")
        k = "b"
        for s in subs:
            k = maxkind(k, s.k)
        out = np.empty((len(subs),) + shp, dtype=object)
        for i, s in enumerate(subs):
            out[i] = _castarr(s, k) if shp else cast(s.item(), k)
        return SArr(out, k).demote()
    if isinstance(x, range):
        return SArr(np.arange(x.start, x.stop, x.step))
    return SArr(np.asarray(x))


def deconc(x):
    if isinstance(x, SArr):
        return x.conc()
    if isinstance(x, (list, tuple)):
        return type(x)(deconc(e) for e in x)
    if isinstance(x, dict):
        return {k: deconc(v) for k, v in x.items()}
    if isinstance(x, slice):
        return slice(_idx(x.start), _idx(x.stop), _idx(x.step))
    try:
        return SHIMTYPES.get(x, x)
    except TypeError:
        return x


def has_sym(x):
    if isinstance(x, (Sym, SBool)):
        return True
    if isinstance(x, SArr):
        return x.cm is not None or x.symbolic
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e) for e in x.values())
    if isinstance(x, np.ndarray) and x.dtype == _obj:
        return any(is_sym(e) for e in x.flat)
    return False


def has_sarr(x):
    if isinstance(x, (Sym, SBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sarr(e) for e in x)
    return False


def _as_val(v):
    if isinstance(v, (SArr, Sym, SBool)):
        return v
    if isinstance(v, (np.ndarray, list, tuple)):
        return _as_arr(v)
    return clean(v)


def _castarr(v, k):
    out = np.empty(v.a.shape, dtype=object)
    src = v.a.flat if v.a.dtype == _obj else [clean(e) for e in v.a.flat]
    for i, x in enumerate(src):
        out.flat[i] = cast(x, k)
    return out


def _objof(x):
    if x.a.dtype == _obj:
        return x.a
    a = np.empty(x.a.shape, dtype=object)
    if x.a.size:
        a[...] = x.a.tolist() if x.a.ndim else x.a.item()
    return a


# ---------------------------------------------------------------- scalar ops
_np1 = {"sqrt": np.sqrt}


def _cnum(f, *a):
    with np.errstate(all="ignore"):
        r = f(*a)
    return r.item() if isinstance(r, np.generic) else r


def s_div(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.true_divide, a, b)
    if not is_sym(a) and a != a:
        return a
    if not is_sym(a) and not isinstance(a, complex) and a == 0:
        b0 = b
        if S.ctx().engine is not None and isinstance(b, Sym):
            S.ctx().engine.assume_nonzero(b)
        return S.const(0, maxkind(kind_of(b), "f"))
    if not is_sym(b):
        if b == 0:
            return float("nan")     # x/0: not finite
        if b != b:
            return b
    return a / b


def s_mul(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return S.band(a, b)
    if is_sym(a) or is_sym(b):
        if not is_sym(a) and a != a:
            return a
        if not is_sym(b) and b != b:
            return b
    return a * b


def s_add(a, b):
    if kind_of(a) == "b" and kind_of(b) == "b":
        return S.bor(a, b)
    if not is_sym(a) and is_sym(b) and (a != a or abs(a) == float("inf")):
        return a
    if not is_sym(b) and is_sym(a) and (b != b or abs(b) == float("inf")):
        return b
    return a + b


def s_sub(a, b):
    if not is_sym(a) and is_sym(b) and (a != a or abs(a) == float("inf")):
        return a
    if not is_sym(b) and is_sym(a) and (b != b or abs(b) == float("inf")):
        return -b
    return a - b


def s_pow(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.power, a, b)
    return S.power(a, b)


def s_mod(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.remainder, a, b)
    k = S._ak(kind_of(a), kind_of(b))
    q = S.floor_of(a, b) if is_sym(a) and not is_sym(b) else S.floor(s_div(a, b))
    return S.setkind(a - b * q, k)


def s_floordiv(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.floor_divide, a, b)
    k = S._ak(kind_of(a), kind_of(b))
    return S.setkind(S.floor(s_div(a, b)), k)


def s_cmp(name):
    def f(a, b):
        if not is_sym(a) and not is_sym(b):
            return bool(getattr(np, name)(a, b))
        for p, q, flip in ((a, b, False), (b, a, True)):
            if not is_sym(p) and not isinstance(p, complex):
                if p != p:
                    return name == "not_equal"
                if abs(p) == float("inf"):
                    if name in ("equal", "not_equal"):
                        return name == "not_equal"
                    less = (p < 0) != flip      # is a < b ?
                    return less if name in ("less", "less_equal") else not less
        if name == "less":
            return S.lt(a, b)
        if name == "greater":
            return S.lt(b, a)
        if name == "less_equal":
            return S.bnot(S.lt(b, a))
        if name == "greater_equal":
            return S.bnot(S.lt(a, b))
        ab = kind_of(a) == "b" and kind_of(b) == "b"
        if ab:
            e = S.bnot(S.bor(S.band(a, S.bnot(b)), S.band(S.bnot(a), b)))
        else:
            e = S.iszero(s_sub(a if not isinstance(a, SBool) else S.indicator(a), b))
        return e if name == "equal" else S.bnot(e)
    return f


def tb(x):
    if isinstance(x, Sym):
        return S.bnot(S.iszero(x))
    return x if isinstance(x, SBool) else bool(x)


def un(symf, npf):
    def f(x):
        if is_sym(x):
            return symf(x)
        return _cnum(npf, x)
    return f


def s_sign(x):
    if not is_sym(x):
        return _cnum(np.sign, x)
    p = S.lt(0, x)
    n = S.lt(x, 0)
    return S.setkind(S.ite(p, 1.0, S.ite(n, -1.0, 0.0)), kind_of(x))


def s_log2(x):
    if not is_sym(x):
        return _cnum(np.log2, x)
    return S.log(x) / math.log(2)


def s_log10(x):
    if not is_sym(x):
        return _cnum(np.log10, x)
    return S.log(x) / math.log(10)


def s_arg(x):
    return S.angle(x) if is_sym(x) else _cnum(np.angle, x)


def s_max(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.maximum, a, b)
    return S.smax(a, b)


def s_min(a, b):
    if not is_sym(a) and not is_sym(b):
        return _cnum(np.minimum, a, b)
    return S.smin(a, b)


def s_abs(x):
    return S.absolute(x)


def s_square(x):
    return s_mul(x, x)


def s_around(x, d=0):
    if is_sym(x):
        return S.around(x, int(d))
    return _cnum(np.round, x, int(d))


def s_fix(x):
    if is_sym(x):
        return S.setkind(S.trunc(x), "f")
    return _cnum(np.fix, x) if not hasattr(np.fix(x), "item") else np.fix(x).item()


def s_isreal(x):
    if isinstance(x, Sym) and x.kind == "c":
        return S.iszero(S.imag(x))
    return True if is_sym(x) else bool(np.isreal(x))


def s_hypot(a, b):
    return S.sqrt(s_add(s_mul(a, a), s_mul(b, b)), True) if (is_sym(a) or is_sym(b)) else _cnum(np.hypot, a, b)


def s_tan(x):
    return s_div(S.sin(x), S.cos(x)) if is_sym(x) else _cnum(np.tan, x)


def s_acos(x):
    if is_sym(x):
        return fun_atom("arccos", x, lambda a: math.acos(max(-1, min(1, a))))
    return _cnum(np.arccos, x)


def fun_atom(name, x, f):
    """opaque real function (uninterpreted for the solver), hash-consed"""
    v = S.atom("fun_" + name, x) if False else None
    ctx = S.ctx()
    key = ("fun:" + name)
    for k in S._near_keys(x.fp()):
        for var in ctx.atoms.get((key, k), ()):
            if S.same(var.arg, x):
                return Sym({(((var.id, 1),), 0): 1.0}, "f")
    var = ctx.newvar("%s#%d" % (name, len(ctx.vars)), "fun")
    var.arg = x
    var.lo = f
    var.fp = f(x.fp())
    ctx.atoms.setdefault((key, S._near_keys(x.fp())[0]), []).append(var)
    return Sym({(((var.id, 1),), 0): 1.0}, "f")


def s_sinc(x):
    if not is_sym(x):
        return _cnum(np.sinc, x)
    raise Unsupported("sinc")


def s_cosh(x):
    return (S.exp(x) + S.exp(-x)) * 0.5


def s_sinh(x):
    return (S.exp(x) - S.exp(-x)) * 0.5


UF = {
    "add": (s_add, "ak"), "subtract": (s_sub, "ak"), "multiply": (s_mul, "ak"),
    "true_divide": (s_div, "fk"), "divide": (s_div, "fk"),
    "floor_divide": (s_floordiv, "ak"), "remainder": (s_mod, "ak"), "mod": (s_mod, "ak"),
    "power": (s_pow, "ak"), "float_power": (s_pow, "fk"),
    "negative": (lambda x: -x, "ak"), "positive": (lambda x: x, "ak"),
    "absolute": (s_abs, "real"), "abs": (s_abs, "real"), "fabs": (s_abs, "real"),
    "conjugate": (S.conj, "same"), "conj": (S.conj, "same"),
    "real": (S.real, "real"), "imag": (S.imag, "real"),
    "angle": (s_arg, "f"), "sign": (s_sign, "same"),
    "exp": (un(S.exp, np.exp), "fk"), "log": (un(S.log, np.log), "fk"),
    "expm1": (un(lambda x: S.exp(x) - 1, np.expm1), "fk"),
    "exp2": (un(lambda x: S.exp(x * math.log(2)), np.exp2), "fk"),
    "log1p": (un(lambda x: S.log(x + 1), np.log1p), "fk"),
    "log2": (s_log2, "fk"), "log10": (s_log10, "fk"),
    "sqrt": (un(S.sqrt, np.sqrt), "fk"), "square": (s_square, "ak"),
    "reciprocal": (lambda x: s_div(1.0, x), "fk"),
    "cos": (un(S.cos, np.cos), "fk"), "sin": (un(S.sin, np.sin), "fk"), "tan": (s_tan, "fk"),
    "cosh": (un(s_cosh, np.cosh), "fk"), "sinh": (un(s_sinh, np.sinh), "fk"),
    "arccos": (s_acos, "fk"),
    "floor": (un(S.floor, np.floor), "fr"), "ceil": (un(S.ceil, np.ceil), "fr"),
    "rint": (s_around, "fk"), "around": (s_around, "same"), "trunc": (s_fix, "fr"), "fix": (s_fix, "fr"),
    "less": (s_cmp("less"), "b"), "greater": (s_cmp("greater"), "b"),
    "less_equal": (s_cmp("less_equal"), "b"), "greater_equal": (s_cmp("greater_equal"), "b"),
    "equal": (s_cmp("equal"), "b"), "not_equal": (s_cmp("not_equal"), "b"),
    "logical_and": (lambda a, b: S.band(tb(a), tb(b)), "b"),
    "logical_or": (lambda a, b: S.bor(tb(a), tb(b)), "b"),
    "logical_not": (lambda a: S.bnot(tb(a)), "b"),
    "logical_xor": (lambda a, b: S.bor(S.band(tb(a), S.bnot(tb(b))), S.band(S.bnot(tb(a)), tb(b))), "b"),
    "bitwise_and": (lambda a, b: a & b, "ak0"), "bitwise_or": (lambda a, b: a | b, "ak0"),
    "bitwise_xor": (lambda a, b: a ^ b, "ak0"), "invert": (lambda a: S.bnot(a) if kind_of(a) == "b" else ~a, "ak0"),
    "maximum": (s_max, "ak0"), "minimum": (s_min, "ak0"), "fmax": (s_max, "ak0"), "fmin": (s_min, "ak0"),
    "where": (lambda c, a, b: S.ite(tb(c), a, b), "where"),
    "isnan": (lambda x: False if is_sym(x) else bool(np.isnan(x)), "b"),
    "isfinite": (lambda x: True if is_sym(x) else bool(np.isfinite(x)), "b"),
    "isinf": (lambda x: False if is_sym(x) else bool(np.isinf(x)), "b"),
    "isreal": (s_isreal, "b"), "iscomplex": (lambda x: S.bnot(s_isreal(x)), "b"),
    "hypot": (s_hypot, "fk"), "copysign": (None, "f"),
    "sinc": (s_sinc, "f"),
    "radians": (lambda x: x * (math.pi / 180), "fk"), "deg2rad": (lambda x: x * (math.pi / 180), "fk"),
    "degrees": (lambda x: x * (180 / math.pi), "fk"), "rad2deg": (lambda x: x * (180 / math.pi), "fk"),
    "arctan2": (lambda y, x: s_arg(x + 1j * y), "f"),
    "heaviside": (lambda x, h: S.ite(S.lt(0, x), 1.0, S.ite(S.lt(x, 0), 0.0, h)), "f"),
    "left_shift": (lambda a, b: a * 2 ** b, "ak"),
}


def _rk(rule, ks, name):
    if rule == "ak":
        k = ks[0]
        for x in ks[1:]:
            k = maxkind(k, x)
        if k == "b" and name not in ("add", "multiply"):
            if name == "subtract":
                raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
            return "i"
        return k
    if rule == "ak0":
        k = ks[0]
        for x in ks[1:]:
            k = maxkind(k, x)
        return k
    if rule == "fk":
        k = "f"
        for x in ks:
            k = maxkind(k, x)
        return k
    if rule == "fr":
        return ks[0] if ks[0] == "i" and name in () else "f"
    if rule == "same":
        return ks[0]
    if rule == "real":
        return "f" if ks[0] == "c" else ks[0]
    if rule == "where":
        return maxkind(ks[1], ks[2])
    return rule


def _npfun(name):
    if name in ("real", "imag", "angle", "around", "fix", "isreal", "iscomplex", "where", "sinc"):
        return {"around": np.around}.get(name, getattr(np, name))
    return getattr(np, name)


def ew(name, *args):
    """elementwise function with numpy broadcasting"""
    f, rule = UF[name]
    arrs = []
    scal = True
    cm = None
    for x in args:
        if isinstance(x, SArr):
            scal = False
            if x.cm is not None:
                cm = x.cm
        elif isinstance(x, (np.ndarray, list, tuple)):
            scal = False
        arrs.append(x)
    if scal:
        xs = [clean(x) for x in arrs]
        if not any(is_sym(x) for x in xs):
            with np.errstate(all="ignore"):
                return _npfun(name)(*args)
        k = _rk(rule, [kind_of(x) for x in xs], name)
        return cast(clean(f(*xs)), k)
    arrs = [_as_arr(x) for x in arrs]
    if cm is not None:
        # compressed operands: all array operands must carry the same mask
        for x in arrs:
            if x.cm is not cm and x.a.size != 1:
                for y in arrs:
                    y.mat()
                cm = None
                break
    if cm is None and not any(x.a.dtype == _obj for x in arrs):
        with np.errstate(all="ignore"):
            r = _npfun(name)(*[x.a for x in arrs])
        if isinstance(r, np.ndarray):
            return SArr(r)
        return r
    ks = [x.k for x in arrs]
    k = _rk(rule, ks, name)
    objs = [_objof(x) for x in arrs]
    shape = np.broadcast_shapes(*[o.shape for o in objs])
    objs = [np.broadcast_to(o, shape) if o.shape != shape else o for o in objs]
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1) if out.ndim else out.reshape(1)
    eng = S.ctx().engine
    sub = None
    its = [list(o.flat) for o in objs]
    if cm is not None:
        for i in range(of.shape[0]):
            g = cm[i]
            if not isinstance(g, SBool) and not g:
                of[i] = S.const(0, k) if k != "b" else False
                continue
            with eng.guarded(g):
                of[i] = cast(clean(f(*[it[i] for it in its])), k)
        return SArr(of.reshape(shape), k, cm=cm)
    for i, xs in enumerate(zip(*its)):
        r = f(*xs)
        if type(r) is not Sym or r.kind != k:
            r = cast(clean(r), k)
        of[i] = r
    res = SArr(of.reshape(shape), k).demote()
    if shape == () and not any(isinstance(x, SArr) and x.ndim == 0 for x in args):
        return res.item()
    if shape == ():
        return res.item()
    return res


def binop(name, swap=False):
    def f(self, o):
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        if not isinstance(o, (SArr, np.ndarray, Sym, SBool, int, float, complex, list, tuple, np.generic)):
            return NotImplemented
        return ew(name, o, self) if swap else ew(name, self, o)
    return f


def _shiftop(left, swap):
    def f(self, o):
        a, b = (o, self) if swap else (self, o)
        a, b = _as_arr(a), _as_arr(b)
        if has_sym([a, b]):
            p = ew("power", 2, b)
            return ew("multiply", a, p) if left else ew("floor_divide", a, p)
        a, b = a.mat().conc(), b.mat().conc()
        return SArr(a << b if left else a >> b)
    return f


for _n, _l in (("lshift", True), ("rshift", False)):
    setattr(SArr, "__%s__" % _n, _shiftop(_l, False))
    setattr(SArr, "__r%s__" % _n, _shiftop(_l, True))
for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"),
               ("floordiv", "floor_divide"), ("mod", "remainder"), ("pow", "power"),
               ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")):
    setattr(SArr, "__%s__" % _n, binop(_u))
    setattr(SArr, "__r%s__" % _n, binop(_u, True))

    def _mki(u):
        def f(self, o):
            r = ew(u, self, o)
            if not isinstance(r, SArr):
                r = _as_arr(r)
            if KR[r.k] > KR[self.k]:
                if not (self.k == "b" and False):
                    raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') "
                                    "with casting rule 'same_kind'" % (u, r.dtype, self.dtype))
            if self.cm is not None:
                self.a = r.a
                self.cm = r.cm
                return self
            if r.shape != self.shape:
                raise ValueError("non-broadcastable output operand")
            self[...] = r
            return self
        return f
    setattr(SArr, "__i%s__" % _n, _mki(_u))
for _n, _u in (("lt", "less"), ("gt", "greater"), ("le", "less_equal"), ("ge", "greater_equal"),
               ("eq", "equal"), ("ne", "not_equal")):
    setattr(SArr, "__%s__" % _n, binop(_u))
SArr.__neg__ = lambda self: ew("negative", self)
SArr.__pos__ = lambda self: ew("positive", self)
SArr.__abs__ = lambda self: ew("absolute", self)
SArr.__invert__ = lambda self: ew("invert", self)
SArr.__matmul__ = lambda self, o: matmul(self, o)
SArr.__rmatmul__ = lambda self, o: matmul(o, self)


# ---------------------------------------------------------------- reductions
def _psum(xs, k):
    t = {}
    num = 0
    for x in xs:
        if isinstance(x, Sym):
            S._addinto(t, x.t)
        elif isinstance(x, SBool):
            S._addinto(t, S.lift(x))
        else:
            num = num + x
    if num != num or (not isinstance(num, complex) and abs(num) == float("inf")):
        return num
    if num:
        S._addinto(t, {S.ONE: num})
    return S.mk(t, k)


def _red1(name, xs, k):
    if name == "add":
        return _psum(xs, "i" if k == "b" else k)
    f = UF[name][0]
    if not xs:
        if name == "multiply":
            return S.const(1, k)
        if name == "logical_and":
            return True
        if name == "logical_or":
            return False
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    if name == "logical_and":
        return S.band(*[tb(x) for x in xs])
    if name == "logical_or":
        return S.bor(*[tb(x) for x in xs])
    if name in ("maximum", "minimum") and sum(is_sym(x) for x in xs) >= S.MAXN:
        return (S.smaxn if name == "maximum" else S.sminn)(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def reduce_(name, x, axis=None, keepdims=False, dtype=None):
    x = _as_arr(x)
    if x.cm is not None:
        if name == "add" and axis is None:
            # sum over a symbolic selection
            return _psum([s_mul(S.indicator(m), v) for m, v in zip(x.cm, x.a)], x.k)
        x.mat()
    if isinstance(axis, (list, tuple)) or isinstance(axis, SArr):
        axis = tuple(int(i) for i in axis)
    if x.a.dtype != _obj:
        f = {"add": np.sum, "multiply": np.prod, "minimum": np.min, "maximum": np.max,
             "logical_or": np.any, "logical_and": np.all}[name]
        r = f(x.a, axis=axis, keepdims=keepdims)
        return SArr(r) if isinstance(r, np.ndarray) else r
    k = norm_dtype(dtype) or x.k
    if axis is None:
        r = _red1(name, list(x.a.flat), k)
        if keepdims:
            return SArr.from_list([r], shape=(1,) * x.a.ndim, k=kind_of(clean(r)))
        return r
    axs = (axis,) if not isinstance(axis, tuple) else axis
    axs = tuple(a % x.a.ndim for a in axs)
    rest = [i for i in range(x.a.ndim) if i not in axs]
    b = np.transpose(x.a, rest + list(axs))
    rs = tuple(x.a.shape[i] for i in rest)
    b = b.reshape((int(np.prod(rs)) if rs else 1, -1)) if b.size else b.reshape((int(np.prod(rs)), 0))
    vals = [_red1(name, list(row), k) for row in b]
    kk = "b" if name.startswith("logical") else ("i" if k == "b" else k)
    if not rs and not keepdims:
        return vals[0]
    shp = rs if not keepdims else tuple(1 if i in axs else x.a.shape[i] for i in range(x.a.ndim))
    return SArr.from_list(vals, shape=shp, k=kk)


def accumulate(name, x, axis=None):
    x = _as_arr(x).mat()
    if axis is None:
        x = x.ravel()
        axis = 0
    if x.a.dtype != _obj:
        return SArr({"add": np.cumsum, "multiply": np.cumprod}[name](x.a, axis=axis))
    f = UF[name][0]
    b = np.moveaxis(x.a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for ix in np.ndindex(b.shape[:-1]):
        r = None
        for j in range(b.shape[-1]):
            r = b[ix + (j,)] if r is None else f(r, b[ix + (j,)])
            out[ix + (j,)] = r
    k = "i" if x.k == "b" else x.k
    return SArr(np.moveaxis(out, -1, axis), k).demote()


def _arg(x, axis, less):
    x.mat()
    if not x.symbolic:
        raise_f = np.argmax if less(1, 2) else np.argmin
        r = raise_f(x.conc(), axis=axis)
        return SArr(r) if isinstance(r, np.ndarray) else r
    if axis is not None and x.a.ndim > 1:
        b = np.moveaxis(x.a, axis, -1)
        out = [_arg(SArr(b[ix].copy(), x.k), None, less) for ix in np.ndindex(b.shape[:-1])]
        return SArr(np.array(out).reshape(b.shape[:-1]), "i")
    xs = list(x.a.flat)
    best = 0
    for i in range(1, len(xs)):
        if bool(less(xs[best], xs[i])):
            best = i
    return best


def sort_arr(x, axis=-1):
    x = _as_arr(x).mat()
    if not x.symbolic:
        return SArr(np.sort(x.conc(), axis=axis))
    import functools
    if axis is None:
        x = x.ravel()
        axis = -1
    b = np.moveaxis(x.a, axis, -1).copy()
    for ix in np.ndindex(b.shape[:-1]):
        xs = sorted(list(b[ix]), key=functools.cmp_to_key(
            lambda p, q: -1 if bool(S.lt(p, q)) else (1 if bool(S.lt(q, p)) else 0)))
        for j, v in enumerate(xs):
            b[ix + (j,)] = v
    return SArr(np.moveaxis(b, -1, axis), x.k)


# ---------------------------------------------------------------- products
def _dotv(xs, ys, k):
    t = {}
    num = 0
    for a, b in zip(xs, ys):
        sa, sb = is_sym(a), is_sym(b)
        if not sa and not sb:
            num = num + a * b
        elif sa and sb:
            S._mulinto(t, S.lift(a), S.lift(b))
        else:
            c, s = (a, b) if sb else (b, a)
            if c == 0:
                continue
            if c != c or abs(c) == float("inf"):
                raise Unsupported("non-finite coefficient")
            S._addinto(t, S.lift(s), c)
    if num:
        S._addinto(t, {S.ONE: num})
    return S.mk(t, k)


def matmul(a, b):
    a, b = _as_arr(a).mat(), _as_arr(b).mat()
    if a.a.dtype != _obj and b.a.dtype != _obj:
        r = np.matmul(a.a, b.a)
        return SArr(r) if isinstance(r, np.ndarray) else r
    k = maxkind(a.k, b.k)
    A, B = _objof(a), _objof(b)
    if A.ndim == 1 and B.ndim == 1:
        if A.shape != B.shape:
            raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
        return _dotv(list(A), list(B), k)
    A2 = A.reshape(1, -1) if A.ndim == 1 else A
    B2 = B.reshape(-1, 1) if B.ndim == 1 else B
    if A2.ndim != 2 or B2.ndim != 2:
        raise Unsupported("matmul nd")
    if A2.shape[1] != B2.shape[0]:
        raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
    out = np.empty((A2.shape[0], B2.shape[1]), dtype=object)
    rows = [list(r) for r in A2]
    cols = [list(B2[:, j]) for j in range(B2.shape[1])]
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            out[i, j] = _dotv(r, c, k)
    if A.ndim == 1:
        out = out[0]
    elif B.ndim == 1:
        out = out[:, 0]
    return SArr(out, k).demote()


def dot(a, b):
    if not isinstance(a, (SArr, np.ndarray, list, tuple)) or not isinstance(b, (SArr, np.ndarray, list, tuple)):
        return ew("multiply", a, b)
    a, b = _as_arr(a), _as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew("multiply", a, b)
    return matmul(a, b)


def convolve(a, v, mode="full"):
    a, v = _as_arr(a).mat(), _as_arr(v).mat()
    if a.a.ndim != 1 or v.a.ndim != 1:
        raise ValueError("object too deep for desired array")
    if a.a.size == 0 or v.a.size == 0:
        raise ValueError("a cannot be empty")
    if a.a.dtype != _obj and v.a.dtype != _obj:
        return SArr(np.convolve(a.a, v.a, mode))
    k = maxkind(a.k, v.k)
    A, B = list(_objof(a)), list(_objof(v))
    n, m = len(A), len(B)
    out = []
    for s in range(n + m - 1):
        lo, hi = max(0, s - m + 1), min(n, s + 1)
        out.append(_dotv(A[lo:hi], [B[s - i] for i in range(lo, hi)], k))
    big, small = max(n, m), min(n, m)
    if mode == "same":
        st = (small - 1) // 2
        out = out[st:st + big]
    elif mode == "valid":
        out = out[small - 1:big]
    return SArr.from_list(out, k=k)


# ---------------------------------------------------------------- Fourier
def fft_axis(x, n=None, axis=-1, fun=np.fft.fft, kout="c"):
    x = _as_arr(x).mat()
    if x.a.ndim == 0:
        raise IndexError("tuple index out of range")
    if n is not None:
        n = int(_conc(n))
        if n < 1:
            raise ValueError("Invalid number of FFT data points (%d) specified." % n)
    if x.a.dtype != _obj:
        return SArr(fun(x.a, n=n, axis=axis))
    b = np.moveaxis(x.a, axis, -1)
    lead = b.shape[:-1]
    N = b.shape[-1] if n is None else n
    res = None
    out = None
    for ix in np.ndindex(lead):
        col = list(b[ix])[:N]
        keys = {}
        for v in col:
            for kk in S.lift(v):
                if kk not in keys:
                    keys[kk] = len(keys)
        M = np.zeros((len(col), max(1, len(keys))), dtype=complex)
        for r, v in enumerate(col):
            for kk, c in S.lift(v).items():
                M[r, keys[kk]] = c
        F = fun(M, n=n, axis=0)
        if out is None:
            out = np.empty(lead + (F.shape[0],), dtype=object)
        sc = np.abs(M).max() if M.size else 0.0
        kl = list(keys)
        thr = 1e-13 * sc
        for r in range(F.shape[0]):
            row = F[r]
            t = {}
            for j in np.nonzero(np.abs(row) > thr)[0]:
                c = complex(row[j])
                if abs(c.imag) <= thr:
                    c = c.real
                elif abs(c.real) <= thr:
                    c = complex(0.0, c.imag)
                t[kl[j]] = c
            out[ix + (r,)] = S.mk(t, kout)
    if out is None:
        out = np.empty(lead + (N,), dtype=object)
    return SArr(np.moveaxis(out, -1, axis), kout).demote()
