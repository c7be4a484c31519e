"""Symbolic scalars.

A ``Sym`` is an element of a commutative ring with involution:

    sum_k  c_k * (Laurent monomial in atoms) * exp(phi_k)

with complex floating coefficients c_k.  Atoms are input variables (a complex
input z and its conjugate are two independent atoms, the classical trick that
makes conj, |.|^2, Re and Im exact) and *defined* atoms, each carrying its
definition, which is handed to the SMT solver:

    sqrt(Q), den(Q) (used only with negative powers: 1/Q), log(Q),
    ind(b)  (0/1 value of a symbolic Boolean), floor/ceil/round/trunc(Q),
    wrap(Q) (principal value of an angle), angle(P)

Exponentials are kept in group-ring form: exp(a)*exp(b) = exp(a+b).
Defined atoms are hash-consed (numerical fingerprint, then an exact zero test
of the difference of the arguments).
"""
import cmath
import math
import random
from fractions import Fraction

import numpy as _np

ONE = ((), 0)
CHOP = 1e-13


class Unsupported(BaseException):
    """The encoder met a construct it cannot encode (never a verdict)."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut by the explorer."""


class Var(object):
    __slots__ = ("id", "name", "typ", "conj", "real", "pos", "isint", "arg",
                 "fp", "lo", "hi", "nonneg", "num")

    def __init__(self, id, name, typ):
        self.id = id
        self.name = name
        self.typ = typ
        self.conj = id
        self.real = True
        self.pos = False
        self.nonneg = False
        self.isint = False
        self.arg = None
        self.fp = 0.0
        self.lo = self.hi = None
        self.num = None

    def __repr__(self):
        return "<%s:%s>" % (self.typ, self.name)


class Ctx(object):
    def __init__(self, seed=1):
        self.vars = []
        self.red = set()          # ids of atoms with reduction rules
        self.phases = [None]      # id -> Sym exponent
        self.phase_ix = {}
        self.phase_mul = {}
        self.atoms = {}
        self.rng = random.Random(seed)
        self.inputs = {}          # name -> (kind, Var or (Var, Var))
        self.engine = None
        self.boolatoms = {}
        self.mm = {}
        self.clamps = {}

    def newvar(self, name, typ):
        v = Var(len(self.vars), name, typ)
        self.vars.append(v)
        return v

    def input_complex(self, name):
        if name in self.inputs:
            return Sym({(((self.inputs[name][1].id, 1),), 0): 1.0}, "c")
        z = self.newvar(name, "z")
        zb = self.newvar(name + "*", "z")
        z.conj, zb.conj = zb.id, z.id
        z.real = zb.real = False
        z.fp = complex(self.rng.uniform(-1.5, 1.5), self.rng.uniform(-1.5, 1.5))
        zb.fp = z.fp.conjugate()
        self.inputs[name] = ("complex", z, zb)
        return Sym({(((z.id, 1),), 0): 1.0}, "c")

    def input_real(self, name, lo=None, hi=None, isint=False):
        if name in self.inputs:
            return Sym({(((self.inputs[name][1].id, 1),), 0): 1.0},
                       "i" if isint else "f")
        v = self.newvar(name, "x")
        v.lo, v.hi = lo, hi
        v.isint = isint
        a = -1.5 if lo is None else float(lo)
        b = (a + 3 if lo is not None else 1.5) if hi is None else float(hi)
        if lo is None and hi is not None:
            a = b - 3
        v.fp = self.rng.uniform(a + 0.01 * (b - a), b - 0.01 * (b - a))
        if isint:
            v.fp = float(self.rng.randint(int(a), int(b)))
        v.pos = lo is not None and lo > 0
        v.nonneg = lo is not None and lo >= 0
        self.inputs[name] = ("int" if isint else "real", v)
        return Sym({(((v.id, 1),), 0): 1.0}, "i" if isint else "f")


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    return c


def ctx():
    return CTX


# ---------------------------------------------------------------- monomials
def _merge(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def _mono_mul(m1, m2):
    """product of two monomials: a monomial tuple, or a Sym when an atom's
    reduction rule fires."""
    if not m1:
        return m2
    if not m2:
        return m1
    key = (m1, m2) if m1 <= m2 else (m2, m1)
    r = CTX.mm.get(key)
    if r is None:
        r = _reduce(_merge(m1, m2))
        if len(CTX.mm) < 2000000:
            CTX.mm[key] = r
    return r


def _reduce(m):
    red = CTX.red
    if not red:
        return m
    for (v, e) in m:
        if v in red:
            var = CTX.vars[v]
            if var.typ == "ind" and e > 1:
                return _reduce(tuple((a, 1 if a == v else b) for a, b in m))
            if var.typ == "sqrt" and e >= 2:
                rest = tuple((a, b) for a, b in m if a != v)
                if e % 2:
                    rest = _merge(rest, ((v, 1),))
                r = _as_sym(_reduce(rest))
                return r * (var.arg ** (e // 2))
            if var.typ == "den" and e >= 1:
                rest = tuple((a, b) for a, b in m if a != v)
                r = _as_sym(_reduce(rest))
                return r * (var.arg ** e)
    return m


def _as_sym(m):
    if isinstance(m, Sym):
        return m
    return Sym({(m, 0): 1.0}, "f")


def _ph_mul(p, q):
    if p == 0:
        return q
    if q == 0:
        return p
    k = (p, q) if p <= q else (q, p)
    r = CTX.phase_mul.get(k)
    if r is None:
        s = CTX.phases[p] + CTX.phases[q]
        r = _phase_id(s)
        CTX.phase_mul[k] = r
    return r


def _phase_id(s):
    """intern an exponent without constant term"""
    if not isinstance(s, Sym):
        if abs(s) < 1e-12:
            return 0
        raise Unsupported("constant in phase")
    # drop 2*pi*i*integer * (integer monomials)
    t = {}
    for (m, p), c in s.t.items():
        if p == 0 and all(CTX.vars[v].isint and e > 0 for v, e in m):
            k = c / (2j * math.pi)
            if abs(k.imag) < 1e-12 and abs(k.real) >= 0.4:
                kr = round(k.real)
                if abs(k.real - kr) < 1e-11 * max(1, abs(kr)):
                    continue
        t[(m, p)] = c
    if not t:
        return 0
    s = Sym(t, s.kind)
    sup = tuple(sorted(t))
    bucket = CTX.phase_ix.setdefault(sup, [])
    cv = [complex(t[k]) for k in sup]
    for other, pid in bucket:
        if all(abs(a - b) <= 1e-10 * (1 + abs(a)) for a, b in zip(cv, other)):
            return pid
    CTX.phases.append(s)
    pid = len(CTX.phases) - 1
    bucket.append((cv, pid))
    return pid


KR = {"b": 0, "i": 1, "f": 2, "c": 3}


def kind_of(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, SBool):
        return "b"
    if isinstance(x, (bool, _np.bool_)):
        return "b"
    if isinstance(x, (int, _np.integer)):
        return "i"
    if isinstance(x, (float, _np.floating)):
        return "f"
    if isinstance(x, (complex, _np.complexfloating)):
        return "c"
    raise Unsupported("kind_of %r" % type(x))


def maxkind(a, b):
    return a if KR[a] >= KR[b] else b


def is_sym(x):
    return isinstance(x, (Sym, SBool))


def mk(t, kind):
    """build from a dict, collapsing constants"""
    if not t:
        return {"c": 0j, "f": 0.0, "i": 0, "b": 0}[kind]
    if len(t) == 1 and ONE in t:
        return const(t[ONE], kind)
    return Sym(t, kind)


def const(c, kind):
    if kind == "c":
        return complex(c)
    if isinstance(c, complex):
        c = c.real
    if kind in "ib":
        r = int(round(c))
        return r if r == c or abs(r - c) < 1e-9 else float(c)
    return float(c)


def lift(x):
    """number -> (dict)"""
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SBool):
        return indicator(x).t if isinstance(indicator(x), Sym) else lift(indicator(x))
    if isinstance(x, _np.generic):
        x = x.item()
    if isinstance(x, bool):
        x = int(x)
    if x == 0:
        return {}
    return {ONE: x}


def _addinto(t, o, f=1.0):
    for k, c in o.items():
        p = t.get(k)
        if p is None:
            t[k] = c if f == 1.0 else c * f
        else:
            d = c if f == 1.0 else c * f
            s = p + d
            if abs(s) <= CHOP * max(abs(p), abs(d)):
                del t[k]
            else:
                t[k] = s
    return t


def _mulinto(t, a, b):
    """t += a*b for dicts"""
    for (m1, p1), c1 in a.items():
        for (m2, p2), c2 in b.items():
            m = _mono_mul(m1, m2)
            c = c1 * c2
            if p1 or p2:
                p = _ph_mul(p1, p2)
            else:
                p = 0
            if isinstance(m, tuple):
                k = (m, p)
                q = t.get(k)
                if q is None:
                    t[k] = c
                else:
                    s = q + c
                    if abs(s) <= CHOP * max(abs(q), abs(c)):
                        del t[k]
                    else:
                        t[k] = s
            else:
                e = m.t if isinstance(m, Sym) else lift(m)
                if p:
                    e = {(mm, _ph_mul(pp, p)): cc for (mm, pp), cc in e.items()}
                _addinto(t, e, c)
    return t


class Sym(object):
    __slots__ = ("t", "kind", "_fp")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t, kind):
        self.t = t
        self.kind = kind
        self._fp = None

    # ---- arithmetic
    def _bin(self, o):
        if isinstance(o, (Sym, SBool)):
            return True
        return isinstance(o, (int, float, complex, _np.generic, bool))

    def __add__(self, o):
        if not self._bin(o):
            return NotImplemented
        if not isinstance(o, Sym) and not isinstance(o, SBool) and o != o:
            return float("nan")
        t = dict(self.t)
        _addinto(t, lift(o))
        return mk(t, _ak(self.kind, kind_of(o)))

    __radd__ = __add__

    def __neg__(self):
        return Sym({k: -c for k, c in self.t.items()}, self.kind)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if not self._bin(o):
            return NotImplemented
        t = dict(self.t)
        _addinto(t, lift(o), -1.0)
        return mk(t, _ak(self.kind, kind_of(o)))

    def __rsub__(self, o):
        if not self._bin(o):
            return NotImplemented
        t = dict(lift(o))
        _addinto(t, self.t, -1.0)
        return mk(t, _ak(self.kind, kind_of(o)))

    def __mul__(self, o):
        if not self._bin(o):
            return NotImplemented
        k = _ak(self.kind, kind_of(o))
        if not isinstance(o, (Sym, SBool)):
            if o != o or o in (float("inf"), float("-inf")):
                raise Unsupported("inf/nan times symbolic")
            o = o.item() if isinstance(o, _np.generic) else o
            if o == 0:
                return mk({}, k)
            return Sym({kk: c * o for kk, c in self.t.items()}, k)
        return mk(_mulinto({}, self.t, lift(o)), k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._bin(o):
            return NotImplemented
        k = maxkind(maxkind(self.kind, kind_of(o)), "f")
        if not isinstance(o, (Sym, SBool)):
            if o == 0:
                raise Unsupported("division of a symbolic value by zero")
            if o in (float("inf"), float("-inf")):
                return mk({}, k)
            o = o.item() if isinstance(o, _np.generic) else o
            return Sym({kk: c / o for kk, c in self.t.items()}, k)
        if isinstance(o, Sym) and 1 < len(o.t) == len(self.t) and o.t.keys() == self.t.keys():
            k0 = next(iter(o.t))
            q = self.t[k0] / o.t[k0]
            if all(abs(c - q * o.t[kk]) <= 1e-13 * abs(c) for kk, c in self.t.items()):
                if CTX.engine is not None:
                    CTX.engine.assume_nonzero(o)
                return mk({ONE: q}, k)
        r = self * inv(o)
        return setkind(r, k)

    def __rtruediv__(self, o):
        if not self._bin(o):
            return NotImplemented
        k = maxkind(maxkind(self.kind, kind_of(o)), "f")
        return setkind(inv(self) * o, k)

    def __floordiv__(self, o):
        k = _ak(self.kind, kind_of(o))
        return setkind(_fdiv(self, o), k)

    def __rfloordiv__(self, o):
        k = _ak(self.kind, kind_of(o))
        return setkind(floor(o / self), k)

    def __mod__(self, o):
        k = _ak(self.kind, kind_of(o))
        return setkind(self - o * _fdiv(self, o), k)

    def __rmod__(self, o):
        k = _ak(self.kind, kind_of(o))
        return setkind(o - self * floor(o / self), k)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, e, mod=None):
        return power(self, e)

    def __rpow__(self, b):
        return power(b, self)

    def __abs__(self):
        return absolute(self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    # numpy-scalar-like surface
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return _np.dtype({"b": bool, "i": int, "f": float, "c": complex}[self.kind])

    def item(self):
        return self

    def astype(self, dt, **kw):
        from .arr import norm_dtype, cast
        return cast(self, norm_dtype(dt))

    def copy(self):
        return self

    def min(self):
        return self

    max = min
    sum = min

    def mean(self):
        return setkind(self, maxkind(self.kind, "f"))

    def round(self, decimals=0):
        return around(self, decimals)

    def ravel(self):
        from .arr import SArr
        return SArr.from_list([self])

    def reshape(self, *s):
        return self.ravel().reshape(*s)

    # numpy calls these methods on object elements
    def sqrt(self):
        return sqrt(self)

    # ---- comparisons
    def __lt__(self, o):
        return lt(self, o)

    def __gt__(self, o):
        return lt(o, self)

    def __le__(self, o):
        return bnot(lt(o, self))

    def __ge__(self, o):
        return bnot(lt(self, o))

    def __eq__(self, o):
        if not self._bin(o):
            return False
        return iszero(self - o)

    def __ne__(self, o):
        if not self._bin(o):
            return True
        return bnot(iszero(self - o))

    def __hash__(self):
        return 0x5e7         # members of a set are told apart by ==, which forks


    def __bool__(self):
        return bool(bnot(iszero(self)))

    def __index__(self):
        if self.kind not in "ib":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.engine.concretize(self)

    def __int__(self):
        t = trunc(self)
        return t if isinstance(t, int) else CTX.engine.concretize(t)

    def __float__(self):
        raise Unsupported("float() of a symbolic value inside foreign code")

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value inside foreign code")

    def __round__(self, nd=None):
        if nd is None:
            return setkind(around(self, 0), "i")
        return around(self, nd)

    def __floor__(self):
        return setkind(floor(self), "i")

    def __ceil__(self):
        return setkind(-floor(-self), "i")

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        return iszero(self - floor(self))

    def bit_length(self):
        return self.__index__().bit_length()

    def __lshift__(self, o):
        return self * 2 ** int(o)

    def __rshift__(self, o):
        return setkind(_fdiv(self, 2 ** int(o)), "i")

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0 and self.kind == "i":
            return self % (o + 1)
        return self.__index__() & o

    def __or__(self, o):
        return self.__index__() | o

    def __xor__(self, o):
        return self.__index__() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return -self - 1

    def flatten(self):
        return self.ravel()

    def squeeze(self):
        return self

    T = property(lambda self: self)

    def tolist(self):
        return self

    def clip(self, a=None, b=None):
        return self.ravel().clip(a, b)[0]

    def any(self):
        return bnot(iszero(self))

    all = any

    def std(self):
        return self - self

    def fp(self):
        if self._fp is None:
            self._fp = evaluate(self, None)
        return self._fp

    def __repr__(self):
        return "Sym(%s)" % show(self)


def _ak(a, b):
    k = maxkind(a, b)
    return "i" if k == "b" else k


def setkind(x, k):
    if isinstance(x, Sym):
        if x.kind == k:
            return x
        return Sym(x.t, k)
    return const(x, k) if not isinstance(x, SBool) else x


def show(s, lim=8):
    if not isinstance(s, Sym):
        return repr(s)
    out = []
    for (m, p), c in list(s.t.items())[:lim]:
        f = "*".join("%s%s" % (CTX.vars[v].name, "" if e == 1 else "^%d" % e) for v, e in m)
        if p:
            f += "*exp(%s)" % show(CTX.phases[p], 4)
        out.append("%.6g%s" % (c.real, "" if abs(complex(c).imag) < 1e-14 else "%+.6gj" % complex(c).imag) +
                   ("*" + f if f else ""))
    if len(s.t) > lim:
        out.append("...(%d terms)" % len(s.t))
    return " + ".join(out)


# ---------------------------------------------------------------- involution
def conj(x):
    if isinstance(x, SBool):
        return x
    if not isinstance(x, Sym):
        return x.conjugate() if hasattr(x, "conjugate") else x
    if x.kind != "c":
        return x
    t = {}
    vs = CTX.vars
    for (m, p), c in x.t.items():
        plain = True
        for v, e in m:
            if vs[v].conj != v:
                plain = False
                break
        if not plain:
            m = tuple(sorted((vs[v].conj, e) for v, e in m))
        cc = c.conjugate() if isinstance(c, complex) else c
        if p:
            p = _phase_id(setkind(conj(setkind(CTX.phases[p], "c")), "c"))
        k = (m, p)
        if k in t:
            t[k] += cc
        else:
            t[k] = cc
    return Sym(t, "c")


def real(x):
    if isinstance(x, Sym):
        if x.kind != "c":
            return x
        t = {k: 0.5 * c for k, c in x.t.items()}
        _addinto(t, conj(x).t, 0.5)
        return mk(_realcoef(t), "f")
    if isinstance(x, SBool):
        return x
    return x.real


def imag(x):
    if isinstance(x, Sym):
        if x.kind != "c":
            return 0 if x.kind == "i" else 0.0
        t = {k: -0.5j * c for k, c in x.t.items()}
        _addinto(t, conj(x).t, 0.5j)
        return mk(_realcoef(t), "f")
    if isinstance(x, SBool):
        return 0
    return x.imag


def _realcoef(t):
    """coefficients of self-conjugate terms of a real quantity are real"""
    vs = CTX.vars
    out = {}
    for (m, p), c in t.items():
        if isinstance(c, complex):
            if c.imag == 0:
                c = c.real
            elif p == 0 and all(vs[v].conj == v for v, e in m):
                c = c.real
                if c == 0:
                    continue
        out[(m, p)] = c
    return out


def is_real_valued(x):
    if not isinstance(x, Sym):
        return abs(complex(x).imag) < 1e-12
    if x.kind != "c":
        return True
    im = imag(x)
    return not isinstance(im, Sym) and abs(im) < 1e-12


# ---------------------------------------------------------------- evaluation
def evaluate(x, env):
    """numeric value; env maps input name -> number; None = fingerprint"""
    cache = {}
    v = _ev(x, env, cache)
    return v


def _evvar(vid, env, cache):
    if env is None:
        return CTX.vars[vid].fp
    r = cache.get(vid)
    if r is not None:
        return r
    v = CTX.vars[vid]
    if v.typ == "x":
        r = env[v.name]
    elif v.typ == "z":
        r = complex(env[v.name]) if not v.name.endswith("*") else complex(env[v.name[:-1]]).conjugate()
    else:
        r = _atomval(v, lambda a: _ev(a, env, cache), lambda b: _evb(b, env, cache))
    cache[vid] = r
    return r


def _atomval(v, ev, evb):
    if v.typ == "ind":
        return 1.0 if evb(v.arg) else 0.0
    if v.typ == "angle":
        return cmath.phase(ev(v.arg))
    if v.typ == "max":
        return max(complex(ev(a)).real for a in v.num)
    a = ev(v.arg)
    if v.typ == "den":
        return a
    if isinstance(a, complex):
        a = a.real
    if a != a:
        return float("nan")
    if v.typ == "sqrt":
        return math.sqrt(a) if a >= 0 else (0.0 if a > -1e-9 else float("nan"))
    if v.typ == "log":
        return math.log(a) if a > 0 else float("nan")
    if v.typ == "floor":
        return float(math.floor(a + 1e-12))
    if v.typ == "round":
        return float(round(a))
    if v.typ == "trunc":
        return float(math.trunc(a))
    if v.typ == "wrap":
        r = (a + math.pi) % (2 * math.pi)
        r = r - math.pi
        return math.pi if r == -math.pi else r
    if v.typ == "fun":
        return v.lo(a)
    raise Unsupported("eval atom " + v.typ)


def _ev(x, env, cache):
    if isinstance(x, SBool):
        return 1.0 if _evb(x, env, cache) else 0.0
    if not isinstance(x, Sym):
        return x
    if env is None and x._fp is not None:
        return x._fp
    s = 0.0
    for (m, p), c in x.t.items():
        r = c
        for v, e in m:
            val = _evvar(v, env, cache)
            if e == 1:
                r = r * val
            else:
                if val == 0 and e < 0:
                    r = float("nan")
                else:
                    r = r * val ** e
        if p:
            ph = cache.get(("p", p))
            if ph is None:
                try:
                    ph = cmath.exp(_ev(CTX.phases[p], env, cache))
                except OverflowError:
                    ph = float("inf")
                if env is not None:
                    cache[("p", p)] = ph
            r = r * ph
        s = s + r
    if x.kind != "c" and isinstance(s, complex):
        s = s.real
    if env is None:
        x._fp = s
    return s


def _evb(b, env, cache):
    if not isinstance(b, SBool):
        return bool(b)
    op = b.op
    if op == "pos":
        v = _ev(b.args[0], env, cache)
        return (v.real if isinstance(v, complex) else v) > 0
    if op == "zero":
        return abs(_ev(b.args[0], env, cache)) <= 1e-11
    if op == "not":
        return not _evb(b.args[0], env, cache)
    if op == "and":
        return all(_evb(a, env, cache) for a in b.args)
    if op == "or":
        return any(_evb(a, env, cache) for a in b.args)
    raise Unsupported("evb")


# ---------------------------------------------------------------- atoms
def _fpkey(v):
    v = complex(v)
    return (round(v.real, 6), round(v.imag, 6))


def _near_keys(v):
    v = complex(v)
    if v != v or abs(v) == float("inf"):
        return [("nan",)]
    out = []
    for dr in (0, 1e-6, -1e-6):
        for di in (0, 1e-6, -1e-6):
            out.append((round(v.real + dr, 6), round(v.imag + di, 6)))
    return out


def atom(typ, arg, isint=False, name=None):
    """hash-consed defined real atom"""
    v = arg.fp() if isinstance(arg, Sym) else None
    for k in _near_keys(v):
        for var in CTX.atoms.get((typ, k), ()):
            if same(var.arg, arg):
                return Sym({(((var.id, 1),), 0): 1.0}, "i" if isint else "f")
    var = CTX.newvar(name or "%s#%d" % (typ, len(CTX.vars)), typ)
    var.arg = arg
    var.isint = isint
    var.fp = _atomval(var, lambda a: evaluate(a, None), None)
    kk = _near_keys(v)[0]
    CTX.atoms.setdefault((typ, kk), []).append(var)
    if typ in ("sqrt", "den", "ind"):
        CTX.red.add(var.id)
    if typ == "sqrt":
        var.nonneg = True
    if typ == "den":
        # d stands for Q itself; only negative powers survive
        if not is_real_valued(arg):
            raise Unsupported("complex denominator atom")
        return var
    return Sym({(((var.id, 1),), 0): 1.0}, "i" if isint else "f")


def same(a, b):
    """exact algebraic equality test (up to float chop)"""
    if a is b:
        return True
    d = a - b
    return alg_zero(d)


def coefscale(x):
    return max((abs(c) for c in x.t.values()), default=0.0)


def _lead(q):
    """the coefficient an atom's argument is normalised by: the first of the largest"""
    m = 0.999999 * max(abs(c) for c in q.t.values())
    c = min((k, c) for k, c in q.t.items() if abs(c) >= m)[1] if m > 0 else 0.0
    return abs(c) if isinstance(c, complex) else c


def alg_zero(d, tol=1e-10, scale=1.0):
    if isinstance(d, SBool):
        return False
    if not isinstance(d, Sym):
        return abs(d) <= tol * max(1.0, scale)
    if all(abs(c) <= tol * max(scale, 1e-300) for c in d.t.values()):
        return True
    try:
        f = d.fp()
        if f == f and abs(f) > 1e-6 * max(1.0, coefscale(d)):
            return False
    except Unsupported:
        pass
    n, den = clear(d)
    if not isinstance(n, Sym):
        return abs(n) <= tol
    return all(abs(c) <= tol * max(1.0, scale) for c in n.t.values())


def clear(d):
    """multiply by positive powers of atoms occurring with negative exponents;
    returns (numerator, monomial multiplied by)"""
    if not isinstance(d, Sym):
        return d, {}
    mult = {}
    for _ in range(12):
        neg = {}
        for (m, p), c in d.t.items():
            for v, e in m:
                if e < 0:
                    neg[v] = min(neg.get(v, 0), e)
        if not neg:
            break
        # multiply by one monomial clearing everything; sqrt atoms: expand
        v = max(neg)           # innermost-defined last: newest first
        e = -neg[v]
        var = CTX.vars[v]
        if var.typ == "sqrt" and e % 2:
            e += 1
        mult[v] = mult.get(v, 0) + e
        t = {}
        for (m, p), c in d.t.items():
            mm = _reduce(_merge(m, ((v, e),)))
            if isinstance(mm, tuple):
                _addinto(t, {(mm, p): c})
            else:
                ee = mm.t if isinstance(mm, Sym) else lift(mm)
                if p:
                    ee = {(a, _ph_mul(b, p)): cc for (a, b), cc in ee.items()}
                _addinto(t, ee, c)
        d = mk(t, d.kind)
        if not isinstance(d, Sym):
            break
    return d, mult


def _content(q):
    """split q = c * mono * E * rest with c>0 real, rest leading coef 1-ish"""
    ks = sorted(q.t)
    ms = [dict(k[0]) for k in ks]
    common = {}
    vs = set(ms[0])
    for m in ms[1:]:
        vs |= set(m)
    for v in vs:
        e = min(m.get(v, 0) for m in ms)
        if CTX.vars[v].typ in ("ind",):
            continue
        if e:
            common[v] = e
    mono = tuple(sorted(common.items()))
    ph = ks[0][1] if len(set(k[1] for k in ks)) == 1 else 0
    return mono, ph


def inv(q):
    if isinstance(q, SBool):
        q = indicator(q)
    if not isinstance(q, Sym):
        return 1.0 / q
    eng = CTX.engine
    kind = maxkind(q.kind, "f")
    if len(q.t) == 1:
        ((m, p), c), = q.t.items()
        if any(CTX.vars[v].typ == "ind" for v, e in m):
            if eng is not None:
                eng.assume_nonzero(q)
            # 1/(ind*x): defined only where ind = 1
            m2 = tuple((v, e) for v, e in m if CTX.vars[v].typ != "ind")
            base = mk({(m2, p): c}, q.kind)
            return inv(base) if isinstance(base, Sym) else 1.0 / base
        if eng is not None and m:
            eng.assume_nonzero(q)
        pid = _phase_id(-CTX.phases[p]) if p else 0
        m2 = _reduce(tuple((v, -e) for v, e in m))
        if isinstance(m2, tuple):
            return Sym({(m2, pid): 1.0 / c}, kind)
        r = m2 * (1.0 / c)
        if pid:
            r = mk({(a, _ph_mul(b, pid)): cc for (a, b), cc in lift(r).items()}, kind)
        return setkind(r, kind)
    if eng is not None:
        eng.assume_nonzero(q)
    mono, ph = _content(q)
    if mono or ph:
        f = Sym({(mono, ph): 1.0}, q.kind)
        rest = mk({(_merge(m, tuple((v, -e) for v, e in mono)),
                    0 if ph else p): c for (m, p), c in q.t.items()}, q.kind)
        if isinstance(rest, Sym) and len(rest.t) == len(q.t):
            return setkind(inv_q(f, False) * inv_q(rest, False), kind)
    return inv_q(q, False)


def inv_q(q, rec):
    if len(q.t) == 1:
        e = CTX.engine
        CTX.engine = None
        try:
            return inv(q)
        finally:
            CTX.engine = e
    kind = maxkind(q.kind, "f")
    if not is_real_valued(q):
        cq = conj(q)
        n = setkind(real_mul(q, cq), "f")
        return setkind(cq * inv_q(n, False), "c") if isinstance(n, Sym) else cq * (1.0 / n)
    q = setkind(q, "f") if q.kind == "c" else q
    lead = _lead(q)
    if lead == 0:
        lead = 1.0
    qn = Sym({k: c / lead for k, c in q.t.items()}, "f")
    # 1/Q through sqrt atom if there is one with the same argument
    for k in _near_keys(qn.fp()):
        for var in CTX.atoms.get(("sqrt", k), ()):
            if same(var.arg, qn):
                return Sym({(((var.id, -2),), 0): 1.0 / lead}, kind)
    var = atom("den", qn)
    if isinstance(var, Sym):
        var = CTX.vars[list(var.t)[0][0][0][0]]
    return Sym({(((var.id, -1),), 0): 1.0 / lead}, kind)


def real_mul(a, b):
    t = _mulinto({}, a.t, b.t)
    return mk(_realcoef(t), "f")


def psd(q):
    """q is a sum of squares for a syntactic reason: a Hermitian (plus constant)
    quadratic form in the inputs with a positive semi-definite Gram matrix"""
    idx = {None: 0}
    ent = []
    for (m, p), c in q.t.items():
        if p:
            return False
        d = sum(e for _, e in m)
        if d > 2 or any(e < 1 for _, e in m):
            return False
        vs = [v for v, e in m for _ in range(e)]
        vs += [None] * (2 - len(vs))
        ent.append((vs, c))
        for v in vs:
            if v is not None:
                if CTX.vars[v].typ not in ("x", "z"):
                    return False
                r = min(v, CTX.vars[v].conj)
                if r not in idx:
                    idx[r] = len(idx)
                    if CTX.vars[v].conj != v:
                        idx[(r, "im")] = len(idx)
    n = len(idx)
    G = _np.zeros((n, n), dtype=complex)

    def vec(v):
        z = _np.zeros(n, dtype=complex)
        if v is None:
            z[0] = 1
            return z
        r = min(v, CTX.vars[v].conj)
        z[idx[r]] = 1
        if CTX.vars[v].conj != v:
            z[idx[(r, "im")]] = 1j if v == r else -1j
        return z
    for (a, b), c in ent:
        x, y = vec(a), vec(b)
        G += 0.5 * c * (_np.outer(x, y) + _np.outer(y, x))
    G = G.real
    sc = _np.abs(G).max()
    return bool(_np.linalg.eigvalsh(G).min() >= -1e-9 * sc)


def sqrt(q, nonneg=False):
    if isinstance(q, SBool):
        q = indicator(q)
    if not isinstance(q, Sym):
        if isinstance(q, complex):
            return cmath.sqrt(q)
        return math.sqrt(q) if q >= 0 else float("nan")
    if not is_real_valued(q):
        raise Unsupported("sqrt of complex symbolic")
    if q.kind == "c":
        q = real(q)
        if not isinstance(q, Sym):
            return sqrt(q, nonneg)
    mono, ph = _content(q)
    out = 1.0
    # take out even powers of non-negative atoms and z*zb squares
    take = {}
    for v, e in mono:
        var = CTX.vars[v]
        if var.pos or (var.nonneg and e > 0):
            h = (e // 2) * 2
            if h:
                take[v] = h
        elif var.conj != v:
            h = (min(e, dict(mono).get(var.conj, 0)) // 2) * 2
            if h > 0:
                take[v] = h
    if take:
        out = Sym({(tuple(sorted((v, h // 2) for v, h in take.items())), 0): 1.0}, "f")
        q = mk({(_merge(m, tuple((v, -h) for v, h in sorted(take.items()))), p): c
                for (m, p), c in q.t.items()}, "f")
    if isinstance(q, Sym) and len(q.t) == 1:
        ((m, p), c), = q.t.items()
        if p:      # sqrt(exp(2a)) = exp(a), a real
            half = _phase_id(CTX.phases[p] * 0.5)
            out = out * Sym({((), half): 1.0}, "f")
            q = mk({(m, 0): c}, "f")
    if isinstance(q, Sym) and len(q.t) > 1:
        # common real exponential
        ph = set(k[1] for k in q.t)
        if len(ph) == 1 and list(ph)[0] and is_real_valued(CTX.phases[list(ph)[0]]):
            out = out * Sym({((), _phase_id(CTX.phases[list(ph)[0]] * 0.5)): 1.0}, "f")
            q = mk({(m, 0): c for (m, _), c in q.t.items()}, "f")
    if isinstance(q, Sym) and len(q.t) == 1:
        # |z|^k factors of one product
        ((m, p), c), = q.t.items()
        d = dict(m)
        mods = []
        for v, e in m:
            var = CTX.vars[v]
            if var.conj != v and v < var.conj and d.get(var.conj) == e and e % 2:
                mods.append((v, var.conj, e))
        if mods and (len(m) > 2 or mods[0][2] != 1):
            for v, w, e in mods:
                out = out * power(sqrt(Sym({(((v, 1), (w, 1)), 0): 1.0}, "f"), True), e)
                del d[v], d[w]
            q = mk({(tuple(sorted(d.items())), p): c}, "f")
    if not isinstance(q, Sym):
        return out * math.sqrt(max(q, 0.0)) if q > -1e-12 else float("nan")
    # x^2 under the root with x of unknown sign: |x|
    lead = abs(_lead(q))
    qn = Sym({k: c / lead for k, c in q.t.items()}, "f")
    if CTX.engine is not None and not nonneg and not psd(qn):
        CTX.engine.note_nonneg(qn)
    return out * (atom("sqrt", qn) * math.sqrt(lead))


def absolute(x):
    if isinstance(x, SBool):
        return indicator(x)
    if not isinstance(x, Sym):
        return abs(x)
    if x.kind == "c":
        q = real_mul(x, conj(x))
        return sqrt(q, True)
    # real: known sign?
    if len(x.t) == 1:
        ((m, p), c), = x.t.items()
        if all(CTX.vars[v].pos or CTX.vars[v].nonneg or e % 2 == 0 for v, e in m) and \
                not isinstance(c, complex):
            return Sym({(m, p): abs(c)}, x.kind)
    if psd(x):
        return x
    if CTX.engine is not None:
        s = CTX.engine.sign(x)
        if s is not None:
            return x if s >= 0 else -x
    r = sqrt(real_mul(x, x), True)
    if isinstance(r, Sym) and len(r.t) == 1:
        ((m, p), c), = r.t.items()
        if not p and len(m) == 1 and m[0][1] == 1 and CTX.vars[m[0][0]].typ == "sqrt":
            var = CTX.vars[m[0][0]]
            if var.num is None and var.arg is not None:
                var.num = x * (1.0 / c)        # the atom is the modulus of this
    return setkind(r, x.kind)


def exp(x):
    if isinstance(x, SBool):
        x = indicator(x)
    if not isinstance(x, Sym):
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    c0 = 0.0
    t = {}
    fac = 1.0
    for (m, p), c in x.t.items():
        if (m, p) == ONE:
            c0 = c
            continue
        if p == 0 and len(m) == 1 and m[0][1] == 1 and CTX.vars[m[0][0]].typ == "log":
            cc = complex(c)
            if abs(cc.imag) < 1e-13 and abs(cc.real - round(cc.real)) < 1e-12:
                fac = power(CTX.vars[m[0][0]].arg, int(round(cc.real))) * fac
                continue
            if abs(cc.imag) < 1e-13 and abs(2 * cc.real - round(2 * cc.real)) < 1e-12:
                fac = power(sqrt(CTX.vars[m[0][0]].arg), int(round(2 * cc.real))) * fac
                continue
        if p == 0 and len(m) == 1 and m[0][1] == 1:
            va, cc = CTX.vars[m[0][0]], complex(c)
            k = round(cc.imag)
            if va.typ == "ind":
                fac = (1 + (cmath.exp(cc) - 1 if isinstance(c, complex) else math.exp(c) - 1)
                       * Sym({(m, 0): 1.0}, "f")) * fac
                continue
            if abs(cc.real) < 1e-13 and abs(cc.imag - k) < 1e-12 and k and va.arg is not None:
                if va.typ == "angle":
                    z = setkind(va.arg, "c")
                    u = z * inv(absolute(z))
                    fac = power(u if k > 0 else conj(u), abs(k)) * fac
                    continue
                if va.typ == "wrap":
                    fac = exp(setkind(va.arg * (1j * k), "c")) * fac
                    continue
        t[(m, p)] = c
    e = Sym(t, x.kind) if t else None
    pid = _phase_id(e) if e is not None else 0
    cc = cmath.exp(c0) if isinstance(c0, complex) else math.exp(c0)
    k = x.kind if x.kind == "c" else "f"
    r = mk({((), pid): cc}, k)
    return setkind(r * fac, k) if not (isinstance(fac, float) and fac == 1.0) else r


def log(x):
    if not isinstance(x, Sym):
        if isinstance(x, complex):
            return cmath.log(x)
        if x == 0:
            return float("-inf")
        return math.log(x) if x > 0 else float("nan")
    if not is_real_valued(x):
        raise Unsupported("log of complex symbolic")
    x = real(x)
    out = 0.0
    if len(x.t) == 1:
        ((m, p), c), = x.t.items()
        if p and not m:
            return CTX.phases[p] + math.log(c)
        if all(CTX.vars[v].pos for v, e in m) and c.real > 0:
            out = math.log(c)
            if p:
                out = out + CTX.phases[p]
            for v, e in m:
                out = out + e * _logatom(Sym({(((v, 1),), 0): 1.0}, "f"))
            return out
    lead = abs(_lead(x))
    qn = Sym({k: c / lead for k, c in x.t.items()}, "f")
    return _logatom(qn) + math.log(lead)


def _logatom(q):
    if CTX.engine is not None:
        CTX.engine.assume_positive(q)
    return atom("log", q)


def power(b, e):
    if isinstance(b, SBool):
        b = indicator(b)
    if isinstance(e, SBool):
        e = indicator(e)
    if not isinstance(e, Sym):
        if isinstance(e, _np.generic):
            e = e.item()
        if not isinstance(b, Sym):
            return b ** e
        ee = e.real if isinstance(e, complex) and e.imag == 0 else e
        if not isinstance(ee, complex) and abs(ee - round(ee)) < 1e-12:
            n = int(round(ee))
            k = b.kind if isinstance(e, (int, bool)) else maxkind(b.kind, "f")
            if n == 0:
                return const(1, k)
            if n < 0:
                return setkind(power(inv(b), -n), maxkind(k, "f"))
            r = None
            base = b
            while n:
                if n & 1:
                    r = base if r is None else r * base
                n >>= 1
                if n:
                    base = base * base
            return setkind(r, k)
        if not isinstance(ee, complex) and abs(2 * ee - round(2 * ee)) < 1e-12:
            return power(sqrt(b), int(round(2 * ee)))
        return exp(e * log(b))
    if not isinstance(b, Sym):
        bb = float(b)
        if bb == 0:
            # 0**e : 0 for e>0, 1 for e==0, inf for e<0
            if CTX.engine is not None:
                if bool(lt(0, e)):
                    return 0.0
                if bool(iszero(e)):
                    return 1.0
                return math.inf
            raise Unsupported("0 ** symbolic")
        if bb == 1:
            return 1.0
        if bb < 0:
            raise Unsupported("negative ** symbolic")
        return exp(e * math.log(bb))
    return exp(e * log(b))


def cos(x):
    if not isinstance(x, Sym):
        return cmath.cos(x) if isinstance(x, complex) else math.cos(x)
    a = exp(setkind(x * 1j, "c"))
    return real_of((a + inv_exp(a)) * 0.5)


def sin(x):
    if not isinstance(x, Sym):
        return cmath.sin(x) if isinstance(x, complex) else math.sin(x)
    a = exp(setkind(x * 1j, "c"))
    return real_of((a - inv_exp(a)) * (-0.5j))


def inv_exp(a):
    return conj(setkind(a, "c")) if isinstance(a, Sym) else 1.0 / a


def lift_sym(x):
    return x if isinstance(x, Sym) else Sym(lift(x), "c" if isinstance(x, complex) else "f")


def positive_key(k):
    """the product of atoms k is never negative, for a syntactic reason"""
    m, p = k
    if p and not is_real_valued(CTX.phases[p]):
        return False
    d = dict(m)
    for v, e in m:
        var = CTX.vars[v]
        if var.pos or var.nonneg or e % 2 == 0 and var.conj == v:
            continue
        if var.conj != v and d.get(var.conj) == e:
            continue
        if var.typ == "den" and psd(var.arg):
            continue
        return False
    return True


def real_of(x):
    return setkind(x, "f") if isinstance(x, Sym) else (x.real if isinstance(x, complex) else x)


def _pullint(x):
    """split x = k + r with k an integer-valued Sym part"""
    ti, tr = {}, {}
    for (m, p), c in x.t.items():
        cr = c.real if isinstance(c, complex) else c
        if p == 0 and abs(cr - round(cr)) < 1e-12 and all(
                CTX.vars[v].isint and e > 0 for v, e in m):
            ti[(m, p)] = round(cr)
        elif p == 0 and m == ():
            n = math.floor(cr + 1e-12)
            if n:
                ti[(m, p)] = n
            if abs(cr - n) > 1e-12:
                tr[(m, p)] = cr - n
        else:
            tr[(m, p)] = c
    return mk(ti, "f"), mk(tr, "f")


def floor(x):
    if isinstance(x, SBool):
        return indicator(x)
    if not isinstance(x, Sym):
        return float(math.floor(x))
    if x.kind == "i" and all(_isintmono(k, c) for k, c in x.t.items()):
        return setkind(x, "f")
    x = real(x)
    k, r = _pullint(x)
    if not isinstance(r, Sym):
        return k + float(math.floor(r + 1e-12))
    return k + setkind(atom("floor", r, isint=True), "f")


def _fdiv(a, b):
    return floor(a / b) if is_sym(b) else floor_of(a, b)


def floor_of(a, b):
    """floor(a / b) for a constant b; the atom remembers the exact numerator"""
    if a.kind == "c":
        return floor(a / b)
    x = real(a / b)
    if not isinstance(x, Sym):
        return floor(x)
    k, r = _pullint(x)
    if not isinstance(r, Sym):
        return k + float(math.floor(r + 1e-12))
    f = atom("floor", r, isint=True)
    v = single_var(f)
    if v is not None and CTX.vars[v].num is None:
        CTX.vars[v].num = (a - b * k, b)
    return k + setkind(f, "f")


def _isintmono(k, c):
    m, p = k
    return p == 0 and abs(c - round(complex(c).real)) < 1e-12 and all(
        CTX.vars[v].isint and e > 0 for v, e in m)


def ceil(x):
    if not isinstance(x, Sym):
        return float(math.ceil(x)) if not isinstance(x, SBool) else indicator(x)
    return -floor(-x)


def trunc(x):
    """toward zero, integer kind"""
    if isinstance(x, SBool):
        return indicator(x)
    if not isinstance(x, Sym):
        return int(x.real if isinstance(x, complex) else x)
    if all(_isintmono(k, c) for k, c in x.t.items()):
        return setkind(x, "i")
    x = real(x)
    if CTX.engine is not None and CTX.engine.sign(x) == 1:
        return setkind(floor(x), "i")
    return setkind(atom("trunc", x, isint=True), "i")


def around(x, decimals=0):
    if isinstance(x, SBool):
        return indicator(x)
    if not isinstance(x, Sym):
        return float(_np.round(x, decimals)) if not isinstance(x, complex) else complex(_np.round(x, decimals))
    if x.kind == "c":
        return setkind(around(real(x), decimals) + 1j * around(imag(x), decimals), "c")
    if decimals:
        f = 10.0 ** decimals
        return around(x * f) / f
    if all(_isintmono(k, c) for k, c in x.t.items()):
        return x
    return setkind(atom("round", x, isint=True), x.kind)


def angle(x):
    if isinstance(x, SBool):
        return 0.0
    if not isinstance(x, Sym):
        return cmath.phase(x)
    if len(x.t) == 1:
        ((m, p), c), = x.t.items()
        dm = dict(m)
        if all(CTX.vars[v].pos or CTX.vars[v].conj != v and dm.get(CTX.vars[v].conj) == e for v, e in m):
            ph = cmath.phase(c)
            if p:
                e = imag(setkind(CTX.phases[p], "c")) + ph
                return wrap(e)
            return ph
        # z * conj(z) style positive monomials
    if x.kind != "c":
        neg = lt(x, 0)
        return math.pi * indicator(neg) if isinstance(neg, SBool) else (math.pi if neg else 0.0)
    return atom("angle", x)


def wrap(x):
    if not isinstance(x, Sym):
        r = (x + math.pi) % (2 * math.pi) - math.pi
        return math.pi if r == -math.pi else r
    # reduce constant and integer multiples of 2 pi
    t = dict(x.t)
    for k in list(t):
        m, p = k
        if p == 0 and all(CTX.vars[v].isint and e > 0 for v, e in m):
            q = t[k] / (2 * math.pi)
            q = q.real if isinstance(q, complex) else q
            r = q - math.floor(q + 0.5 - 1e-13)
            if m == ():
                if abs(r) < 1e-13:
                    del t[k]
                else:
                    t[k] = r * 2 * math.pi
            elif abs(r) < 1e-12:
                del t[k]
    y = mk(t, "f")
    if not isinstance(y, Sym):
        return wrap(y)
    return atom("wrap", y)


# ---------------------------------------------------------------- booleans
class SBool(object):
    __slots__ = ("op", "args", "_k")
    __array_ufunc__ = None
    __array_priority__ = 1000
    kind = "b"

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        return CTX.engine.fork(self)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            return band(self, o)
        return indicator(self) & o if not isinstance(o, Sym) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_, SBool)):
            return bor(self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __add__(self, o):
        return indicator(self) + o

    __radd__ = __add__

    def __sub__(self, o):
        return indicator(self) - o

    def __rsub__(self, o):
        return o - indicator(self)

    def __mul__(self, o):
        if isinstance(o, SBool):
            return band(self, o)
        return indicator(self) * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return indicator(self) / o

    def __neg__(self):
        return -indicator(self)

    def __pow__(self, e):
        return power(indicator(self), e)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return bnot(self ^ o) if isinstance(o, SBool) else (self if o else bnot(self))
        return indicator(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r)

    def __lt__(self, o):
        return lt(indicator(self), o)

    def __gt__(self, o):
        return lt(o, indicator(self))

    def __le__(self, o):
        return bnot(lt(o, indicator(self)))

    def __ge__(self, o):
        return bnot(lt(indicator(self), o))

    __hash__ = None

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def conjugate(self):
        return self

    conj = conjugate
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return _np.dtype(bool)

    def astype(self, dt, **kw):
        from .arr import norm_dtype, cast
        return cast(self, norm_dtype(dt))

    def item(self):
        return self

    def any(self, *a, **k):
        return self

    all = any

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def __repr__(self):
        return "SBool(%s %r)" % (self.op, self.args)


def _norm_scale(d):
    if not isinstance(d, Sym):
        return d
    s = abs(d.t[min(d.t)])
    if s == 0:
        return d
    return Sym({k: c / s for k, c in d.t.items()}, d.kind)


def _batom(op, d):
    d = _norm_scale(d)
    f = d.fp()
    for k in _near_keys(f):
        for b in CTX.boolatoms.get((op, k), ()):
            if same(b.args[0], d):
                return b
    b = SBool(op, (d,))
    CTX.boolatoms.setdefault((op, _near_keys(f)[0]), []).append(b)
    return b


def lt(a, b):
    d = b - a
    if isinstance(d, SBool):
        d = indicator(d)
    if not isinstance(d, Sym):
        if isinstance(d, complex):
            d = d.real
        return bool(d > 0)
    if not is_real_valued(d):
        raise Unsupported("ordering of complex symbolic values")
    d = real(d)
    if not isinstance(d, Sym):
        return bool(d > 0)
    # quick sign: all terms non-negative atoms with non-negative coefficients
    s = quick_sign(d)
    if s is not None:
        if s > 0:
            return True
        return False
    if len(d.t) <= 2:
        # a log(q) + c > 0  <=>  q > exp(-c / a)  (a > 0)
        la = [(CTX.vars[m[0][0]], c) for (m, p), c in d.t.items()
              if p == 0 and len(m) == 1 and m[0][1] == 1 and CTX.vars[m[0][0]].typ == "log"]
        if len(la) == 1 and (len(d.t) == 1 or ONE in d.t):
            v, c = la[0]
            c, k = complex(c).real, -complex(d.t.get(ONE, 0)).real
            if c and abs(k / c) < 40:
                return lt(math.exp(k / c), v.arg) if c > 0 else lt(v.arg, math.exp(k / c))
    return _batom("pos", d)


def floor_arg(x):
    """(c, k, r): x = c floor(r) + k with numbers c, k; None otherwise"""
    k = vid = c1 = None
    for (m, p), c in x.t.items():
        if m == () and p == 0:
            k = c
        elif p == 0 and len(m) == 1 and m[0][1] == 1 and vid is None and CTX.vars[m[0][0]].typ == "floor":
            vid, c1 = m[0][0], c
        else:
            return None
    if vid is None or CTX.vars[vid].arg is None:
        return None
    return c1, k or 0, CTX.vars[vid].arg


def quick_sign(d):
    """+1 if surely > 0, 0/-1 if surely <= 0 (returns 0), None unknown"""
    pos = neg = False
    strict = False
    for (m, p), c in d.t.items():
        c = complex(c)
        if abs(c.imag) > 1e-13 * abs(c):
            return None
        if p and CTX.phases[p].kind == "c":
            return None
        st = True
        for v, e in m:
            var = CTX.vars[v]
            if var.pos:
                continue
            if (var.nonneg or e % 2 == 0) and var.real and var.typ != "den":
                st = False
                continue
            if var.typ == "ind":
                st = False
                continue
            return None
        if c.real > 0:
            pos = True
            strict = strict or st
        else:
            neg = True
            strict = strict or st
    if pos and not neg and strict:
        return 1
    if neg and not pos:
        return 0
    return None


def iszero(d):
    if isinstance(d, SBool):
        return bnot(d)
    if not isinstance(d, Sym):
        return bool(abs(d) <= 1e-12)
    s = None
    if d.kind != "c":
        s = quick_sign(d)
        if s == 1 or (s == 0 and quick_sign(-d) == 1):
            return False
    if len(d.t) == 1:
        ((m, p), c), = d.t.items()
        keep = tuple((v, 1) for v, e in m if e > 0 and not CTX.vars[v].pos)
        if not keep:
            return False
        d = Sym({(keep, 0): 1.0}, d.kind)
        if len(keep) == 1 and CTX.vars[keep[0][0]].typ == "ind":
            return bnot(CTX.vars[keep[0][0]].arg)
        if len(keep) > 1:
            r = False
            for kk in keep:
                r = bor(r, iszero(Sym({((kk,), 0): 1.0}, d.kind)))
            return r
    return _batom("zero", d)


def bnot(b):
    if not isinstance(b, SBool):
        return not b
    if b.op == "not":
        return b.args[0]
    return SBool("not", (b,))


def bkey(b):
    return id(b) if b.op in ("pos", "zero") else (b.op,) + tuple(sorted((bkey(a) for a in b.args), key=repr))


def _nary(op, items):
    out = []
    seen = set()
    unit, absorb = (True, False) if op == "and" else (False, True)
    for a in items:
        if isinstance(a, SBool):
            sub = a.args if a.op == op else (a,)
            for x in sub:
                k = bkey(x)
                nk = bkey(bnot(x))
                if k in seen:
                    continue
                if nk in seen:
                    return absorb
                seen.add(k)
                out.append(x)
        elif bool(a) == absorb:
            return absorb
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return SBool(op, tuple(out))


def band(*a):
    return _nary("and", a)


def bor(*a):
    return _nary("or", a)


def indicator(b):
    """0/1 value of a Boolean as a Sym polynomial in base indicators"""
    if not isinstance(b, SBool):
        return int(bool(b))
    if b.op == "not":
        return setkind(1 - indicator(b.args[0]), "i")
    if b.op == "and":
        r = 1
        for a in b.args:
            r = r * indicator(a)
        return setkind(r, "i") if isinstance(r, Sym) else r
    if b.op == "or":
        r = 1
        for a in b.args:
            r = r * (1 - indicator(a))
        r = 1 - r
        return setkind(r, "i") if isinstance(r, Sym) else r
    # base atom
    for var in CTX.atoms.get(("ind", id(b)), ()):
        return Sym({(((var.id, 1),), 0): 1.0}, "i")
    var = CTX.newvar("ind#%d" % len(CTX.vars), "ind")
    var.arg = b
    var.isint = True
    var.nonneg = True
    var.fp = 1.0 if _evb(b, None, {}) else 0.0
    CTX.red.add(var.id)
    CTX.atoms.setdefault(("ind", id(b)), []).append(var)
    return Sym({(((var.id, 1),), 0): 1.0}, "i")


def fix_like(x, n, v):
    """x with the only variable of n replaced, given n == v (n linear in it)"""
    if not isinstance(x, Sym) or not isinstance(n, Sym):
        return x
    vid, c1, c0 = None, 0, 0
    for (m, p), c in n.t.items():
        if p != 0:
            return x
        if m == ():
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and vid in (None, m[0][0]):
            vid, c1 = m[0][0], c
        else:
            return x
    if vid is None:
        return x
    val = (v - c0) / c1
    r = 0
    for (m, p), c in x.t.items():
        e = sum(k for w, k in m if w == vid)
        rest = tuple((w, k) for w, k in m if w != vid)
        if e < 0:
            return x
        r = r + mk({(rest, p): c}, x.kind) * (val ** e)
    return setkind(r, x.kind) if isinstance(r, Sym) else clean_num(r, x.kind)


def clean_num(r, kind):
    if kind == "i":
        return int(round(complex(r).real))
    return complex(r).real if kind == "f" else r


def single_var(x):
    """variable id when x is exactly one variable"""
    if isinstance(x, Sym) and len(x.t) == 1:
        ((m, p), c), = x.t.items()
        if not p and c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def given(x, asg):
    """substitute 0/1 for indicator variables"""
    t = {}
    hit = False
    for (m, p), c in x.t.items():
        nm = []
        for v, e in m:
            a = asg.get(v)
            if a is None:
                nm.append((v, e))
            else:
                hit = True
                if a == 0:
                    nm = None
                    break
        if nm is not None:
            k = (tuple(nm), p)
            t[k] = t.get(k, 0.0) + c
    if not hit:
        return x
    mag = max([abs(c) for c in x.t.values()])
    return mk({k: c for k, c in t.items() if abs(c) > 1e-13 * mag}, x.kind)


def ite(c, a, b):
    if not isinstance(c, SBool):
        return a if c else b
    if not is_sym(a) and not is_sym(b):
        try:
            if a == b:
                return a
        except Exception:
            pass
    if CTX.engine is not None:
        t = CTX.engine.known(c)
        if t is not None:
            return a if t else b
    k = kind_of(a)
    k = maxkind(k, kind_of(b))
    if k == "b":
        return bor(band(c, a), band(bnot(c), b))
    for x in (a, b):
        if not is_sym(x) and (x != x or x in (float("inf"), float("-inf"))):
            # non-finite branch: fork
            return a if bool(c) else b
    if isinstance(a, SBool):
        a = indicator(a)
    if isinstance(b, SBool):
        b = indicator(b)
    i = indicator(c)
    return setkind(b + i * (a - b), k)


def _clamp(x, k, upper):
    """min (upper) or max of a symbolic value and a constant; nested ones are put in
    one form, whatever their order"""
    lo, hi = (-math.inf, k) if upper else (k, math.inf)
    base = x
    v = x.fp()
    if v == v:
        for q in _near_keys(v):
            for r, b, l, h in CTX.clamps.get(q, ()):
                if same(r, x):
                    base = b
                    lo, hi = (min(l, k), min(h, k)) if upper else (max(l, k), max(h, k))
                    break
    if lo >= hi:
        return lo
    r = base
    if lo > -math.inf:
        c = lt(base, lo)
        r = ite(c, lo, r)
    if hi < math.inf:
        c = lt(hi, base)
        r = ite(c, hi, r)
    if isinstance(r, Sym) and not (CTX.engine is not None and CTX.engine.guards):
        v = r.fp()
        if v == v:
            CTX.clamps.setdefault(_near_keys(v)[0], []).append((r, base, lo, hi))
    return r


def smax(a, b):
    for x, k in ((a, b), (b, a)):
        if isinstance(x, Sym) and not isinstance(k, (Sym, SBool, complex)) and abs(k) < math.inf and x.kind != "c":
            return _clamp(x, k, False)
    c = lt(a, b)
    return ite(c, b, a)


MAXN = 4        # from so many symbolic values on, a maximum is an atom of its own


def smaxn(xs):
    """maximum of a list (NaN-free)"""
    syms, cs = [], []
    for x in xs:
        if isinstance(x, SBool):
            x = indicator(x)
        if isinstance(x, Sym):
            if not any(same(x, y) for y in syms):
                syms.append(x)
        else:
            cs.append(x)
    if any(c != c for c in cs):
        return float("nan")
    if len(syms) < MAXN or any(not is_real_valued(x) for x in syms):
        r = syms[0]
        for x in syms[1:]:
            r = smax(r, x)
        return smax(r, max(cs)) if cs else r
    kind = "i" if all(x.kind in "ib" for x in syms) and all(isinstance(c, int) for c in cs) else "f"
    syms = [real(x) if x.kind == "c" else x for x in syms]
    f = 1.0
    if not cs:
        com = None
        for x in syms:
            d = {v: e for v, e in _content(x)[0] if CTX.vars[v].pos or (CTX.vars[v].typ == "sqrt") or e % 2 == 0}
            com = d if com is None else {v: min(e, d[v]) for v, e in com.items() if v in d}
            com = {v: e for v, e in com.items() if e > 0 and (CTX.vars[v].pos or CTX.vars[v].nonneg or e % 2 == 0)}
        if com:
            mono = tuple(sorted(com.items()))
            f = Sym({(mono, 0): 1.0}, "f")
            inv_ = tuple((v, -e) for v, e in mono)
            syms = [mk({(_merge(m, inv_), p): c for (m, p), c in x.t.items()}, x.kind) for x in syms]
            if not all(isinstance(x, Sym) for x in syms):
                return f * smaxn(syms)
    lead = max(coefscale(x) for x in syms)
    args = [x * (1.0 / lead) if lead != 1.0 else x for x in syms] + ([max(cs) / lead] if cs else [])
    fps = [x.fp() if isinstance(x, Sym) else x for x in args]
    args = [a for _, a in sorted(zip([complex(v).real for v in fps], args), key=lambda t: t[0])]
    v = max(complex(x).real for x in fps)
    for k in _near_keys(v):
        for var in CTX.atoms.get(("max", k), ()):
            if len(var.num) == len(args) and all(
                    (same(a, b) if isinstance(a, Sym) and isinstance(b, Sym) else
                     not isinstance(a, Sym) and not isinstance(b, Sym) and abs(a - b) < 1e-12)
                    for a, b in zip(var.num, args)):
                return setkind(f * Sym({(((var.id, 1),), 0): lead}, "f"), kind)
    var = CTX.newvar("max#%d" % len(CTX.vars), "max")
    var.num = args
    var.arg = SBool("args", tuple(a for a in args if isinstance(a, Sym)))
    var.fp = v
    var.isint = kind == "i" and lead == 1.0
    sg = [quick_sign(a) if isinstance(a, Sym) else int(a > 0) for a in args]
    var.pos = any(q == 1 for q in sg)
    var.nonneg = var.pos or any(quick_sign(-a) == 0 if isinstance(a, Sym) else a >= 0 for a in args) \
        or any(psd(a) for a in args if isinstance(a, Sym))
    CTX.atoms.setdefault(("max", _near_keys(v)[0]), []).append(var)
    return setkind(f * Sym({(((var.id, 1),), 0): lead}, "f"), kind)


def sminn(xs):
    r = smaxn([-indicator(x) if isinstance(x, SBool) else -x for x in xs])
    return -r


def smin(a, b):
    for x, k in ((a, b), (b, a)):
        if isinstance(x, Sym) and not isinstance(k, (Sym, SBool, complex)) and abs(k) < math.inf and x.kind != "c":
            return _clamp(x, k, True)
    c = lt(b, a)
    return ite(c, b, a)
