"""Translation of symbolic values to z3 and the solver front end."""
import math
import time
from fractions import Fraction

import z3

from . import sym as S
from .sym import Sym, SBool, Unsupported

z3.set_param("memory_max_size", 6000)


def frac(c):
    c = float(c)
    if c == int(c) and abs(c) < 1e15:
        return z3.RealVal(int(c))
    f = Fraction(c).limit_denominator(10 ** 6)
    if abs(float(f) - c) <= 4e-16 * abs(c):
        return z3.RealVal(str(f))
    return z3.RealVal(repr(Fraction(repr(c))) if False else str(Fraction(repr(c))))


class Tr(object):
    """Sym -> pair of z3 reals; keeps the definitions of atoms it used."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vc = {}
        self.pc = {}
        self.bc = {}
        self.sc = {}
        self.defs = []          # z3 constraints
        self.deps = 0

    # -- atoms
    def var(self, vid):
        r = self.vc.get(vid)
        if r is not None:
            return r
        v = self.ctx.vars[vid]
        nm = "%s!%d" % (v.name, vid)
        if v.typ == "x":
            if v.isint:
                x = z3.ToReal(z3.Int(v.name))
            else:
                x = z3.Real(v.name)
            r = (x, None)
            self.vc[vid] = r
            if v.lo is not None:
                self.defs.append(x >= frac(v.lo))
            if v.hi is not None:
                self.defs.append(x <= frac(v.hi))
            return r
        if v.typ == "z":
            base = v if not v.name.endswith("*") else self.ctx.vars[v.conj]
            a, b = z3.Real(base.name + ".re"), z3.Real(base.name + ".im")
            self.vc[base.id] = (a, b)
            self.vc[base.conj] = (a, -b)
            return self.vc[vid]
        if v.typ == "ind":
            b = self.boolean(v.arg)
            r = (z3.If(b, z3.RealVal(1), z3.RealVal(0)), None)
            self.vc[vid] = r
            return r
        if v.typ == "sqrt":
            q, _ = self.sym(v.arg)
            s = z3.Real(nm)
            self.vc[vid] = (s, None)
            if v.num is not None:
                l, _ = self.sym(v.num)
                self.defs += [s == z3.If(l >= 0, l, -l)]
            else:
                self.defs += [s >= 0, s * s == q]
            return self.vc[vid]
        if v.typ == "max":
            qs = [self.sym(a)[0] for a in v.num]
            s = z3.Real(nm)
            self.vc[vid] = (s, None)
            self.defs += [s >= q for q in qs] + [z3.Or([s == q for q in qs])]
            return self.vc[vid]
        if v.typ == "den":
            q, _ = self.sym(v.arg)
            s = z3.Real(nm)             # s = 1/Q
            self.vc[vid] = (s, None)
            self.defs += [s * q == 1]
            return self.vc[vid]
        if v.typ in ("floor", "round", "trunc"):
            q, _ = self.sym(v.arg)
            n = z3.Int(nm)
            self.vc[vid] = (z3.ToReal(n), None)
            nr = z3.ToReal(n)
            if v.typ == "floor":
                if v.num is not None:
                    a, _ = self.sym(v.num[0])
                    b = frac(v.num[1])
                    self.defs += [b * nr <= a, a < b * nr + b] if v.num[1] > 0 else [b * nr >= a, a > b * nr + b]
                else:
                    self.defs += [nr <= q, q < nr + 1]
                self._ceil_log2(v, nr)
            elif v.typ == "round":
                h = z3.RealVal("1/2")
                self.defs += [nr - h <= q, q <= nr + h,
                              z3.Implies(z3.Or(nr - h == q, nr + h == q), n % 2 == 0)]
            else:
                self.defs += [z3.If(q >= 0, z3.And(nr <= q, q < nr + 1),
                                    z3.And(nr >= q, q > nr - 1))]
            return self.vc[vid]
        if v.typ == "wrap":
            q, _ = self.sym(v.arg)
            k = z3.Int(nm + ".k")
            pi = frac(math.pi)
            w = q - 2 * pi * z3.ToReal(k)
            self.vc[vid] = (w, None)
            self.defs += [w > -pi, w <= pi]
            return self.vc[vid]
        if v.typ == "angle":
            a, b = self.sym(v.arg)
            b = b if b is not None else z3.RealVal(0)
            th = z3.Real(nm)
            pi = frac(math.pi)
            self.vc[vid] = (th, None)
            self.defs += [th > -pi, th <= pi,
                          z3.Implies(b > 0, z3.And(th > 0, th < pi)),
                          z3.Implies(b < 0, th < 0),
                          z3.Implies(z3.And(b == 0, a >= 0), th == 0),
                          z3.Implies(z3.And(b == 0, a < 0), th == pi),
                          z3.Implies(z3.And(a > 0), z3.And(th > -pi / 2, th < pi / 2)),
                          z3.Implies(z3.And(a < 0), z3.Or(th > pi / 2, th < -pi / 2))]
            return self.vc[vid]
        if v.typ == "log":
            q, _ = self.sym(v.arg)
            L = z3.Real(nm)
            self.vc[vid] = (L, None)
            self.defs += [q > 0, (q > 1) == (L > 0), (q == 1) == (L == 0),
                          L <= q - 1, L * q >= q - 1]
            return self.vc[vid]
        if v.typ == "fun":
            s = z3.Real(nm)
            self.sym(v.arg)
            self.vc[vid] = (s, None)
            return self.vc[vid]
        raise Unsupported("z3 atom " + v.typ)

    def _ceil_log2(self, v, nr):
        """floor(-log(x)/log 2 + c): exact table 2**k brackets"""
        a = v.arg
        if len(a.t) != 1:
            return
        ((m, p), c), = a.t.items()
        if p or len(m) != 1 or m[0][1] != 1:
            return
        lv = self.ctx.vars[m[0][0]]
        if lv.typ != "log":
            return
        c = complex(c).real
        if abs(abs(c) * math.log(2) - 1) > 1e-12:
            return
        q, _ = self.sym(lv.arg)
        for k in range(-12, 41):
            lo, hi = Fraction(2) ** k, Fraction(2) ** (k + 1)
            lo, hi = z3.RealVal(str(lo)), z3.RealVal(str(hi))
            if c > 0:        # floor(log2 q) = k  <=> 2^k <= q < 2^(k+1)
                self.defs.append((nr == k) == z3.And(lo <= q, q < hi))
            else:            # floor(-log2 q) = -(k+1) <=> 2^k < q <= 2^(k+1)
                self.defs.append((nr == -(k + 1)) == z3.And(lo < q, q <= hi))

    def phase(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        ph = self.ctx.phases[p]
        if ph.kind != "c" or S.is_real_valued(ph):
            e = z3.Real("exp!%d" % p)
            self.pc[p] = (e, None)
            a, _ = self.sym(S.real(ph))
            self.defs += [e > 0, (a > 0) == (e > 1), (a == 0) == (e == 1), e >= 1 + a]
            return self.pc[p]
        # one representative for a phase and its conjugate/inverse
        cp = S._phase_id(S.conj(S.setkind(ph, "c")))
        if cp in self.pc:
            a, b = self.pc[cp]
            self.pc[p] = (a, -b)
            return self.pc[p]
        c, s = z3.Real("cos!%d" % p), z3.Real("sin!%d" % p)
        re = S.real(ph)
        if isinstance(re, Sym):
            self.pc[p] = (c, s)
            m = z3.Real("mag!%d" % p)
            a, _ = self.sym(re)
            self.defs += [m > 0, c * c + s * s == m * m, (a > 0) == (m > 1), (a == 0) == (m == 1), m >= 1 + a]
        else:
            self.pc[p] = (c, s)
            self.defs += [c * c + s * s == 1]
        return self.pc[p]

    # -- expressions
    def sym(self, x):
        if isinstance(x, SBool):
            b = self.boolean(x)
            return z3.If(b, z3.RealVal(1), z3.RealVal(0)), None
        if not isinstance(x, Sym):
            x = complex(x)
            return frac(x.real), (frac(x.imag) if x.imag else None)
        key = id(x)
        hit = self.sc.get(key)
        if hit is not None and hit[0] is x:
            return hit[1]
        re, im = [], []
        for (m, p), c in x.t.items():
            a, b = z3.RealVal(1), None
            for v, e in m:
                var = self.ctx.vars[v]
                va, vb = self.var(v)
                if var.typ == "den":
                    e = -e
                    base = (va, vb)
                elif e < 0:
                    if vb is None:
                        r = self.recip(v)
                        base = (r, None)
                    else:
                        r = self.recip(v)
                        base = r
                    e = -e
                else:
                    base = (va, vb)
                for _ in range(e):
                    a, b = cmul(a, b, base[0], base[1])
            if p:
                pa, pb = self.phase(p)
                a, b = cmul(a, b, pa, pb)
            cc = complex(c)
            if cc.imag == 0:
                f = frac(cc.real)
                re.append(f * a)
                if b is not None:
                    im.append(f * b)
            else:
                cr, ci = frac(cc.real), frac(cc.imag)
                if b is None:
                    if cc.real:
                        re.append(cr * a)
                    im.append(ci * a)
                else:
                    re.append(cr * a - ci * b)
                    im.append(cr * b + ci * a)
        r = z3.Sum(re) if len(re) > 1 else (re[0] if re else z3.RealVal(0))
        i = None
        if x.kind == "c" and im:
            i = z3.Sum(im) if len(im) > 1 else im[0]
        out = (z3.simplify(r), z3.simplify(i) if i is not None else None)
        self.sc[key] = (x, out)
        return out

    def recip(self, v):
        k = ("r", v)
        r = self.vc.get(k)
        if r is not None:
            return r
        va, vb = self.var(v)
        nm = "%s!%d" % (self.ctx.vars[v].name, v)
        if vb is None:
            r = z3.Real("inv!" + nm)
            self.vc[k] = r
            self.defs.append(r * va == 1)
            return r
        a, b = z3.Real("inv!" + nm + ".re"), z3.Real("inv!" + nm + ".im")
        self.vc[k] = (a, b)
        self.vc[("r", self.ctx.vars[v].conj)] = (a, -b)
        self.defs += [a * va - b * vb == 1, a * vb + b * va == 0]
        return (a, b)

    def boolean(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        key = id(b)
        hit = self.bc.get(key)
        if hit is not None and hit[0] is b:
            return hit[1]
        if b.op == "pos":
            n, mult = S.clear(b.args[0])
            # only clear when the multiplier is sign-definite (even / positive)
            d = b.args[0]
            re, _ = self.sym(d)
            r = re > 0
        elif b.op == "zero":
            n, mult = S.clear(b.args[0])
            re, im = self.sym(n if isinstance(n, Sym) else b.args[0])
            r = re == 0 if im is None else z3.And(re == 0, im == 0)
        elif b.op == "not":
            r = z3.Not(self.boolean(b.args[0]))
        elif b.op == "and":
            r = z3.And([self.boolean(a) for a in b.args])
        elif b.op == "or":
            r = z3.Or([self.boolean(a) for a in b.args])
        else:
            raise Unsupported("bool op")
        self.bc[key] = (b, r)
        return r


def cmul(a, b, c, d):
    if b is None and d is None:
        return a * c, None
    if b is None:
        return a * c, a * d
    if d is None:
        return a * c, b * c
    return a * c - b * d, a * d + b * c


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat,
                    unknown=self.unknown, solver_s=round(self.time, 3))

    def add(self, d):
        self.queries += d["queries"]
        self.unsat += d["unsat"]
        self.sat += d["sat"]
        self.unknown += d["unknown"]
        self.time += d["solver_s"]


def check(solver, stats, timeout_ms, *extra):
    solver.set("timeout", int(timeout_ms))
    t0 = time.time()
    try:
        r = solver.check(*extra)
    except z3.Z3Exception:
        r = z3.unknown
    stats.time += time.time() - t0
    stats.queries += 1
    if r == z3.unsat:
        stats.unsat += 1
        return "unsat"
    if r == z3.sat:
        stats.sat += 1
        return "sat"
    stats.unknown += 1
    return "unknown"


def val(model, e):
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return float(v.as_long())
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) \
            if abs(v.numerator_as_long()) < 1 << 900 and v.denominator_as_long() < 1 << 900 \
            else float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0.0


def model_env(ctx, model):
    env = {}
    for name, info in ctx.inputs.items():
        if info[0] == "complex":
            env[name] = complex(val(model, z3.Real(name + ".re")), val(model, z3.Real(name + ".im")))
        elif info[0] == "int":
            env[name] = int(val(model, z3.Int(name)))
        else:
            env[name] = val(model, z3.Real(name))
    return env
