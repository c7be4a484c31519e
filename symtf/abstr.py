"""Linear abstraction of the symbolic state (mixed integer/real arithmetic).

Every nonlinear monomial is an opaque real variable; floor/round/trunc, indicators
and comparisons keep their meaning.  The abstraction has more behaviours than the
code, so `unsat` here is a verdict about the code; `sat` is not (unless the query
mentions no opaque variable)."""
import math
from fractions import Fraction

import z3

from . import sym as S
from .sym import Sym, SBool
from .solve import frac, check


class ATr(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.vc, self.mc, self.bc, self.sc = {}, {}, {}, {}
        self.defs = []
        self.opaque = False

    def var(self, vid):
        r = self.vc.get(vid)
        if r is not None:
            return r
        v = self.ctx.vars[vid]
        nm = "%s!%d" % (v.name, vid)
        if v.typ == "x":
            x = z3.ToReal(z3.Int(v.name)) if v.isint else z3.Real(v.name)
            self.vc[vid] = (x, None)
            if v.lo is not None:
                self.defs.append(x >= frac(v.lo))
            if v.hi is not None:
                self.defs.append(x <= frac(v.hi))
        elif v.typ == "z":
            base = v if not v.name.endswith("*") else self.ctx.vars[v.conj]
            a, b = z3.Real(base.name + ".re"), z3.Real(base.name + ".im")
            self.vc[base.id] = (a, b)
            self.vc[base.conj] = (a, -b)
        elif v.typ in ("floor", "round", "trunc"):
            q, _ = self.sym(v.arg)
            n = z3.Int(nm)
            nr = z3.ToReal(n)
            self.vc[vid] = (nr, None)
            il = None
            if v.typ == "floor" and v.num is not None and v.num[1] == int(v.num[1]) and v.num[1] > 0:
                il = self.intlin(v.num[0])
            if il is not None:
                d = int(v.num[1]) * il[1]
                self.defs += [d * n <= il[0], il[0] <= d * n + d - 1]
            elif v.typ == "floor":
                if v.num is not None:
                    a, _ = self.sym(v.num[0])
                    b = frac(v.num[1])
                    self.defs += [b * nr <= a, a < b * nr + b] if v.num[1] > 0 else [b * nr >= a, a > b * nr + b]
                else:
                    self.defs += [nr <= q, q < nr + 1]
            elif v.typ == "round":
                h = z3.RealVal("1/2")
                self.defs += [nr - h <= q, q <= nr + h,
                              z3.Implies(z3.Or(nr - h == q, nr + h == q), n % 2 == 0)]
            else:
                self.defs += [z3.If(q >= 0, z3.And(nr <= q, q < nr + 1), z3.And(nr >= q, q > nr - 1))]
        elif v.typ == "ind":
            self.vc[vid] = (z3.If(self.boolean(v.arg), z3.RealVal(1), z3.RealVal(0)), None)
        elif v.typ == "max":
            qs = [self.sym(a)[0] for a in v.num]
            s = z3.Real("o!" + nm)
            self.vc[vid] = (s, None)
            self.defs += [s >= q for q in qs] + [z3.Or([s == q for q in qs])]
        elif v.typ == "sqrt" and v.num is not None:
            l, _ = self.sym(v.num)
            s = z3.Real("o!" + nm)
            self.vc[vid] = (s, None)
            self.defs += [s == z3.If(l >= 0, l, -l)]
        else:
            self.opaque = True
            s = z3.Real("o!" + nm)
            self.vc[vid] = (s, None)
            if v.typ == "sqrt":
                self.defs.append(s >= 0)
            elif v.typ in ("wrap", "angle"):
                pi = frac(math.pi)
                self.defs += [s > -pi, s <= pi]
                if v.typ == "wrap":
                    q, _ = self.sym(v.arg)
                    k = z3.Int(nm + ".k")
                    self.defs.append(s == q - 2 * pi * z3.ToReal(k))
        return self.vc[vid]

    def mono(self, m, p):
        """(re, im or None) of a monomial"""
        key = (m, p)
        r = self.mc.get(key)
        if r is not None:
            return r
        conds, rest = [], []
        for v, e in m:
            var = self.ctx.vars[v]
            if var.typ == "ind" and e > 0:
                conds.append(self.boolean(var.arg))
            else:
                rest.append((v, e))
        if conds:
            a, b = self.mono(tuple(rest), p)
            c = z3.And(conds) if len(conds) > 1 else conds[0]
            z = z3.RealVal(0)
            r = (z3.If(c, a, z), z3.If(c, b, z) if b is not None else None)
        elif not rest and not p:
            r = (z3.RealVal(1), None)
        elif len(rest) == 1 and rest[0][1] == 1 and not p and self.ctx.vars[rest[0][0]].typ != "den":
            r = self.var(rest[0][0])
        else:
            self.opaque = True
            # definitions of the integer atoms inside are not needed for the abstraction
            x = Sym({key: 1.0}, "c")
            n = len(self.mc)
            cj = S.conj(x)
            ck = next(iter(cj.t)) if isinstance(cj, Sym) and len(cj.t) == 1 else None
            if ck == key and abs(complex(cj.t[ck]) - 1) < 1e-12:
                a = z3.Real("m%d" % n)
                r = (a, None)
                if all(self.ctx.vars[v].pos for v, e in rest) and not p:
                    self.defs.append(a > 0)
            else:
                a, b = z3.Real("m%d.re" % n), z3.Real("m%d.im" % n)
                r = (a, b)
                if ck is not None and abs(complex(cj.t[ck]) - 1) < 1e-12:
                    self.mc[ck] = (a, -b)
        self.mc[key] = r
        return r

    def intlin(self, x):
        """(z3 Int expression, scale) equal to scale * x when every variable of x is an
        integer and the coefficients are rationals with small denominators"""
        if not isinstance(x, Sym):
            return None
        cs = []
        den = 1
        for (m, p), c in x.t.items():
            c = complex(c)
            if p or c.imag:
                return None
            f = Fraction(c.real).limit_denominator(5040)
            if abs(float(f) - c.real) > 1e-14 * max(1.0, abs(c.real)):
                return None
            conds, rest = [], []
            for v, e in m:
                var = self.ctx.vars[v]
                if var.typ == "ind" and e > 0:
                    conds.append(var.arg)
                elif var.isint and e == 1:
                    rest.append(v)
                else:
                    return None
            if len(rest) > 1:
                return None
            cs.append((f, conds, rest))
            den = den * f.denominator // math.gcd(den, f.denominator)
            if den > 10 ** 6:
                return None
        out = []
        for f, conds, rest in cs:
            k = int(f * den)
            if rest:
                a, _ = self.var(rest[0])
                if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL):
                    return None
                t = k * a.arg(0)
            else:
                t = z3.IntVal(k)
            if conds:
                t = z3.If(z3.And([self.boolean(c) for c in conds]), t, z3.IntVal(0))
            out.append(t)
        return (z3.Sum(out) if len(out) > 1 else out[0] if out else z3.IntVal(0)), den

    def sym(self, x):
        if isinstance(x, SBool):
            return z3.If(self.boolean(x), z3.RealVal(1), z3.RealVal(0)), None
        if not isinstance(x, Sym):
            x = complex(x)
            return frac(x.real), (frac(x.imag) if x.imag else None)
        hit = self.sc.get(id(x))
        if hit is not None and hit[0] is x:
            return hit[1]
        re, im = [], []
        for (m, p), c in x.t.items():
            a, b = self.mono(m, p)
            c = complex(c)
            if c.real:
                f = frac(c.real)
                re.append(f * a)
                if b is not None:
                    im.append(f * b)
            if c.imag:
                f = frac(c.imag)
                im.append(f * a)
                if b is not None:
                    re.append(-f * b)
        z = z3.RealVal(0)
        r = z3.Sum(re) if len(re) > 1 else (re[0] if re else z)
        i = (z3.Sum(im) if len(im) > 1 else im[0]) if im and x.kind == "c" else None
        self.sc[id(x)] = (x, (r, i))
        return r, i

    def boolean(self, b):
        if not isinstance(b, SBool):
            return z3.BoolVal(bool(b))
        hit = self.bc.get(id(b))
        if hit is not None and hit[0] is b:
            return hit[1]
        if b.op == "pos":
            il = self.intlin(b.args[0])
            r = il[0] >= 1 if il is not None else self.sym(b.args[0])[0] > 0
        elif b.op == "zero":
            il = self.intlin(b.args[0])
            if il is not None:
                r = il[0] == 0
            else:
                re, im = self.sym(b.args[0])
                r = re == 0 if im is None else z3.And(re == 0, im == 0)
        elif b.op == "not":
            r = z3.Not(self.boolean(b.args[0]))
        elif b.op == "and":
            r = z3.And([self.boolean(a) for a in b.args])
        else:
            r = z3.Or([self.boolean(a) for a in b.args])
        self.bc[id(b)] = (b, r)
        return r


class Abs(object):
    """abstract satisfiability of (conditions and b)"""

    def __init__(self, ctx, stats):
        self.tr = ATr(ctx)
        self.stats = stats
        self.ctx = ctx
        self.fcache = {}

    # ---- the part of the state that only relates integer atoms of the query
    def free(self, x):
        """(variables, mentions an opaque monomial) of a value or Boolean"""
        k = id(x)
        h = self.fcache.get(k)
        if h is not None and h[0] is x:
            return h[1], h[2]
        vs, op = set(), False
        st = [x]
        while st:
            y = st.pop()
            if isinstance(y, SBool):
                st.extend(y.args)
            elif isinstance(y, Sym):
                for (m, p) in y.t:
                    if p:
                        op = True
                    nrest = 0
                    for v, e in m:
                        var = self.ctx.vars[v]
                        if var.typ == "ind" and e > 0:
                            st.append(var.arg)
                        else:
                            nrest += abs(e)
                            vs.add(v)
                            if var.typ == "den":
                                op = True
                    if nrest > 1:
                        op = True
        self.fcache[k] = (x, vs, op)
        return vs, op

    def small(self, conds, extra, ms=1500):
        """query over the extra conditions alone, with the definitions of integer atoms
        whose argument is linear; None when it says nothing"""
        vs = set()
        for e in extra:
            a, op = self.free(e)
            vs |= a
        defs, done, todo = [], set(), list(vs)
        while todo:
            v = todo.pop()
            if v in done:
                continue
            done.add(v)
            var = self.ctx.vars[v]
            if var.typ in ("floor", "round", "trunc"):
                a, op = self.free(var.num[0] if var.num is not None else var.arg)
                if not op:
                    defs.append(v)
                    todo.extend(a)
        if not any(self.ctx.vars[v].isint for v in done):
            return None
        s = z3.Solver()
        tr = ATr(self.ctx)
        for v in done:
            var = self.ctx.vars[v]
            if v in defs or var.typ == "x":
                tr.var(v)
            elif var.isint:
                tr.vc[v] = (z3.ToReal(z3.Int("i!%d" % v)), None)
        zs = [tr.boolean(e) for e in extra]
        for c in conds:
            a, op = self.free(c)
            if not op and a <= done:
                zs.append(tr.boolean(c))
        s.add(*tr.defs)
        s.add(*zs)
        return check(s, self.stats, ms)

    def start(self):
        self.s = z3.Solver()
        self.nd = self.nc = 0

    def sat(self, conds, extra, ms=500):
        if not any(z3.is_expr(e) for e in extra) and self.small(conds, extra) == "unsat":
            return "unsat"
        zs = [self.tr.boolean(c) for c in conds[self.nc:]]
        ze = [e if z3.is_expr(e) else self.tr.boolean(e) for e in extra]
        self.s.add(*self.tr.defs[self.nd:])
        self.nd = len(self.tr.defs)
        self.s.add(*zs)
        self.nc = len(conds)
        if any(i[0] == "int" for i in self.ctx.inputs.values()) and self.relaxed(ze, ms) == "unsat":
            return "unsat"
        self.s.push()
        self.s.add(*ze)
        r = check(self.s, self.stats, ms)
        self.s.pop()
        return r

    def relaxed(self, ze, ms):
        """the same query with the integer inputs ranging over the reals"""
        sub = [(z3.ToReal(z3.Int(n)), z3.Real(n + "~")) for n, i in self.ctx.inputs.items() if i[0] == "int"]
        s = z3.Solver()
        s.add(*[z3.substitute(a, *sub) for a in self.s.assertions()])
        s.add(*[z3.substitute(a, *sub) for a in ze])
        return check(s, self.stats, ms)
