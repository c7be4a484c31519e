"""Turns the obligations of the explored paths into solver queries."""
import math
import random
import time

import z3

from . import sym as S
from . import solve
from .sym import Sym, SBool, Unsupported
from .solve import Tr, check, frac

DEF_MAX = 30.0      # seconds of undecided definedness queries per instance
TOL = 1e-8          # relative to the largest coefficient; box |monomial| <= 1


class Verdict(object):
    def __init__(self):
        self.proved = 0
        self.cands = []          # (name, env)
        self.unknown = []        # names
        self.excluded = []       # definedness conditions reachable but harmless


def _terms(x):
    return x.t if isinstance(x, Sym) else ({S.ONE: x} if x else {})


def _finite(x):
    if isinstance(x, Sym):
        return all(c == c and abs(c) != float("inf") for c in x.t.values())
    if isinstance(x, SBool):
        return True
    return x == x and abs(x) != float("inf")


def _coarse(t):
    """coefficients rounded to a few bits, and the most the rounding can change the value"""
    out, e = {}, 0.0
    for k, c in t.items():
        c = complex(c)
        q = []
        for v in (c.real, c.imag):
            if v:
                m, x = math.frexp(v)
                q.append(math.ldexp(round(m * 256) / 256.0, x))
                e += abs(v - q[-1])
            else:
                q.append(0.0)
        out[k] = complex(*q)
    return out, e


class Lra(object):
    """linear abstraction: one bounded real variable per (re, im) of a monomial"""

    def __init__(self):
        self.v = {}
        self.cons = {}

    def bounds(self, keys):
        out = []
        for k in keys:
            out += self.cons.get(k, [])
        return out

    def var(self, k):
        r = self.v.get(k)
        if r is None:
            if k == S.ONE:
                r = (z3.RealVal(1), z3.RealVal(0))
            else:
                a, b = z3.Real("m%d.re" % len(self.v)), z3.Real("m%d.im" % len(self.v))
                self.cons[k] = [a >= -1, a <= 1, b >= -1, b <= 1]
                r = (a, b)
            self.v[k] = r
        return r

    def lin(self, t):
        re, im = [], []
        for k, c in t.items():
            a, b = self.var(k)
            c = complex(c)
            if c.real:
                f = frac(c.real)
                re.append(f * a)
                im.append(f * b)
            if c.imag:
                f = frac(c.imag)
                re.append(-f * b)
                im.append(f * a)
        z = z3.RealVal(0)
        return (z3.Sum(re) if re else z), (z3.Sum(im) if im else z)


def _fix(tr, ctx, env, names=None):
    cs = []
    for n, info in ctx.inputs.items():
        if names is not None and n not in names:
            continue
        if n not in env:
            continue
        if info[0] == "complex":
            v = complex(env[n])
            cs += [z3.Real(n + ".re") == frac(v.real), z3.Real(n + ".im") == frac(v.imag)]
        elif info[0] == "int":
            cs.append(z3.Int(n) == int(env[n]))
        else:
            cs.append(z3.Real(n) == frac(env[n]))
    return cs


class Decider(object):
    def __init__(self, engine, deadline, replay, seed=1):
        self.e = engine
        self.ctx = engine.ctx
        self.deadline = deadline
        self.replay = replay        # env -> None (holds) or failure description
        self.rng = random.Random(seed)
        self.v = Verdict()
        self.apath = None
        self.spent = 0.0
        self.nconc = 0
        self.tr = engine.tr
        self.stats = engine.stats

    # ------------------------------------------------------------------
    def run(self):
        for p in self.e.paths:
            self.path(p)
            if self.v.cands:
                return self.v
        return self.v

    def left(self):
        return self.deadline - time.time()

    def base(self, p):
        s = z3.Solver()
        cs = [self.tr.boolean(c) for c in p.assume + p.pc]
        return s, cs

    def psamples(self, p):
        out = []
        for e in self.e.samples0:
            try:
                if all(S._evb(c, e, {}) for c in p.assume + p.pc):
                    out.append(e)
            except (KeyError, OverflowError, ZeroDivisionError):
                pass
        return out

    def query(self, cons, ms):
        """full query with definitions; returns verdict, model"""
        s = z3.Solver()
        for d in self.tr.defs:
            s.add(d)
        for c in cons:
            s.add(c)
        r = check(s, self.stats, ms)
        if r == "unknown":
            t = z3.Then("simplify", "purify-arith", "solve-eqs", "qfnra-nlsat").solver()
            for d in self.tr.defs:
                t.add(d)
            for c in cons:
                t.add(c)
            r2 = check(t, self.stats, ms)
            if r2 != "unknown":
                return r2, (t.model() if r2 == "sat" else None)
        return r, (s.model() if r == "sat" else None)

    def candidate(self, name, p, model=None, env=None):
        """replay; True if confirmed"""
        if env is None:
            env = solve.model_env(self.ctx, model)
        for v in env.values():
            v = complex(*v) if isinstance(v, (list, tuple)) else complex(v)
            if not abs(v) <= 1e6:
                return False           # float rounding, not the property, would decide
        fail = self.replay(env)
        if fail is not None:
            self.v.cands.append((name, env, fail))
            return True
        return False

    # ------------------------------------------------------------------
    def path(self, p):
        samples = self.psamples(p)
        if p.exc is not None:
            return self.find_model(p, "exception: " + p.exc, samples)
        suspects = []
        lra = Lra()
        viol = []
        nob = nfull = 0
        stride = max(1, sum(len(o.a) for o in p.obls if o.kind == "eq") // 40)
        for o in p.obls:
            if o.kind == "eq":
                for i, (a, b) in enumerate(zip(o.a, o.b)):
                    nm = "%s[%d]" % (o.name, i)
                    if isinstance(a, SBool):
                        a = S.indicator(a)
                    if isinstance(b, SBool):
                        b = S.indicator(b)
                    if not _finite(a) or not _finite(b):
                        if not isinstance(a, Sym) and not isinstance(b, Sym) and (
                                a != a and b != b or a == b):
                            nob += 1
                            continue
                        suspects.append((nm, None, "nonfinite"))
                        continue
                    d = a - b
                    sc = max([abs(c) for c in _terms(a).values()] + [abs(c) for c in _terms(b).values()]
                             + [1e-3 * o.scale])
                    n = d
                    if isinstance(d, Sym) and any(abs(c) > TOL * sc for c in d.t.values()):
                        n, _ = S.clear(d)
                    if any(abs(c) > TOL * max(sc, 1e-300) for c in _terms(n).values()):
                        suspects.append((nm, d, "eq", sc, a, b))
                        continue
                    nob += 1
                    ta, tb = _terms(a), _terms(b)
                    if n is d and len(ta) + len(tb) <= 120 and nfull < 40 and nob % stride == 0:
                        nfull += 1
                        ra, ia = lra.lin(ta)
                        rb, ib = lra.lin(tb)
                        dr, di = ra - rb, ia - ib
                    else:
                        if not _terms(n):
                            viol.append(None)
                            continue
                        # every chunk within its share of the tolerance
                        ts = list(_terms(n).items())
                        for j in range(0, len(ts), 48):
                            q, slack = _coarse(dict(ts[j:j + 48]))
                            dr, di = lra.lin(q)
                            t = frac(TOL * sc * max(len(q), 4 if len(ts) < 4 else 1) - slack)
                            viol.append((len(q), set(q), z3.Or(dr > t, dr < -t, di > t, di < -t)))
                        continue
                    t = frac(TOL * sc * max(4, len(_terms(n))))
                    viol.append((len(ta) + len(tb), set(ta) | set(tb), z3.Or(dr > t, dr < -t, di > t, di < -t)))
            else:
                for i, c in enumerate(o.c):
                    nm = "%s[%d]" % (o.name, i) if len(o.c) > 1 else o.name
                    if isinstance(c, SBool):
                        suspects.append((nm, c, "ok"))
                    elif not c:
                        suspects.append((nm, None, "false"))
                    else:
                        nob += 1
        vs = [v for v in viol if v is not None]
        # batches keep the disjunctions small
        while vs:
            k, tot = 0, 0
            while k < len(vs) and k < 40 and (k == 0 or tot + vs[k][0] <= 60):
                tot += vs[k][0]
                k += 1
            s = z3.SolverFor("QF_LRA")
            s.add(*lra.bounds(set().union(*[v[1] for v in vs[:k]])))
            s.add(z3.Or([v[2] for v in vs[:k]]))
            r = check(s, self.stats, 60000)
            if r != "unsat":
                self.v.unknown.append("linear query " + r)
            vs = vs[k:]
        self.v.proved += nob
        # suspects: those a sample refutes first
        order = []
        for sp in suspects:
            order.append((0 if self.sample_refutes(sp, samples) else 1, len(order), sp))
        order.sort(key=lambda x: x[:2])
        nref = 0
        for pr, _, sp in order:
            if pr == 0:
                nref += 1
                if nref > 6:
                    continue
            if self.left() < 0:
                self.v.unknown.append("time limit before " + sp[0])
                return
            if self.suspect(p, sp, samples):
                return
        self.definedness(p, samples)

    def sample_refutes(self, sp, samples):
        if sp[2] in ("false", "nonfinite"):
            return bool(samples)
        for e in samples:
            try:
                if sp[2] == "eq":
                    v = S.evaluate(sp[1], e)
                    if v == v and abs(v) > 1e-5 * sp[3]:
                        return True
                elif not S._evb(sp[1], e, {}):
                    return True
            except (KeyError, OverflowError, ZeroDivisionError):
                pass
        return False

    def find_model(self, p, name, samples):
        _, cs = self.base(p)
        for e in samples[:3]:
            r, m = self.query(cs + _fix(self.tr, self.ctx, e), 5000)
            if self.candidate(name, p, env=e):
                return True
        r, m = self.query(cs, 20000)
        if r == "sat":
            if self.candidate(name, p, model=m):
                return True
            self.v.unknown.append("model not confirmed: " + name)
        elif r == "unknown":
            self.v.unknown.append("reachability unknown: " + name)
        else:
            self.v.proved += 1       # the failing path is unreachable
        return False

    def suspect(self, p, sp, samples):
        name, d, kind = sp[:3]
        if kind in ("false", "nonfinite"):
            return self.find_model(p, name, samples)
        _, cs = self.base(p)
        neg = []
        if kind == "eq":
            re, im = self.tr.sym(d)
            for eps in (1e-2, 1e-5):
                t = frac(eps * sp[3])
                alt = [re > t, re < -t]
                if im is not None:
                    alt += [im > t, im < -t]
                neg.append(z3.Or(alt))
        else:
            neg.append(z3.Not(self.tr.boolean(d)))
        tried = 0
        for e in samples:
            try:
                if kind == "eq":
                    if not abs(S.evaluate(d, e)) > 1e-5 * sp[3]:
                        continue
                elif S._evb(d, e, {}):
                    continue
            except (KeyError, OverflowError, ZeroDivisionError):
                continue
            r, m = self.query(cs + [neg[-1]] + _fix(self.tr, self.ctx, e), 8000)
            if r != "unsat" and self.candidate(name, p, env=e):
                return True
            tried += 1
            if tried >= 3:
                break
        box = self.box()
        # linear abstraction first: unsat there is a verdict
        at = self.e.abs.tr
        if kind == "eq":
            re, im = at.sym(d)
            t = frac(1e-5 * sp[3])
            an = z3.Or([re > t, re < -t] + ([im > t, im < -t] if im is not None else []))
        else:
            an = z3.Not(at.boolean(d))
        if self.apath is not p:
            self.apath = p
            self.e.abs.start()
        if (kind != "eq" and self.e.abs.small(p.assume + p.pc, [S.bnot(d)], 5000) == "unsat"
                or self.e.abs.sat(p.assume + p.pc, [an], 5000) == "unsat"):
            self.v.proved += 1
            return False
        if kind == "eq" and self.same_square(p, sp[4], sp[5]):
            self.v.proved += 1
            return False
        # the property is decided by the last (weakest) negation
        ms = int(max(1000, min(30000, self.left() * 1000)))
        r, m = self.query(cs + box + [neg[0]], ms)
        if r == "unsat" and len(neg) > 1:
            r, m = self.query(cs + box + [neg[-1]], ms)
        if r == "unsat":
            self.v.proved += 1
            return False
        if r == "sat":
            if self.candidate(name, p, model=m):
                return True
            if self.concretise(p, sp, cs + [neg[-1]], m):
                return True
            self.v.unknown.append("counterexample not confirmed: " + name)
            return False
        if self.concretise(p, sp, cs + [neg[-1]], None):
            return True
        self.v.unknown.append("unknown: " + name)
        return False

    def concretise(self, p, sp, cons, model):
        """the solver left a counterexample open (the model gives a transcendental function a value it does not have):
        fix the inputs of that counterexample to nearby values and ask again; whatever is found is replayed"""
        name, d, kind = sp[:3]
        if self.nconc >= 3 or not self.ctx.inputs:
            return False
        self.nconc += 1
        base = {}
        if model is not None:
            try:
                base = solve.model_env(self.ctx, model)
            except (ValueError, KeyError, OverflowError, z3.Z3Exception):
                base = {}
        found = 0
        for k in range(400):
            e = {}
            for n, info in self.ctx.inputs.items():
                if k % 3 and n in base and self.rng.random() < (0.8 if k % 3 == 1 else 0.4):
                    e[n] = base[n]
                elif info[0] == "complex":
                    e[n] = complex(self.rng.uniform(-1.5, 1.5), self.rng.uniform(-1.5, 1.5))
                else:
                    v = info[1]
                    a = -1.5 if v.lo is None else float(v.lo)
                    b = (a + 3 if v.lo is not None else 1.5) if v.hi is None else float(v.hi)
                    if v.lo is None and v.hi is not None:
                        a = b - 3
                    e[n] = self.rng.randint(int(a), int(b)) if info[0] == "int" else self.rng.uniform(a, b)
            try:
                if not all(S._evb(c, e, {}) for c in p.assume + p.pc):
                    continue
                if kind == "eq":
                    if not abs(S.evaluate(d, e)) > 1e-5 * sp[3]:
                        continue
                elif S._evb(d, e, {}):
                    continue
            except (KeyError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
            r, _ = self.query(cons + _fix(self.tr, self.ctx, e), 5000)
            if r != "unsat" and self.candidate(name, p, env=e):
                return True
            found += 1
            if found >= 3:
                break
        return False

    def same_square(self, p, a, b):
        """a conj(b) >= 0 and |a| = |b|: both sides are the same"""
        ta, tb = _terms(a), _terms(b)
        if not ta or not tb or max(len(ta), len(tb)) ** 2 > 4000:
            return False
        try:
            A, B = S.lift_sym(a), S.lift_sym(b)
            w = A * S.conj(B)
            im = w - S.conj(w)
            q = A * S.conj(A) - B * S.conj(B)
            for x in (im, q):
                if isinstance(x, Sym):
                    x, _ = S.clear(x)
                sc = max(abs(c) for c in _terms(w).values()) if _terms(w) else 1.0
                if any(abs(c) > TOL * max(sc, 1e-300) for c in _terms(x).values()):
                    return False
            w = S.real(w)
            if not isinstance(w, Sym):
                return w >= 0
            if all(abs(complex(c).imag) < 1e-12 * abs(c) and complex(c).real > 0 and S.positive_key(k) for k, c in w.t.items()):
                return True
            re, _ = self.e.abs.tr.sym(w)
            if self.e.abs.sat(p.assume + p.pc, [re < 0], 5000) == "unsat":
                return True
            _, cs = self.base(p)
            re, _ = self.tr.sym(w)
            return self.query(cs + self.box() + [re < 0], 8000)[0] == "unsat"
        except (Unsupported, OverflowError, ZeroDivisionError):
            return False

    def box(self):
        """inputs without a range of their own lie in [-10, 10]"""
        box = []
        for n, info in self.ctx.inputs.items():
            if info[0] == "complex":
                for q in (z3.Real(n + ".re"), z3.Real(n + ".im")):
                    box += [q <= 10, q >= -10]
            elif info[0] == "real" and info[1].lo is None and info[1].hi is None:
                box += [z3.Real(n) <= 10, z3.Real(n) >= -10]
        return box

    def assumed(self, p, q, typ):
        """an assumption states  k |q|^2 > c  (or  k q > c)  with k > 0, c >= 0"""
        try:
            Qs = [S.real(q * S.conj(q))] if typ == "nz" else [S.real(q)]
        except Exception:
            return False
        if typ == "nz" and S.is_real_valued(q):
            Qs.append(S.real(q))
        for b in p.assume:
            if not isinstance(b, SBool) or b.op != "pos":
                continue
            d = b.args[0]
            c0 = complex(d.t.get(S.ONE, 0)).real
            e = d - c0
            if not isinstance(e, S.Sym):
                continue
            for Q in Qs:
                if not isinstance(Q, S.Sym):
                    continue
                q0 = complex(Q.t.get(S.ONE, 0)).real
                Q = Q - q0
                if not isinstance(Q, S.Sym):
                    continue
                k = max(e.t, key=lambda m: abs(e.t[m]))
                if k not in Q.t:
                    continue
                lam = complex(e.t[k] / Q.t[k])
                if lam.real > 0 and abs(lam.imag) < 1e-12 * abs(lam) and lam.real * q0 - c0 >= 0 and S.same(e, Q * lam.real):
                    return True
        return False

    def definedness(self, p, samples):
        seen = set()
        for guards, q, typ in p.nz:
            if self.left() < 0 or self.spent > DEF_MAX:
                self.v.excluded.append("not examined (time): " + S.show(q, 3))
                return
            k = (tuple(S.bkey(g) for g in guards), typ, round(abs(q.fp()), 9) if q.fp() == q.fp() else id(q))
            if k in seen:
                continue
            seen.add(k)
            if self.assumed(p, q, typ):
                self.v.proved += 1
                continue
            are, aim = self.e.abs.tr.sym(q)
            if typ == "nz":
                bad = z3.And([are == 0] + ([aim == 0] if aim is not None else []))
            else:
                bad = are <= 0 if typ == "pos" else are < 0
            if self.apath is not p:
                self.apath = p
                self.e.abs.start()
            if self.e.abs.sat(p.assume + p.pc, [bad] + [self.e.abs.tr.boolean(g) for g in guards], 1000) == "unsat":
                self.v.proved += 1
                continue
            _, cs = self.base(p)
            re, im = self.tr.sym(q)
            t0 = time.time()
            if typ == "nz":
                bad = [re == 0] + ([im == 0] if im is not None else [])
            elif typ == "pos":
                bad = [re <= 0]
            else:
                bad = [re < 0]
            cons = cs + self.box() + [self.tr.boolean(g) for g in guards] + bad
            names = self.inputs_of(q)
            done = False
            # keep the inputs q does not mention at generic values
            for e in samples[:1]:
                fix = _fix(self.tr, self.ctx, e, [n for n in self.ctx.inputs if n not in names])
                r, m = self.query(cons + fix, 1500)
                self.spent += time.time() - t0 if r == "unknown" else 0.0
                if r == "sat":
                    done = True
                    if self.candidate("defined: %s %s" % (typ, S.show(q, 3)), p, model=m):
                        return
            if done:
                self.v.excluded.append("%s %s reachable, obligations hold there when run" % (typ, S.show(q, 3)))
                continue
            t0 = time.time()
            r, m = self.query(cons, 2500)
            self.spent += time.time() - t0 if r == "unknown" else 0.0
            if r == "sat":
                if self.candidate("defined: %s %s" % (typ, S.show(q, 3)), p, model=m):
                    return
                self.v.excluded.append("%s %s reachable, obligations hold there when run" % (typ, S.show(q, 3)))
            elif r == "unsat":
                self.v.proved += 1
            else:
                self.v.excluded.append("%s %s not decided" % (typ, S.show(q, 3)))

    def inputs_of(self, q):
        out = set()
        seen = set()
        st = [q]
        while st:
            x = st.pop()
            if isinstance(x, SBool):
                st.extend(x.args)
                continue
            if not isinstance(x, Sym):
                continue
            for (m, ph) in x.t:
                if ph and ("p", ph) not in seen:
                    seen.add(("p", ph))
                    st.append(self.ctx.phases[ph])
                for v, e in m:
                    if v in seen:
                        continue
                    seen.add(v)
                    var = self.ctx.vars[v]
                    if var.typ in ("x", "z"):
                        out.add(var.name.rstrip("*"))
                    else:
                        st.append(var.arg)
        return out
