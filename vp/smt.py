"""Encoding of terms to z3 and query management."""
import math
import os
import random
import sys
import time
from fractions import Fraction as F
from math import gcd

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

from . import term as tm
from .term import T, TRUE, FALSE, ZERO, ONE, add, mul, scale, powi, sub, const


def q(v):
    v = F(v)
    return z3.Q(v.numerator, v.denominator)


class Frac:
    """num / prod(den)  with den: dict term -> positive exponent."""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}


def _lcm(ds):
    r = {}
    for d in ds:
        for t, e in d.items():
            if r.get(t, 0) < e:
                r[t] = e
    return r


def _prod(d):
    r = ONE
    for t, e in d.items():
        r = mul(r, powi(t, e))
    return r


def _quot(big, small):
    return _prod({t: e - small.get(t, 0) for t, e in big.items() if e > small.get(t, 0)})


class Encoder:
    """One encoder per query (or per shared context)."""

    def __init__(self, guard=False):
        self.guard = guard           # guarded (total) division instead of assuming nonzero
        self.zcache = {}
        self.fcache = {}
        self.bcache = {}
        self.side = []               # z3 side constraints
        self.nonzero = {}            # denominators assumed nonzero
        self.trig = {}               # base term -> (unit Fraction)
        self.trigatom = {}           # (base, unit) -> (zc, zs)
        self.atoms = {}              # term -> z3 var for sqrt / fn / inv
        self.vars = {}
        self.trig_ready = False
        self.n_atoms = 0

    # -- preparation: determine unit angles -------------------------------
    def prepare(self, roots):
        coefs = {}
        for t in tm.topo(roots):
            if t.op == "fn" and t.val in ("sin", "cos"):
                p, c = tm._lin_parts(t.args[0])
                for b, k in p:
                    if b is tm.PI:
                        continue
                    coefs.setdefault(b, []).append(k)
        for b, ks in coefs.items():
            num = 0
            den = 1
            for k in ks:
                den = den * k.denominator // gcd(den, k.denominator)
            for k in ks:
                num = gcd(num, abs(int(k * den)))
            u = F(num, den)
            if b in self.trig and self.trig[b] != u:
                raise RuntimeError("trig unit changed after preparation")
            self.trig[b] = u

    def var(self, name, sort="R"):
        v = self.vars.get(name)
        if v is None:
            v = z3.Real(name) if sort == "R" else z3.Bool(name)
            self.vars[name] = v
            if name == "pi":
                self.side.append(z3.And(v > q(F(314159265358, 10 ** 11)), v < q(F(314159265359, 10 ** 11))))
        return v

    # -- fractions -----------------------------------------------------------
    def frac(self, t):
        r = self.fcache.get(t)
        if r is not None:
            return r
        for u in tm.topo([t]):
            if u not in self.fcache:
                self.fcache[u] = self._frac1(u)
        return self.fcache[t]

    def _frac1(self, t):
        op = t.op
        fc = self.fcache
        if op == "lin":
            cs, c = t.val
            fs = [fc[a] for a in t.args]
            if all(not f.d for f in fs):
                if all(f.n is a for f, a in zip(fs, t.args)):
                    return Frac(t)
            L = _lcm([f.d for f in fs])
            n = scale(_prod(L), c)
            for f, k in zip(fs, cs):
                n = add(n, scale(mul(f.n, _quot(L, f.d)), k))
            return Frac(n, L)
        if op == "mul":
            n = ONE
            d = {}
            for a, e in zip(t.args, t.val):
                f = fc[a]
                if e > 0:
                    n = mul(n, powi(f.n, e))
                    for x, k in f.d.items():
                        d[x] = d.get(x, 0) + k * e
                elif self.guard:
                    inv = self.inv_atom(f)
                    n = mul(n, powi(inv, -e))
                else:
                    for x, k in f.d.items():
                        n = mul(n, powi(x, -e * k))
                    # factor the numerator monomial
                    ps, c = tm._mul_parts(f.n)
                    n = scale(n, c ** e)
                    for x, k in ps:
                        if k <= 0:
                            raise RuntimeError("neg exponent in numerator")
                        d[x] = d.get(x, 0) - e * k
                        self.nonzero[x] = True
            if d:
                # cancel common monomial factors
                ps, c = tm._mul_parts(n)
                new = []
                for x, k in ps:
                    if x in d and k > 0:
                        m = min(k, d[x])
                        d[x] -= m
                        if d[x] == 0:
                            del d[x]
                        k -= m
                    if k:
                        new.append((x, k))
                n = tm.product(new, c)
            return Frac(n, d)
        if op == "ite":
            c, a, b = t.args
            fa, fb = fc[a], fc[b]
            if not fa.d and not fb.d:
                if fa.n is a and fb.n is b:
                    return Frac(t)
                return Frac(tm.ite(c, fa.n, fb.n))
            L = _lcm([fa.d, fb.d])
            return Frac(tm.ite(c, mul(fa.n, _quot(L, fa.d)), mul(fb.n, _quot(L, fb.d))), L)
        if op == "sqrt" and not self.guard and fc[t.args[0]].d:
            # the root of a fraction stays atomic: multiplied out it would bring the division back
            f = fc[t.args[0]]
            v = tm.var("sqrt!%d" % t.id)
            zv, zn, zd = self.var(v.val), self.real(f.n), self.real(_prod(f.d))
            self.side.append(z3.And(zv >= 0, zv * zv * zd == zn))
            return Frac(v)
        return Frac(t)

    def inv_atom(self, f):
        """term standing for 1/f (guarded)."""
        key = ("inv", f.n, tuple(sorted((x.id, k) for x, k in f.d.items())))
        v = self.atoms.get(key)
        if v is None:
            self.n_atoms += 1
            v = tm.var("inv!%d_%d" % (id(self) % 100000, self.n_atoms))
            self.atoms[key] = v
            zn = self.real(f.n)
            zd = self.real(_prod(f.d))
            zv = self.var(v.val)
            self.side.append(z3.Implies(zn != 0, zv * zn == zd))
        return v

    # -- reals (division free) --------------------------------------------------
    def real(self, t):
        """z3 real for a division-free term."""
        r = self.zcache.get(t)
        if r is not None:
            return r
        for u in self._topo_real(t):
            if u not in self.zcache:
                self.zcache[u] = self._real1(u)
        return self.zcache[t]

    def _topo_real(self, root):
        seen = set()
        out = []
        st = [(root, 0)]
        while st:
            t, i = st.pop()
            if i == 0:
                if t in seen or t in self.zcache:
                    continue
                seen.add(t)
            args = t.args if t.op in ("lin", "mul") else (t.args[1:] if t.op == "ite" else ())
            if i < len(args):
                st.append((t, i + 1))
                st.append((args[i], 0))
            else:
                out.append(t)
        return out

    def _real1(self, t):
        op = t.op
        z = self.zcache
        if op == "const":
            return q(t.val)
        if op == "var":
            return self.var(t.val)
        if op == "lin":
            cs, c = t.val
            xs = [z[a] if k == 1 else q(k) * z[a] for a, k in zip(t.args, cs)]
            if c != 0:
                xs.append(q(c))
            return z3.Sum(xs) if len(xs) > 1 else xs[0]
        if op == "mul":
            xs = []
            for a, e in zip(t.args, t.val):
                if e < 0:
                    raise RuntimeError("division in division-free term")
                xs.extend([z[a]] * e)
            return z3.Product(xs) if len(xs) > 1 else xs[0]
        if op == "ite":
            return z3.If(self.bool(t.args[0]), z[t.args[1]], z[t.args[2]])
        if op == "sqrt":
            f = self.frac(t.args[0])
            v = z3.Real("sqrt!%d" % t.id)
            zn, zd = self.real(f.n), self.real(_prod(f.d))
            if self.guard:
                self.side.append(z3.And(v >= 0, z3.Implies(zn >= 0, v * v * zd == zn)))
            else:
                self.side.append(z3.And(v >= 0, v * v * zd == zn))
            return v
        if op == "fn":
            return self.fn(t)
        raise RuntimeError("cannot encode %s" % op)

    def fn(self, t):
        name = t.val
        if name in ("sin", "cos"):
            c, s = self.angle(t.args[0])
            return c if name == "cos" else s
        v = z3.Real("%s!%d" % (name, t.id))
        self.atoms[t] = v
        if name == "exp":
            self.side.append(v > 0)
        elif name == "floor":
            f = self.frac(t.args[0])
            if f.d:
                # the integer part as a real (integrality dropped)
                x = z3.Real("frac!%d" % t.id)
                self.side.append(x * self.real(_prod(f.d)) == self.real(f.n))
                self.side.append(z3.And(v <= x, x < v + 1))
                return v
            x = self.real(f.n)
            i = z3.Int("floor!%d" % t.id)
            self.side.append(z3.And(z3.ToReal(i) <= x, x < z3.ToReal(i) + 1))
            return z3.ToReal(i)
        elif name == "atan2":
            pi = self.var("pi")
            self.side.append(z3.And(v <= pi, v >= -pi))
        return v

    def quotient(self, f, name):
        """z3 real for a fraction"""
        if not f.d:
            return self.real(f.n)
        x = z3.Real("quot!" + name)
        self.side.append(x * self.real(_prod(f.d)) == self.real(f.n))
        return x

    def angle(self, a):
        """(cos, sin) of a linear combination of base angles as z3 reals."""
        p, c = tm._lin_parts(a)
        cur = (q(1), q(0))

        def rot(x, y):
            if x[0].eq(q(1)) and x[1].eq(q(0)):
                return y
            return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
        items = [(b, k) for b, k in p]
        if c != 0:
            items.append((const(1), c))
        for b, k in items:
            if b is tm.PI:
                ck, sk = tm._trig_pi("cos", scale(tm.PI, k)), tm._trig_pi("sin", scale(tm.PI, k))
                if ck is None:
                    key = ("pi", k)
                    if key not in self.trigatom:
                        zc, zs = z3.Real("cospi!%s" % k), z3.Real("sinpi!%s" % k)
                        self.trigatom[key] = (zc, zs)
                        lo = F(math.cos(math.pi * k)).limit_denominator(10 ** 12)
                        ls = F(math.sin(math.pi * k)).limit_denominator(10 ** 12)
                        e = F(1, 10 ** 10)
                        self.side.append(z3.And(zc * zc + zs * zs == 1, zc > q(lo - e), zc < q(lo + e),
                                                zs > q(ls - e), zs < q(ls + e)))
                    cur = rot(cur, self.trigatom[key])
                else:
                    cur = rot(cur, (self.real(ck), self.real(sk)))
                continue
            u = self.trig.get(b)
            if u is None:
                u = self.trig[b] = abs(k)
            n = k / u
            if n.denominator != 1:
                raise RuntimeError("trig unit mismatch")
            n = int(n)
            if b.op == "fn" and b.val == "atan2" and u == 1:
                # cos/sin(atan2(y,x)) = x/r, y/r
                y, x = b.args
                key = (b, u)
                if key not in self.trigatom:
                    zc, zs = z3.Real("cos!%d" % b.id), z3.Real("sin!%d" % b.id)
                    self.trigatom[key] = (zc, zs)
                    fx, fy = self.frac(x), self.frac(y)
                    zx, zy = self.quotient(fx, "x%d" % b.id), self.quotient(fy, "y%d" % b.id)
                    r = z3.Real("hyp!%d" % b.id)
                    self.side.append(z3.And(r >= 0, r * r == zx * zx + zy * zy, zc * zc + zs * zs == 1,
                                            r * zc == zx, r * zs == zy))
                base = self.trigatom[key]
            else:
                key = (b, u)
                if key not in self.trigatom:
                    nm = b.val if b.op == "var" else "t%d" % b.id
                    zc, zs = z3.Real("cos!%s" % nm), z3.Real("sin!%s" % nm)
                    self.trigatom[key] = (zc, zs)
                    self.side.append(zc * zc + zs * zs == 1)
                base = self.trigatom[key]
            if n < 0:
                base = (base[0], -base[1])
                n = -n
            for _ in range(n):
                cur = rot(cur, base)
        return cur

    # -- booleans -------------------------------------------------------------
    def bool(self, t):
        r = self.bcache.get(t)
        if r is not None:
            return r
        # iterative over boolean structure
        st = [(t, 0)]
        while st:
            u, i = st.pop()
            if u in self.bcache:
                continue
            if u.op in ("and", "or", "not"):
                if i < len(u.args):
                    st.append((u, i + 1))
                    st.append((u.args[i], 0))
                    continue
            self.bcache[u] = self._bool1(u)
        return self.bcache[t]

    def _bool1(self, t):
        op = t.op
        b = self.bcache
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "bvar":
            return self.var(t.val, "B")
        if op == "and":
            return z3.And([b[a] for a in t.args])
        if op == "or":
            return z3.Or([b[a] for a in t.args])
        if op == "not":
            return z3.Not(b[t.args[0]])
        f = self.frac(t.args[0])
        if op == "eq0":
            return self.real(f.n) == 0
        if op == "lt0":
            n = f.n
            odd = {x: 1 for x, e in f.d.items() if e % 2 and not tm.nonneg(x)}
            n = mul(n, _prod(odd))
            return self.real(n) < 0
        raise RuntimeError("bool op " + op)

    def side_constraints(self):
        out = list(self.side)
        done = set()
        while True:
            new = [x for x in self.nonzero if x not in done]
            if not new:
                break
            for x in new:
                done.add(x)
                out.append(self.real(x) != 0)
            # encoding may have added sides
            for s in self.side[len(out) - len(done):] if False else []:
                out.append(s)
        # late additions
        have = {s.get_id() for s in out}
        for s in self.side:
            if s.get_id() not in have:
                out.append(s)
        return out


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.trivial = 0
        self.solver_s = 0.0
        self.log = []

    def as_dict(self):
        return dict(queries=self.queries, unsat=self.unsat, sat=self.sat, unknown=self.unknown,
                    closed_by_normaliser=self.trivial, solver_time_s=round(self.solver_s, 3))


STATS = Stats()


class Result:
    def __init__(self, status, env=None, secs=0.0):
        self.status = status
        self.env = env
        self.secs = secs

    def __repr__(self):
        return "<%s %.2fs>" % (self.status, self.secs)


def zval(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(25)
    if z3.is_rational_value(r):
        return F(r.numerator_as_long(), r.denominator_as_long())
    if z3.is_int_value(r):
        return F(r.as_long())
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return F(0)


def prop_unsat(t, timeout=2.0):
    """Unsatisfiability by propositional reasoning alone (arithmetic atoms are free booleans)."""
    val = {}
    for x in tm.topo([t]):
        if not tm.is_bool(x):
            continue
        if x.op == "true":
            val[x] = z3.BoolVal(True)
        elif x.op == "false":
            val[x] = z3.BoolVal(False)
        elif x.op == "and":
            val[x] = z3.And([val[a] for a in x.args])
        elif x.op == "or":
            val[x] = z3.Or([val[a] for a in x.args])
        elif x.op == "not":
            val[x] = z3.Not(val[x.args[0]])
        else:
            val[x] = z3.Bool("p%d" % x.id)
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(val[t])
    STATS.queries += 1
    if s.check() == z3.unsat:
        STATS.unsat += 1
        return True
    STATS.sat += 1
    return False


def query(formulas, timeout=20.0, guard=False, tactic=None, extra=None, label=None, want_env=True):
    """Satisfiability of a conjunction of boolean terms.  Returns Result."""
    formulas = [f for f in formulas if f is not TRUE]
    t0 = time.time()
    if any(f is FALSE for f in formulas):
        STATS.queries += 1
        STATS.trivial += 1
        STATS.unsat += 1
        return Result("unsat")
    enc = Encoder(guard=guard)
    enc.prepare(formulas)
    zs = [enc.bool(f) for f in formulas]
    if tactic is None:
        s = z3.Solver()
    elif isinstance(tactic, str) and tactic.startswith("logic:"):
        s = z3.SolverFor(tactic[6:])
    else:
        s = z3.Tactic(tactic).solver() if isinstance(tactic, str) else tactic.solver()
    s.set("timeout", int(timeout * 1000))
    for zf in zs:
        s.add(zf)
    for c in enc.side_constraints():
        s.add(c)
    for c in (extra(enc) if extra else []):
        s.add(c)
    if os.environ.get("VP_DUMP"):
        open(os.environ["VP_DUMP"], "w").write(s.to_smt2())
    try:
        r = str(s.check())
    except z3.Z3Exception as e:
        r = "unknown"
    dt = time.time() - t0
    STATS.queries += 1
    STATS.solver_s += dt
    env = None
    if r == "sat":
        STATS.sat += 1
        if want_env:
            m = s.model()
            env = {n: zval(m, v) for n, v in enc.vars.items()}
            env["__trig__"] = {}
            for (b, u), (zc, zsn) in [(k, v) for k, v in enc.trigatom.items() if isinstance(k[0], T)]:
                ang = math.atan2(float(zval(m, zsn)), float(zval(m, zc)))
                if b.op == "var":
                    env[b.val] = ang / float(u)
    elif r == "unsat":
        STATS.unsat += 1
    else:
        STATS.unknown += 1
    if label:
        STATS.log.append((label, r, round(dt, 3)))
    return Result(r, env, dt)


LINEAR = {"const", "var", "lin", "ite", "true", "false", "bvar", "and", "or", "not", "eq0", "lt0"}


class Session:
    """One solver holding a set of linear assumptions, queried repeatedly.  `query` returns None outside that fragment."""

    def __init__(self, asm, timeout=5.0):
        self.asm, self.timeout = list(asm), timeout
        self.enc = self.s = None
        self.ok = all(x.op in LINEAR for x in tm.topo(self.asm))
        if self.ok and not any(a is FALSE for a in self.asm):
            self.enc = Encoder()
            self.enc.prepare(self.asm)
            self.s = z3.Solver()
            self.s.set("timeout", int(timeout * 1000))
            for a in self.asm:
                self.s.add(self.enc.bool(a))

    def query(self, t):
        if self.s is None or any(x.op not in LINEAR for x in tm.topo([t])):
            return query(self.asm + [t], timeout=self.timeout)
        t0 = time.time()
        self.s.push()
        self.s.add(self.enc.bool(t))
        for c in self.enc.side_constraints():
            self.s.add(c)
        r = str(self.s.check())
        env = None
        STATS.queries += 1
        if r == "sat":
            STATS.sat += 1
            m = self.s.model()
            env = {n: zval(m, v) for n, v in self.enc.vars.items()}
            env["__trig__"] = {}
        elif r == "unsat":
            STATS.unsat += 1
        else:
            STATS.unknown += 1
        self.s.pop()
        dt = time.time() - t0
        STATS.solver_s += dt
        return Result(r, env, dt)
