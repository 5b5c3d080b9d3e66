"""Hash-consed real/boolean term DAG used as the target of symbolic execution.

Real terms denote exact real numbers (JAX floats are interpreted as reals).
A term is one of

  const(Fraction) | var | lin(sum c_i t_i + c) | mul(prod t_i^k_i, k_i in Z)
  ite(cond, a, b) | sqrt(t) | fn(name, args) | special(+inf/-inf/nan)

and boolean terms  true/false | bvar | lt0(t) | le0(t) | eq0(t) | and | or | not.
Integers are reals holding integer values.
"""
from fractions import Fraction as F
import math
import struct
import sys

sys.setrecursionlimit(200000)

_table = {}
_count = [0]


class T:
    __slots__ = ("op", "args", "val", "id", "spec", "ctree", "__weakref__")

    def __init__(self, op, args, val):
        self.op = op
        self.args = args
        self.val = val
        _count[0] += 1
        self.id = _count[0]
        self.spec = False   # contains a special (inf/nan) leaf through ite
        self.ctree = False  # const, or ite-tree with constant/special leaves

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    # --- arithmetic sugar -------------------------------------------------
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __neg__(self): return scale(self, F(-1))
    def __pow__(self, k): return powi(self, k)
    def __repr__(self): return show(self)


def _mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _table.get(key)
    if t is None:
        t = T(op, tuple(args), val)
        _table[key] = t
    return t


def reset():
    """Forget everything (ids stay unique)."""
    _table.clear()
    global TRUE, FALSE, ZERO, ONE, INF, NINF, NAN, PI
    _init()


def show(t, depth=6):
    if depth == 0:
        return "..."
    s = lambda u: show(u, depth - 1)
    if t.op == "const":
        return str(t.val)
    if t.op in ("var", "bvar"):
        return t.val
    if t.op == "lin":
        cs, c = t.val
        r = " + ".join((s(a) if k == 1 else "%s*%s" % (k, s(a))) for a, k in zip(t.args, cs))
        return "(" + r + ((" + %s" % c) if c else "") + ")"
    if t.op == "mul":
        return "*".join(s(a) + ("^%d" % k if k != 1 else "") for a, k in zip(t.args, t.val))
    if t.op == "spec":
        return t.val
    return "%s%s(%s)" % (t.op, "" if t.val is None else ":" + str(t.val), ", ".join(s(a) for a in t.args))


# ---------------------------------------------------------------- constants

def _snap_real(x):
    """Rational meant by a float literal: a simple fraction within 4 ulp, else exact."""
    f = F(x)
    if f.denominator == 1:
        return f
    ulp = F(math.ulp(x))
    if 1.5 < x < 1e4 and abs(f - round(f)) <= 64 * ulp:
        return F(round(f))          # an integer computed in floats, e.g. exp(gammaln(3))
    for lim in (100, 10000, 1000000):
        g = f.limit_denominator(lim)
        if abs(g - f) <= 2 * ulp and abs(g) * 10**12 > 0:
            # accept only if clearly "simple": coincidence probability is small
            if g.denominator ** 2 * abs(f - g) < F(1, 1000) or g == f:
                return g
            return g
    # short decimal?
    d = F(repr(float(x)))
    if len(repr(float(x)).replace("-", "").replace(".", "").split("e")[0]) <= 15:
        return d
    return f


_PI_MULT = {}


def _init_pi():
    for den in (1, 2, 3, 4, 6, 8, 12, 16, 180, 360):
        for num in range(1, 49):
            fr = F(num, den)
            for p in (1, -1):
                v = float(fr) * (math.pi if p == 1 else 1.0 / math.pi)
                _PI_MULT.setdefault(round(v, 13), []).append((v, fr, p))


_init_pi()


def snap(x):
    """Float literal -> term.  Recognises rational multiples of pi and 1/pi."""
    if isinstance(x, F):
        return const(x)
    if isinstance(x, int):
        return const(F(x))
    x = float(x)
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return INF if x > 0 else NINF
    if x == 0:
        return ZERO
    ax = abs(x)
    f = _snap_real(ax)
    if f.denominator > 1000:
        for key in (round(ax, 13),):
            for v, fr, p in _PI_MULT.get(key, []):
                if abs(v - ax) <= 4 * math.ulp(ax):
                    s = -1 if x < 0 else 1
                    return scale(PI if p == 1 else powi(PI, -1), s * fr)
    return const(f if x > 0 else -f)


def const(v):
    if not isinstance(v, F):
        v = F(v)
    t = _mk("const", (), v)
    t.ctree = True
    return t


def var(name):
    return _mk("var", (), name)


def bvar(name):
    return _mk("bvar", (), name)


_fresh = [0]


def fresh(prefix="v"):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]))


def _spec(name):
    t = _mk("spec", (), name)
    t.spec = True
    t.ctree = True
    return t


def _init():
    global TRUE, FALSE, ZERO, ONE, INF, NINF, NAN, PI
    TRUE = _mk("true")
    FALSE = _mk("false")
    ZERO = const(0)
    ONE = const(1)
    INF = _spec("inf")
    NINF = _spec("-inf")
    NAN = _spec("nan")
    PI = var("pi")


_init()


def as_t(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, F)):
        return const(x)
    return snap(float(x))


def is_const(t):
    return t.op == "const"


def is_bool(t):
    return t.op in ("true", "false", "bvar", "lt0", "le0", "eq0", "and", "or", "not")


# ------------------------------------------------------- special value lifting

def _lift(f, *args):
    """Apply f through the ite-structure of special-carrying arguments."""
    for i, a in enumerate(args):
        if a.op == "ite" and a.spec:
            c, x, y = a.args
            l = list(args)
            l[i] = x
            lx = f(*l)
            l[i] = y
            ly = f(*l)
            return ite(c, lx, ly) if not is_bool(lx) else bite(c, lx, ly)
    return None


def _sgn_const(t):
    if t.op == "const":
        return (t.val > 0) - (t.val < 0)
    return None


def _spec_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == "spec" and b.op == "spec":
        return a if a is b else NAN
    return a if a.op == "spec" else b


def _spec_mul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op != "spec":
        a, b = b, a
    s = {"inf": 1, "-inf": -1}
    if b.op == "spec":
        r = s[a.val] * s[b.val]
        return INF if r > 0 else NINF
    sg = _sgn_const(b)
    if sg is None:
        return ite(lt(b, ZERO), _spec_mul(a, const(-1)),
                   ite(eq(b, ZERO), NAN, _spec_mul(a, ONE)))
    if sg == 0:
        return NAN
    r = s[a.val] * sg
    return INF if r > 0 else NINF


# ---------------------------------------------------------------- arithmetic
MAXFLAT = 24


def _lin_parts(t):
    if t.op == "lin":
        cs, c = t.val
        return list(zip(t.args, cs)), c
    if t.op == "const":
        return [], t.val
    return [(t, F(1))], F(0)


def linear(pairs, c):
    d = {}
    for t, k in pairs:
        d[t] = d.get(t, 0) + k
    items = [(t, k) for t, k in d.items() if k != 0]
    items.sort(key=lambda p: p[0].id)
    if not items:
        return const(c)
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    return _mk("lin", [t for t, _ in items], (tuple(k for _, k in items), F(c)))


def add(a, b):
    a, b = as_t(a), as_t(b)
    if a.spec or b.spec:
        r = _lift(add, a, b)
        return r if r is not None else _spec_add(a, b)
    if a.ctree and b.ctree and (a.op == "ite" or b.op == "ite"):
        r = _lift_c(add, a, b)
        if r is not None:
            return r
    pa, ca = _lin_parts(a)
    pb, cb = _lin_parts(b)
    if len(pa) + len(pb) > MAXFLAT:
        if len(pa) > 1 and len(pa) >= MAXFLAT // 2:
            pa, ca = [(a, F(1))], F(0)
        if len(pb) > 1 and len(pb) >= MAXFLAT // 2:
            pb, cb = [(b, F(1))], F(0)
    return linear(pa + pb, ca + cb)


def _lift_c(f, *args):
    n = 1
    for a in args:
        n *= max(1, _ctree_size(a))
        if n > 64:
            return None
    for i, a in enumerate(args):
        if a.op == "ite":
            c, x, y = a.args
            l = list(args)
            l[i] = x
            lx = f(*l)
            l[i] = y
            ly = f(*l)
            return bite(c, lx, ly) if is_bool(lx) else ite(c, lx, ly)
    return None


_cts = {}


def _ctree_size(t):
    if t.op != "ite":
        return 1
    r = _cts.get(t)
    if r is None:
        r = _ctree_size(t.args[1]) + _ctree_size(t.args[2])
        _cts[t] = r
    return r


def scale(a, k):
    a = as_t(a)
    k = F(k)
    if k == 1:
        return a
    if a.spec:
        r = _lift(lambda x: scale(x, k), a)
        return r if r is not None else _spec_mul(a, const(k))
    if k == 0:
        return ZERO
    if a.ctree and a.op == "ite":
        return _lift_c(lambda x: scale(x, k), a) or linear([(a, k)], F(0))
    p, c = _lin_parts(a)
    return linear([(t, x * k) for t, x in p], c * k)


def sub(a, b):
    return add(a, scale(b, -1))


def _mul_parts(t):
    if t.op == "mul":
        return list(zip(t.args, t.val)), F(1)
    if t.op == "const":
        return [], t.val
    if t.op == "lin" and len(t.args) == 1 and t.val[1] == 0:
        p, _ = _mul_parts(t.args[0])
        return p, t.val[0][0]
    if t.op == "lin":
        k = t.val[0][0]
        if k != 1:
            return [(linear([(x, c / k) for x, c in zip(t.args, t.val[0])], t.val[1] / k), 1)], k
    return [(t, 1)], F(1)


def product(pairs, k):
    """k * prod t_i^e_i, folding sqrt^2."""
    if k == 0:
        return ZERO
    d = {}
    work = list(pairs)
    while work:
        t, e = work.pop()
        if t.op == "sqrt":
            e2 = d.get(t, 0) + e
            q = e2 // 2 if e2 >= 0 else -((-e2) // 2)
            r = e2 - 2 * q
            d[t] = r
            if q:
                p, c = _mul_parts(t.args[0])
                k = k * c ** q
                work.extend((x, y * q) for x, y in p)
            continue
        d[t] = d.get(t, 0) + e
    items = [(t, e) for t, e in d.items() if e != 0]
    items.sort(key=lambda p: p[0].id)
    if not items:
        return const(k)
    if len(items) == 1 and items[0][1] == 1:
        m = items[0][0]
    else:
        m = _mk("mul", [t for t, _ in items], tuple(e for _, e in items))
    return scale(m, k)


def mul(a, b):
    a, b = as_t(a), as_t(b)
    if a is ZERO and not b.spec:
        return ZERO
    if b is ZERO and not a.spec:
        return ZERO
    if a.spec or b.spec:
        r = _lift(mul, a, b)
        return r if r is not None else _spec_mul(a, b)
    if is_const(a):
        return scale(b, a.val)
    if is_const(b):
        return scale(a, b.val)
    # 0/1 masks: ite(c,x,0)*y -> ite(c, x*y, 0)
    if a.ctree and a.op == "ite":
        c, x, y = a.args
        if is_const(x) and is_const(y):
            return ite(c, scale(b, x.val), scale(b, y.val))
    if b.ctree and b.op == "ite":
        c, x, y = b.args
        if is_const(x) and is_const(y):
            return ite(c, scale(a, x.val), scale(a, y.val))
    pa, ka = _mul_parts(a)
    pb, kb = _mul_parts(b)
    return product(pa + pb, ka * kb)


def powi(a, k):
    a = as_t(a)
    k = int(k)
    if k == 0:
        return ONE
    if a.spec:
        r = _lift(lambda x: powi(x, k), a)
        if r is not None:
            return r
        if a is NAN:
            return NAN
        if k < 0:
            return ZERO
        return INF if (a is INF or k % 2 == 0) else NINF
    if is_const(a):
        if a.val == 0 and k < 0:
            return INF if True else None
        return const(a.val ** k)
    if a.ctree and a.op == "ite":
        r = _lift_c(lambda x: powi(x, k), a)
        if r is not None:
            return r
    p, c = _mul_parts(a)
    return product([(t, e * k) for t, e in p], c ** k)


def div(a, b):
    a, b = as_t(a), as_t(b)
    if is_const(b) and b.val == 0:
        sg = _sgn_const(a)
        if sg is None:
            if a.spec:
                r = _lift(div, a, b)
                if r is not None:
                    return r
                return a
            return ite(eq(a, ZERO), NAN, ite(lt(a, ZERO), NINF, INF))
        return NAN if sg == 0 else (INF if sg > 0 else NINF)
    if b.spec:
        r = _lift(div, a, b)
        if r is not None:
            return r
        if b is NAN:
            return NAN
        return ZERO if a.op != "spec" else NAN
    return mul(a, powi(b, -1))


def sqrt(a):
    a = as_t(a)
    if a.spec:
        r = _lift(sqrt, a)
        if r is not None:
            return r
        return INF if a is INF else NAN
    if is_const(a):
        if a.val < 0:
            return NAN
        n, d = a.val.numerator, a.val.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return const(F(rn, rd))
    if a.ctree and a.op == "ite":
        r = _lift_c(sqrt, a)
        if r is not None:
            return r
    p, c = _mul_parts(a)
    if p and all(e % 2 == 0 for _, e in p) and c == 1:
        r = ONE
        for t_, e in p:
            r = mul(r, powi(tabs(t_), e // 2))
        return r
    # pull out rational square factor
    if c > 0 and c != 1:
        n, d = c.numerator, c.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return scale(sqrt(scale(a, 1 / c)), F(rn, rd))
    return _mk("sqrt", (a,))


_nn = {}


def nonneg(t):
    """Syntactic check that t >= 0 for all values."""
    r = _nn.get(t)
    if r is None:
        op = t.op
        if op == "const":
            r = t.val >= 0
        elif op == "sqrt" or t is PI:
            r = True
        elif op == "fn":
            r = t.val in ("exp", "cosh")
        elif op == "ite":
            r = nonneg(t.args[1]) and nonneg(t.args[2])
        elif op == "mul":
            r = all(e % 2 == 0 or nonneg(a) for a, e in zip(t.args, t.val))
        elif op == "lin":
            r = t.val[1] >= 0 and all(k > 0 and nonneg(a) for a, k in zip(t.args, t.val[0]))
        else:
            r = False
        _nn[t] = r
    return r


def tabs(a):
    a = as_t(a)
    if is_const(a):
        return const(abs(a.val))
    if not a.spec and nonneg(a):
        return a
    if a.op == "sqrt":
        return a
    if a.spec:
        r = _lift(tabs, a)
        if r is not None:
            return r
        return NAN if a is NAN else INF
    # |k*m| = |k||m|, even powers are their own abs
    p, c = _mul_parts(a)
    odd = [(t, e) for t, e in p if e % 2 and t.op != "sqrt"]
    if len(odd) < len(p):
        rest = [(t, e) for t, e in p if not (e % 2 and t.op != "sqrt")]
        base = product(rest, abs(c))
        if not odd:
            return base
        return mul(base, tabs(product(odd, F(1))))
    if c < 0:
        a = scale(a, -1)
    return ite(lt(a, ZERO), scale(a, -1), a)


def fn(name, *args):
    args = tuple(as_t(a) for a in args)
    if any(a.spec for a in args):
        r = _lift(lambda *x: fn(name, *x), *args)
        if r is not None:
            return r
        if any(a is NAN for a in args):
            return NAN
        if name == "exp":
            return INF if args[0] is INF else ZERO
        if name == "log":
            return INF if args[0] is INF else NAN
        raise NotImplementedError("special in " + name)
    a = args[0] if args else None
    if name == "exp" and a is ZERO:
        return ONE
    if name == "log" and a is ONE:
        return ZERO
    if name in ("sin", "tan", "sinh", "atan", "asin", "asinh") and a is ZERO:
        return ZERO
    if name in ("cos", "cosh") and a is ZERO:
        return ONE
    if name in ("sin", "cos"):
        r = _trig_pi(name, a)
        if r is not None:
            return r
        if a.op == "ite":
            r = fn(name, a.args[1])
            if r is fn(name, a.args[2]):
                return r
        p, c = _lin_parts(a)
        # whole turns, half and quarter turns
        for b, k in p:
            if b is PI and len(p) > 1 and (2 * k).denominator == 1 and k != 0:
                n = int(2 * k)
                rest = sub(a, scale(PI, k))
                m = (n + (1 if name == "cos" else 0)) % 4
                r = fn("sin" if m % 2 == 0 else "cos", rest)
                return r if m < 2 else scale(r, -1)
            if b.op == "mul" and k.denominator == 1 and k % 2 == 0 and len(b.args) == 2 and b.val == (1, 1) and PI in b.args:
                o = b.args[0] if b.args[1] is PI else b.args[1]
                if o.op == "lin" and o.val[1] != 0:
                    cc = o.val[1]
                    return fn(name, add(add(sub(a, scale(b, k)), scale(mul(PI, sub(o, const(cc))), k)), scale(PI, k * cc)))
                if _integral(o):
                    return fn(name, sub(a, scale(b, k)))
        # odd/even normalisation on leading sign
        if p and p[0][1] < 0:
            if name == "cos":
                return fn("cos", scale(a, -1))
            return scale(fn("sin", scale(a, -1)), -1)
    if name == "floor":
        if is_const(a):
            return const(math.floor(a.val))
        if a.ctree:
            r = _lift_c(lambda x: fn("floor", x), a)
            if r is not None:
                return r
    if a is not None and len(args) == 1 and a.ctree and a.op == "ite":
        r = _lift_c(lambda x: fn(name, x), a)
        if r is not None:
            return r
    return _mk("fn", args, name)


def _integral(t):
    """recognisably integer valued"""
    if t.op == "const":
        return t.val.denominator == 1
    if t.op == "fn":
        return t.val == "floor"
    if t.op == "ite":
        return _integral(t.args[1]) and _integral(t.args[2])
    if t.op == "lin":
        return all(k.denominator == 1 for k in t.val[0]) and F(t.val[1]).denominator == 1 and all(_integral(x) for x in t.args)
    return False


def _trig_pi(name, a):
    """sin/cos of a rational multiple of pi with denominator 1,2,3,4,6."""
    p, c = _lin_parts(a)
    if c != 0 or len(p) != 1 or p[0][0] is not PI:
        return None
    k = p[0][1]
    if name == "cos":
        k = k + F(1, 2)
    k = k % 2
    tab = {F(0): ZERO, F(1, 6): const(F(1, 2)), F(1, 2): ONE, F(5, 6): const(F(1, 2)), F(1): ZERO,
           F(7, 6): const(F(-1, 2)), F(3, 2): const(-1), F(11, 6): const(F(-1, 2))}
    if k in tab:
        return tab[k]
    s2 = scale(sqrt(const(2)), F(1, 2))
    s3 = scale(sqrt(const(3)), F(1, 2))
    tab = {F(1, 4): s2, F(3, 4): s2, F(5, 4): -s2, F(7, 4): -s2,
           F(1, 3): s3, F(2, 3): s3, F(4, 3): -s3, F(5, 3): -s3}
    return tab.get(k)


def tmax(a, b):
    a, b = as_t(a), as_t(b)
    if a is b:
        return a
    if a.spec or b.spec:
        r = _lift(tmax, a, b)
        if r is not None:
            return r
        if a is NAN or b is NAN:
            return NAN
        if a is INF or b is INF:
            return INF
        return b if a is NINF else a
    return ite(lt(a, b), b, a)


def tmin(a, b):
    a, b = as_t(a), as_t(b)
    if a is b:
        return a
    if a.spec or b.spec:
        r = _lift(tmin, a, b)
        if r is not None:
            return r
        if a is NAN or b is NAN:
            return NAN
        if a is NINF or b is NINF:
            return NINF
        return b if a is INF else a
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------- booleans

def ite(c, a, b):
    a, b = as_t(a), as_t(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if is_bool(a) or is_bool(b):
        return bite(c, a, b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    t = _mk("ite", (c, a, b))
    t.spec = a.spec or b.spec
    t.ctree = a.ctree and b.ctree
    return t


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if a is TRUE:
        return bor(c, b)
    if a is FALSE:
        return band(bnot(c), b)
    if b is TRUE:
        return bor(bnot(c), a)
    if b is FALSE:
        return band(c, a)
    return band(bor(bnot(c), a), bor(c, b))


def _canon(d):
    """Divide a comparison operand by |leading coefficient|."""
    if d.op == "lin":
        k = abs(d.val[0][0])
        if k != 1:
            d = scale(d, 1 / k)
    elif d.op == "ite" and d.ctree:
        pass
    return d


def _cmp(op, a, b):
    a, b = as_t(a), as_t(b)
    if is_bool(a) or is_bool(b):
        if is_bool(a):
            a = ite(a, ONE, ZERO)
        if is_bool(b):
            b = ite(b, ONE, ZERO)
    if a.spec or b.spec:
        r = _lift(lambda x, y: _cmp(op, x, y), a, b)
        if r is not None:
            return r
        if a is NAN or b is NAN:
            return FALSE
        v = lambda t: 0 if t.op != "spec" else (1 if t is INF else -1)
        x, y = v(a), v(b)
        if op == "lt":
            return TRUE if x < y else FALSE
        if op == "le":
            return TRUE if x <= y else FALSE
        return TRUE if x == y else FALSE
    d = sub(a, b)
    if is_const(d):
        v = d.val
        ok = v < 0 if op == "lt" else (v <= 0 if op == "le" else v == 0)
        return TRUE if ok else FALSE
    if d.ctree:
        r = _lift_c(lambda x: _cmp(op, x, ZERO), d)
        if r is not None:
            return r
    # comparison against a ctree (symbolic index == constant)
    if a.op == "ite" and a.ctree and _ctree_size(a) <= 64:
        c, x, y = a.args
        return bite(c, _cmp(op, x, b), _cmp(op, y, b))
    if b.op == "ite" and b.ctree and _ctree_size(b) <= 64:
        c, x, y = b.args
        return bite(c, _cmp(op, a, x), _cmp(op, a, y))
    d = _canon(d)
    if op == "lt" and nonneg(d):
        return FALSE
    if d.op == "sqrt":
        return _cmp("eq", d.args[0], ZERO)
    if op == "lt" and d.op == "lin" and len(d.args) == 1 and d.val[1] == 0 and d.val[0][0] < 0 and d.args[0].op == "sqrt":
        # -sqrt(x) < 0  <=>  x != 0
        return bnot(_cmp("eq", d.args[0].args[0], ZERO))
    if op == "lt" and d.op == "lin" and len(d.args) == 1 and d.args[0].op == "sqrt" and nonneg(d.args[0].args[0]):
        # k*sqrt(x) + c < 0 with x >= 0
        k = d.val[0][0]
        t = -d.val[1] / k
        x = d.args[0].args[0]
        if k > 0:
            return FALSE if t <= 0 else _cmp("lt", x, const(t * t))
        return TRUE if t < 0 else _cmp("lt", const(t * t), x)
    if op == "eq":
        # canonical sign
        p, c = _lin_parts(d)
        if p and p[0][1] < 0:
            d = scale(d, -1)
        return _atom("eq0", d)
    if op == "lt":
        return _atom("lt0", d)
    # le:  d <= 0  <=>  not (-d < 0)
    return bnot(_atom("lt0", _canon(scale(d, -1))))


DECIDE = None      # callback: condition -> TRUE, FALSE or None (see deciding)


def _atom(op, d):
    t = _mk(op, (d,))
    if DECIDE is not None:
        r = DECIDE(t)
        if r is not None:
            return r
    return t


class deciding:
    """within the block, conditions that the callback decides are replaced by their value"""

    def __init__(self, f):
        self.f = f

    def __enter__(self):
        global DECIDE
        self.old, DECIDE = DECIDE, self.f

    def __exit__(self, *a):
        global DECIDE
        DECIDE = self.old


def lt(a, b): return _cmp("lt", a, b)
def le(a, b): return _cmp("le", a, b)
def gt(a, b): return _cmp("lt", b, a)
def ge(a, b): return _cmp("le", b, a)
def eq(a, b): return _cmp("eq", a, b)
def ne(a, b): return bnot(_cmp("eq", a, b))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def _nary(op, unit, zero, xs):
    s = []
    seen = set()
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x is zero:
            return zero
        if x is unit or x in seen:
            continue
        if x.op == op and len(x.args) <= 12:
            st.extend(reversed(x.args))
            continue
        seen.add(x)
        s.append(x)
    for x in s:
        if bnot(x) in seen:
            return zero
    if not s:
        return unit
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk(op, s)


def band(*xs): return _nary("and", TRUE, FALSE, list(xs))
def bor(*xs): return _nary("or", FALSE, TRUE, list(xs))
def implies(a, b): return bor(bnot(a), b)
def iff(a, b): return bite(a, b, bnot(b))


# ---------------------------------------------------------------- complex

class Cx:
    __slots__ = ("re", "im", "fac", "_n2")

    def __init__(self, re, im=0, fac=None):
        self.re = as_t(re)
        self.im = as_t(im)
        self.fac = fac      # optional exact factorisation: list of (Cx, int)
        self._n2 = None

    def __repr__(self): return "Cx(%r, %r)" % (self.re, self.im)

    def __add__(a, b):
        b = as_cx(b)
        return Cx(add(a.re, b.re), add(a.im, b.im))
    __radd__ = __add__

    def __sub__(a, b):
        b = as_cx(b)
        return Cx(sub(a.re, b.re), sub(a.im, b.im))

    def __rsub__(a, b): return as_cx(b) - a
    def __neg__(a): return Cx(-a.re, -a.im, a.fac or [(a, 1)])

    def __mul__(a, b):
        r = a._mul(b)
        if a.im is ZERO or r.im is ZERO:
            return r
        b = as_cx(b)
        if b.im is ZERO and b.re.op == "const":
            if b.re.val in (1, -1):
                r.fac = a.fac or [(a, 1)]
            return r
        r.fac = (a.fac or [(a, 1)]) + (b.fac or [(b, 1)])
        return r

    def _mul(a, b):
        b = as_cx(b)
        if b.im is ZERO:
            return Cx(mul(a.re, b.re), mul(a.im, b.re))
        if a.im is ZERO:
            return Cx(mul(a.re, b.re), mul(a.re, b.im))
        if a is b or (a.re is b.re and a.im is b.im):
            return Cx(sub(mul(a.re, a.re), mul(a.im, a.im)), scale(mul(a.re, a.im), 2))
        return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)))
    __rmul__ = __mul__

    def norm2(a):
        if a._n2 is None:
            if a.fac:
                r = ONE
                for f, k in a.fac:
                    r = mul(r, powi(f.norm2(), k))
                a._n2 = r
            else:
                a._n2 = add(mul(a.re, a.re), mul(a.im, a.im))
        return a._n2

    def inv(a):
        if a.im is ZERO:
            return Cx(powi(a.re, -1), ZERO)
        n = powi(a.norm2(), -1)
        return Cx(mul(a.re, n), mul(scale(a.im, -1), n), [(f, -k) for f, k in (a.fac or [(a, 1)])])

    def __truediv__(a, b):
        b = as_cx(b)
        if b.im is ZERO:
            return Cx(div(a.re, b.re), div(a.im, b.re))
        return a * b.inv()

    def __rtruediv__(a, b): return as_cx(b) / a

    def conj(a): return Cx(a.re, scale(a.im, -1), a.fac or [(a, 1)])

    def abs(a):
        if a.im is ZERO:
            return tabs(a.re)
        if a.re is ZERO:
            return tabs(a.im)
        return sqrt(a.norm2())

    def __pow__(a, k):
        if k < 0:
            return (a ** (-k)).inv()
        if k == 0:
            return Cx(ONE, ZERO)
        r = None
        b = a
        while k:
            if k & 1:
                r = b if r is None else r * b
            k >>= 1
            if k:
                b = b * b
        return r


def as_cx(x):
    if isinstance(x, Cx):
        return x
    if isinstance(x, complex):
        return Cx(as_t(x.real), as_t(x.imag))
    return Cx(as_t(x), ZERO)


def cx_ite(c, a, b):
    return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))


# ---------------------------------------------------------------- numeric eval

def topo(roots, known=()):
    """DAG order; subterms in `known` (and what is below them) are skipped."""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        t, i = st.pop()
        if i == 0:
            if t in seen:
                continue
            seen.add(t)
        if i < len(t.args):
            st.append((t, i + 1))
            a = t.args[i]
            if a not in seen and a not in known:
                st.append((a, 0))
        else:
            out.append(t)
    return out


FLOATFN = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos, "tan": math.tan,
    "atan2": math.atan2, "acos": math.acos, "asin": math.asin, "atan": math.atan,
    "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "asinh": math.asinh, "floor": math.floor,
    "lgamma": math.lgamma, "log1p": math.log1p, "round32": lambda x: struct.unpack("f", struct.pack("f", x))[0],
}


def feval(roots, env, fns=None):
    """Float evaluation of terms; env maps var name -> float/bool."""
    val = {}
    for t in topo(roots):
        val[t] = _fstep(t, val, env, fns)
    return [val[r] for r in roots]


def _fstep(t, val, env, fns):
        nan = float("nan")
        op = t.op
        try:
            if op == "const":
                v = float(t.val)
            elif op == "var":
                v = math.pi if t.val == "pi" else float(env[t.val])
            elif op == "bvar":
                v = bool(env[t.val])
            elif op == "lin":
                cs, c = t.val
                v = float(c)
                for a, k in zip(t.args, cs):
                    v += float(k) * val[a]
            elif op == "mul":
                v = 1.0
                for a, e in zip(t.args, t.val):
                    x = val[a]
                    if x == 0 and e < 0:
                        v = v * float("inf")
                    else:
                        v *= x ** e
            elif op == "ite":
                v = val[t.args[1]] if val[t.args[0]] else val[t.args[2]]
            elif op == "sqrt":
                x = val[t.args[0]]
                v = math.sqrt(x) if x >= 0 else (nan if x < -1e-300 else 0.0)
            elif op == "fn":
                f = (fns or {}).get(t.val) or FLOATFN[t.val]
                v = f(*[val[a] for a in t.args])
            elif op == "spec":
                v = {"inf": float("inf"), "-inf": -float("inf"), "nan": nan}[t.val]
            elif op == "true":
                v = True
            elif op == "false":
                v = False
            elif op == "lt0":
                v = val[t.args[0]] < 0
            elif op == "eq0":
                v = val[t.args[0]] == 0
            elif op == "and":
                v = all(val[a] for a in t.args)
            elif op == "or":
                v = any(val[a] for a in t.args)
            elif op == "not":
                v = not val[t.args[0]]
            else:
                raise NotImplementedError(op)
        except (ValueError, OverflowError, ZeroDivisionError):
            v = nan
        return v


class Numeric:
    """Incremental float evaluation under a fixed environment."""

    def __init__(self, env, fns=None):
        self.env, self.fns, self.val = env, fns, {}

    def __call__(self, t):
        if t in self.val:
            return self.val[t]
        for x in topo([t], self.val):
            v = _fstep(x, self.val, self.env, self.fns)
            self.val[x] = v
        return self.val[t]


def rebuild(t, val):
    """t with its arguments replaced according to val (with simplification)."""
    if not t.args:
        return t
    a = [val[x] for x in t.args]
    if all(x is y for x, y in zip(a, t.args)):
        return t
    op = t.op
    if op == "lin":
        cs, c = t.val
        r = const(c)
        for x, k in zip(a, cs):
            r = add(r, scale(x, k))
        return r
    if op == "mul":
        r = ONE
        for x, e in zip(a, t.val):
            r = mul(r, powi(x, e))
        return r
    if op == "ite":
        return ite(*a)
    if op == "sqrt":
        return sqrt(a[0])
    if op == "fn":
        return fn(t.val, *a)
    if op == "lt0":
        return lt(a[0], ZERO)
    if op == "eq0":
        return eq(a[0], ZERO)
    if op == "and":
        return band(*a)
    if op == "or":
        return bor(*a)
    if op == "not":
        return bnot(a[0])
    raise NotImplementedError(op)


def subst(roots, m):
    """Substitute terms (dict T->T), rebuilding with simplification."""
    val = dict(m)
    for t in topo(roots):
        if t not in val:
            val[t] = rebuild(t, val)
    return [val[r] for r in roots]


def free_vars(roots):
    return [t for t in topo(roots) if t.op in ("var", "bvar")]


def _pmul(p, q, limit):
    n = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            if not m2:
                m = m1
            elif not m1:
                m = m2
            else:
                x = dict(m1)
                for b, k in m2:
                    x[b] = 1 if b.op in BOOL_ATOMS else x.get(b, 0) + k
                x = _conds(x)
                if x is None:
                    continue
                m = tuple(sorted(((b, k) for b, k in x.items() if k), key=lambda q: q[0].id))
            n[m] = n.get(m, 0) + v1 * v2
            if len(n) > limit:
                raise NotImplementedError("expansion too large")
    return {m: v for m, v in n.items() if v}


def _direction(b):
    """(op, direction, offset) of a condition x + c < 0 or x + c = 0"""
    ps, c = _lin_parts(b.args[0])
    return tuple((t.id, k) for t, k in ps), c


def _conds(x):
    """drop conditions implied by others on the same linear form; None when they contradict"""
    by = {}
    for b in x:
        if b.op == "lt0" or b.op == "eq0":
            d, c = _direction(b)
            by.setdefault(d, []).append((b, c))
    for d, l in by.items():
        if len(l) == 1:
            continue
        es = [p for p in l if p[0].op == "eq0"]
        if es:
            e, c0 = es[0]
            for b, c in l:
                if b is e:
                    continue
                if b.op == "eq0" or not c < c0:      # x = -c0: x + c < 0 iff c < c0
                    return None
                del x[b]
        else:
            k = max(l, key=lambda p: p[1])[0]
            for b, _ in l:
                if b is not k:
                    del x[b]
    return x


def _condition(t, memo, limit, depth=0):
    """0/1 polynomial of a condition lt0(a) or eq0(a): if-then-else terms of a are lifted out, the sign is normalised"""
    ps, c = _lin_parts(t.args[0])
    if t.spec or depth > 12 or not ps:
        return {((t, 1),): F(1)}
    for a, k in ps:
        if a.op == "ite":
            b = memo[a.args[0]]
            rest = sub(t.args[0], scale(a, k))
            x, y = [_mkcond(t.op, add(rest, scale(v, k)), memo, limit, depth + 1) for v in a.args[1:]]
            return _padd(y, _pmul(b, _padd(x, y, -1), limit))
    k = ps[0][1]
    n = linear([(a, q / abs(k)) for a, q in ps], c / abs(k))
    if k > 0 or t.op == "eq0":
        if k < 0:
            n = scale(n, F(-1))
        return {((_mk(t.op, (n,)), 1),): F(1)}
    n = scale(n, F(-1))
    d = {(): F(1), ((_mk("lt0", (n,)), 1),): F(-1)}
    return _padd(d, {((_mk("eq0", (n,)), 1),): F(-1)})


def _mkcond(op, a, memo, limit, depth):
    t = lt(a, ZERO) if op == "lt0" else eq(a, ZERO)
    if t is TRUE:
        return {(): F(1)}
    if t is FALSE:
        return {}
    if t.op not in ("lt0", "eq0"):
        raise NotImplementedError(t.op)
    return _condition(t, memo, limit, depth)


def _on_equalities(poly):
    """x + c = 0 times x: x is replaced"""
    for _ in range(8):
        n, hit = {}, False
        for m, v in poly.items():
            d = dict(m)
            for b, _k in m:
                if b.op != "eq0":
                    continue
                ps, c = _lin_parts(b.args[0])
                w = ps[-1][0]
                if d.get(w, 0) > 0 and w not in [t for t, _ in ps[:-1]]:
                    d[w] -= 1
                    base = {tuple(sorted(((q, k) for q, k in d.items() if k), key=lambda q: q[0].id)): v}
                    e = {(): -c / ps[-1][1]} if c else {}
                    for t, k in ps[:-1]:
                        e = _padd(e, {((t, 1),): -k / ps[-1][1]})
                    for m2, v2 in _pmul(base, e, 10 ** 6).items():
                        n[m2] = n.get(m2, 0) + v2
                    hit = True
                    break
            else:
                n[m] = n.get(m, 0) + v
        poly = {m: v for m, v in n.items() if v}
        if not hit:
            break
    return poly


BOOL_ATOMS = ("lt0", "eq0", "bvar")


def _padd(p, q, k=1):
    d = dict(p)
    for m, v in q.items():
        d[m] = d.get(m, 0) + k * v
    return {m: v for m, v in d.items() if v}


def expand(root, limit=200000, cases=False):
    """Polynomial expansion: {monomial (tuple of (atom, power)): coefficient}; everything that is not +, * or a power is an atom.
    cases: if-then-else terms become b x + (1 - b) y with idempotent 0/1 atoms b."""
    memo = {}
    one = {(): F(1)}
    todo = topo([root])
    for t in todo:
        if t.op == "const":
            memo[t] = {(): t.val} if t.val else {}
        elif t.op == "lin":
            cs, c = t.val
            d = {(): c} if c else {}
            for a, k in zip(t.args, cs):
                d = _padd(d, memo[a], k)
            memo[t] = d
        elif t.op == "mul":
            d = one
            for a, e in zip(t.args, t.val):
                p, e = (memo[a], e) if e > 0 else ({((a, e),): F(1)}, 1)
                for _ in range(e):
                    d = _pmul(d, p, limit)
            memo[t] = d
        elif cases and t is TRUE:
            memo[t] = one
        elif cases and t is FALSE:
            memo[t] = {}
        elif cases and t.op == "not":
            memo[t] = _padd(one, memo[t.args[0]], -1)
        elif cases and t.op == "and":
            d = one
            for a in t.args:
                d = _pmul(d, memo[a], limit)
            memo[t] = d
        elif cases and t.op == "or":
            d = one
            for a in t.args:
                d = _pmul(d, _padd(one, memo[a], -1), limit)
            memo[t] = _padd(one, d, -1)
        elif cases and t.op in ("lt0", "eq0"):
            memo[t] = _condition(t, memo, limit)
        elif cases and t.op == "ite":
            b, x, y = [memo[a] for a in t.args]
            memo[t] = _padd(y, _pmul(b, _padd(x, y, -1), limit))
        else:
            memo[t] = {((t, 1),): F(1)}
    return _on_equalities(memo[root]) if cases else memo[root]


def collapse(poly):
    """the term of an expansion with cases"""
    e = ZERO
    for m, c in sorted(poly.items(), key=lambda q: [(a.id, p) for a, p in q[0]]):
        b = band(*[a for a, _ in m if a.op in BOOL_ATOMS])
        x = const(c)
        for a, p in m:
            if a.op not in BOOL_ATOMS:
                x = x * powi(a, p)
        e = e + ite(b, x, ZERO)
    return e
