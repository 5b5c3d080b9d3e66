"""Symbolic interpreter for jaxprs (JAX's compiler IR).

`trace(f, args)` gets the jaxpr of the real function from the current source;
`Interp().run(...)` executes it on arrays whose entries are symbolic terms.
"""
import math
import os
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend.core import Literal
from jax import lax
from fractions import Fraction as F

from . import term as tm
from .term import (T, Cx, TRUE, FALSE, ZERO, ONE, as_t, as_cx, ite, bite, band, bor, bnot, const, add, sub, mul, div,
                   scale, powi, sqrt, tabs, fn, cx_ite)

jax.config.update("jax_enable_x64", True)


def smt_prop_unsat(e):
    from . import smt
    return smt.prop_unsat(e)


class Unsupported(Exception):
    pass


class BoundExceeded(Exception):
    pass


class Sym:
    """Array of symbolic entries (T for real/int/bool, Cx for complex)."""
    __slots__ = ("a", "dtype")

    def __init__(self, a, dtype):
        self.a = a
        self.dtype = np.dtype(dtype)

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        return "Sym(%s,%s)" % (self.dtype, self.a.shape)


def objarr(xs, shape=None):
    """Build an object ndarray without numpy guessing at nested shapes."""
    if shape is None:
        xs = list(xs)
        shape = (len(xs),)
    out = np.empty(shape, dtype=object)
    flat = out.reshape(-1)
    xs = list(xs)
    for i, x in enumerate(xs):
        flat[i] = x
    return flat.reshape(shape)


def sym_real(name, shape=(), dtype=np.float64):
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    if shape == ():
        return Sym(objarr([tm.var(name)], ()), dtype)
    return Sym(objarr([tm.var("%s_%s" % (name, "_".join(map(str, ix)))) for ix in np.ndindex(*shape)], shape), dtype)


def sym_cplx(name, shape=()):
    shape = tuple(shape)
    if shape == ():
        return Sym(objarr([Cx(tm.var(name + ".re"), tm.var(name + ".im"))], ()), np.complex128)
    els = []
    for ix in np.ndindex(*shape):
        b = "%s_%s" % (name, "_".join(map(str, ix)))
        els.append(Cx(tm.var(b + ".re"), tm.var(b + ".im")))
    return Sym(objarr(els, shape), np.complex128)


def sym_bool(name, shape=()):
    shape = tuple(shape)
    if shape == ():
        return Sym(objarr([tm.bvar(name)], ()), np.bool_)
    return Sym(objarr([tm.bvar("%s_%s" % (name, "_".join(map(str, ix)))) for ix in np.ndindex(*shape)], shape), np.bool_)


def mk(xs, shape, dtype):
    return Sym(objarr(xs, shape), dtype)


def elem(x, dtype):
    """python/numpy scalar -> symbolic element"""
    k = np.dtype(dtype).kind
    if k == "b":
        return TRUE if x else FALSE
    if k in "iu":
        return const(int(x))
    if k == "f":
        return tm.snap(float(x))
    if k == "c":
        x = complex(x)
        return Cx(tm.snap(x.real), tm.snap(x.imag))
    raise Unsupported("dtype %s" % dtype)


def symify(x):
    if isinstance(x, Sym):
        return x
    n = np.asarray(x)
    return Sym(objarr([elem(v, n.dtype) for v in n.reshape(-1)], n.shape), n.dtype)


def el_const(e):
    if isinstance(e, Cx):
        return e.re.op == "const" and e.im.op == "const"
    return e.op in ("const", "true", "false")


def el_ite(c, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return cx_ite(c, as_cx(a), as_cx(b))
    return ite(c, a, b)


def concretize_ints(s):
    """A Sym of ints/bools whose entries are all constants -> numpy."""
    if not isinstance(s, Sym):
        return s
    if s.dtype.kind in "iub":
        fl = s.a.reshape(-1)
        if all(el_const(e) for e in fl):
            if s.dtype.kind == "b":
                v = [e is TRUE for e in fl]
            else:
                v = [int(e.val) for e in fl]
            return np.array(v, dtype=s.dtype).reshape(s.shape)
    return s


def trace(f, *args, **kw):
    """jaxpr of the real function at the shapes/dtypes of args (Sym or concrete)."""
    spec = [jax.ShapeDtypeStruct(a.shape, a.dtype) if isinstance(a, Sym) else a for a in args]
    return jax.make_jaxpr(f, **kw)(*spec)


DATA_MOVE = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "expand_dims", "rev", "slice", "concatenate",
             "pad", "copy", "copy_p", "split", "tile"}


class Interp:
    def __init__(self, hooks=None, while_bound=40, record=None, cuts=None, cut_envs=(), cut_scale=False):
        self.trig_cut = None
        self.cut_scale = cut_scale   # also recognise rational multiples of a cut term
        self.cuts = cuts or {}       # term -> fresh variable generalising it (sound abstraction)
        # cut_envs: sample points at which a value that equals a cut term is recognised even when written differently
        # (the equality is then proved by the solver before the cut is made)
        self.cut_num, self.cut_idx, self.cut_no = [], {}, set()
        for e in cut_envs:
            n = tm.Numeric(dict(e))
            for t, v in self.cuts.items():
                n.env[v.val] = n(t)
                n.val[v] = n.env[v.val]
            self.cut_num.append(n)
        if self.cut_num:
            for t in self.cuts:
                sg = self.cut_sig(t)
                if sg:
                    self.cut_idx.setdefault(sg[0], []).append((t, sg[1]))
        self.cut_hits = set()
        self.hooks = hooks or {}
        self.while_bound = while_bound
        self.prims = {}
        self.eqns = 0
        self.hook_hits = {}
        self.path = TRUE           # not used for pruning, informative only

    # ------------------------------------------------------------------ run
    def run(self, closed, *args):
        flat, _ = jax.tree_util.tree_flatten(args, is_leaf=lambda x: isinstance(x, Sym))
        return self.eval_jaxpr(closed.jaxpr, closed.consts, flat)

    def call(self, f, *args):
        """Trace f at args and execute symbolically; returns outputs in f's pytree."""
        flat, tree = jax.tree_util.tree_flatten(args, is_leaf=lambda x: isinstance(x, Sym))
        spec = [jax.ShapeDtypeStruct(a.shape, a.dtype) if isinstance(a, Sym) else jnp.asarray(a) for a in flat]
        conc = [None if isinstance(a, Sym) else jnp.asarray(a) for a in flat]
        symidx = [i for i, a in enumerate(flat) if isinstance(a, Sym)]

        def g(*sy):
            full = list(conc)
            for i, v in zip(symidx, sy):
                full[i] = v
            return f(*jax.tree_util.tree_unflatten(tree, full))
        if self.traced is not None and self.traced.get("jaxpr"):
            closed, out_shape = self.traced["jaxpr"]
        else:
            closed, out_shape = jax.make_jaxpr(g, return_shape=True)(*[spec[i] for i in symidx])
            if self.traced is not None:
                self.traced["jaxpr"] = closed, out_shape
        outs = self.eval_jaxpr(closed.jaxpr, closed.consts, [flat[i] for i in symidx])
        out_tree = jax.tree_util.tree_structure(out_shape)
        return jax.tree_util.tree_unflatten(out_tree, outs)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, Literal):
                return v.val
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        # liveness is ignored: dead code is executed lazily only when needed
        needed = self._needed(jaxpr)
        for i, eqn in enumerate(jaxpr.eqns):
            if i not in needed:
                continue
            ins = [read(v) for v in eqn.invars]
            if self.trig_cut is not None and eqn.primitive.name in ("sin", "cos") and not isinstance(eqn.invars[0], Literal):
                ins[0] = env[eqn.invars[0]] = self.cut_angle(ins[0])
            outs = self.eqn(eqn, ins)
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def cut_angle(self, x):
        """Name the argument of a sine/cosine: later uses of the value see the name, self.trig_cut keeps the definition."""
        if not isinstance(x, Sym):
            return x
        out = []
        for t in x.a.reshape(-1):
            if t.op not in ("var", "const"):
                v = tm.var("ang!%d" % len(self.trig_cut))
                self.trig_cut.append((v, t))
                t = v
            out.append(t)
        return mk(out, x.shape, x.dtype)

    def _needed(self, jaxpr):
        live = {v for v in jaxpr.outvars if not isinstance(v, Literal)}
        need = set()
        for i in range(len(jaxpr.eqns) - 1, -1, -1):
            e = jaxpr.eqns[i]
            if any(v in live for v in e.outvars):
                need.add(i)
                for v in e.invars:
                    if not isinstance(v, Literal):
                        live.add(v)
        return need

    traced = None      # a dictionary keeping the jaxpr of one function between calls with arguments of one shape

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.eqns += 1
        self.prims[name] = self.prims.get(name, 0) + 1
        if name in ("pjit", "jit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "custom_jvp_call",
                    "custom_vjp_call", "custom_vjp_call_jaxpr", "custom_lin", "custom_jvp_call_jaxpr"):
            nm = p.get("name")
            if nm in self.hooks:
                self.hook_hits[nm] = self.hook_hits.get(nm, 0) + 1
                r = self.hooks[nm](self, eqn, ins)
                if r is not None:
                    return r
            inner = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
            if hasattr(inner, "jaxpr"):
                ij, ic = inner.jaxpr, inner.consts
            else:
                ij, ic = inner, ()
            if nm and not any(isinstance(x, Sym) for x in ins) and not self.hooks:
                return self.concrete(eqn, ins)
            return self.eval_jaxpr(ij, ic, ins)
        if not any(isinstance(x, Sym) for x in ins) and name not in ("scan", "while", "cond"):
            return self.concrete(eqn, ins)
        if name in ("scan", "while", "cond") and not any(isinstance(x, Sym) for x in ins) and not self.hooks:
            return self.concrete(eqn, ins)
        f = getattr(self, "p_" + name.replace("-", "_"), None)
        if f is not None:
            out = f(eqn, ins)
            out = out if isinstance(out, (list, tuple)) else [out]
        elif name in DATA_MOVE:
            out = self.data_move(eqn, ins)
        elif name in ELEMENTWISE:
            out = [self.elementwise(eqn, ins)]
        else:
            raise Unsupported("primitive %s %s" % (name, {k: str(v)[:80] for k, v in p.items()}))
        res = []
        for o, v in zip(out, eqn.outvars):
            if isinstance(o, Sym):
                assert tuple(o.shape) == tuple(v.aval.shape), (name, o.shape, v.aval.shape)
                if self.cuts:
                    o = self.apply_cuts(o)
                o = concretize_ints(Sym(o.a, v.aval.dtype))
            res.append(o)
        return res

    def cut1(self, t):
        c = self.cuts
        v = c.get(t)
        if v is None and t.op in ("lin", "mul", "sqrt", "ite", "fn"):
            m = -t
            v = c.get(m)
            if v is not None:
                self.cut_hits.add(m)
                return -v
        if v is None:
            return self.cut_by_value(t) if self.cut_num else t
        self.cut_hits.add(t)
        return v

    def cut_sig(self, t):
        """scale-free signature (and the scale) of the value of t at the sample points"""
        xs = [n(t) for n in self.cut_num]
        if any(not math.isfinite(x) or x == 0 for x in xs):
            return None
        return tuple("%.7e" % (x / xs[0]) for x in xs[1:]) or ("%.7e" % abs(xs[0]),), xs[0]

    def cut_by_value(self, t):
        """t is a rational multiple k d of a cut term d: replaced by k times the name of d once the solver has proved it"""
        if t.op not in ("lin", "mul", "sqrt", "ite", "fn") or t in self.cut_no or t.spec:
            return t
        try:
            sg = self.cut_sig(t)
            for d, x in sorted(self.cut_idx.get(sg[0], ()), key=lambda c: abs(abs(sg[1] / c[1]) - 1)) if sg else ():
                k = F(sg[1] / x).limit_denominator(720)
                if k == 0 or (not self.cut_scale and abs(k) != 1) or abs(float(k) * x - sg[1]) > 1e-8 * abs(sg[1]):
                    continue
                from . import smt
                if t.op == "sqrt" and d.op == "sqrt":
                    goal = [tm.ne(t.args[0], tm.scale(d.args[0], k * k))] if k > 0 else None
                else:
                    goal = [tm.ne(t, tm.scale(d, k))]
                if goal and smt.query(goal, timeout=5, want_env=False).status == "unsat":
                    self.cut_hits.add(d)
                    self.cuts[t] = tm.scale(self.cuts[d], k)
                    return self.cuts[t]
        except KeyError:
            pass
        self.cut_no.add(t)
        return t

    def apply_cuts(self, o):
        def one(e):
            if isinstance(e, Cx):
                re, im = self.cut1(e.re), self.cut1(e.im)
                return e if re is e.re and im is e.im else Cx(re, im)
            return e if tm.is_bool(e) else self.cut1(e)
        return Sym(objarr([one(e) for e in o.a.reshape(-1)], o.shape), o.dtype)

    def concrete(self, eqn, ins):
        subfuns, bp = eqn.primitive.get_bind_params(eqn.params)
        out = eqn.primitive.bind(*subfuns, *[jnp.asarray(x) if not hasattr(x, "dtype") or isinstance(x, np.ndarray) else x for x in ins], **bp)
        return list(out) if eqn.primitive.multiple_results else [out]

    # ------------------------------------------------------------------ data movement through ids
    def data_move(self, eqn, ins, which=None):
        """Run a pure data-movement primitive on integer ids, then map back."""
        pool = [None]
        ids = []
        dt = eqn.outvars[0].aval.dtype
        for k, x in enumerate(ins):
            if which is not None and k not in which:
                ids.append(jnp.asarray(x))
                continue
            s = symify(x)
            n = s.a.size
            base = len(pool)
            pool.extend(list(s.a.reshape(-1)))
            ids.append(jnp.asarray(np.arange(base, base + n, dtype=np.int64).reshape(s.shape)))
        params = dict(eqn.params)
        if eqn.primitive.name == "gather":
            params["fill_value"] = 0
        out = eqn.primitive.bind(*ids, **params)
        outs = list(out) if eqn.primitive.multiple_results else [out]
        res = []
        zero = elem(0, dt)
        for o in outs:
            o = np.asarray(o)
            if eqn.primitive.name == "gather":
                fill = Cx(tm.NAN, tm.NAN) if dt.kind == "c" else (tm.NAN if dt.kind == "f" else zero)
            else:
                fill = zero
            res.append(mk([pool[i] if i > 0 else fill for i in o.reshape(-1)], o.shape, dt))
        return res

    # ------------------------------------------------------------------ elementwise
    def elementwise(self, eqn, ins):
        f = ELEMENTWISE[eqn.primitive.name]
        shape = eqn.outvars[0].aval.shape
        cols = []
        for x in ins:
            s = symify(x)
            a = s.a if s.shape == shape else np.broadcast_to(s.a, shape)
            cols.append(a.reshape(-1))
        out = [f(eqn, *[c[i] for c in cols]) for i in range(int(np.prod(shape)) if shape else 1)]
        return mk(out, shape, eqn.outvars[0].aval.dtype)

    def p_broadcast_in_dim(self, eqn, ins):
        return self.data_move(eqn, ins[:1] if True else ins)

    def p_iota(self, eqn, ins):
        return self.concrete(eqn, ins)

    def p_stop_gradient(self, eqn, ins):
        return ins

    def p_optimization_barrier(self, eqn, ins):
        return ins

    def p_convert_element_type(self, eqn, ins):
        s = ins[0]
        new = np.dtype(eqn.params["new_dtype"])
        k0, k1 = s.dtype.kind, new.kind
        out = []
        w0 = s.dtype.itemsize // (2 if k0 == "c" else 1)
        w1 = new.itemsize // (2 if k1 == "c" else 1)
        narrow = k0 in "fc" and k1 in "fc" and w1 < w0

        def rnd(t):
            return t if el_const(t) else fn("round%d" % (8 * w1), t)
        for e in s.a.reshape(-1):
            if narrow:
                e = Cx(rnd(e.re), rnd(e.im)) if isinstance(e, Cx) else rnd(e)
            if k1 == "c":
                e = e if isinstance(e, Cx) else Cx(ite(e, ONE, ZERO) if k0 == "b" else e, ZERO)
            elif k0 == "c":
                e = e.re
                if k1 == "b":
                    e = tm.ne(e, ZERO)
            elif k0 == "b":
                e = e if k1 == "b" else ite(e, ONE, ZERO)
            elif k1 == "b":
                e = tm.ne(e, ZERO)
            elif k0 == "f" and k1 in "iu":
                e = ite(tm.lt(e, ZERO), -fn("floor", -e), fn("floor", e))
            out.append(e)
        return mk(out, s.shape, new)

    def p_select_n(self, eqn, ins):
        w = ins[0]
        cases = [symify(x) for x in ins[1:]]
        shape = eqn.outvars[0].aval.shape
        ws = symify(w)
        wa = np.broadcast_to(ws.a, shape).reshape(-1)
        out = []
        for i in range(wa.size):
            c = wa[i]
            els = [x.a.reshape(-1)[i] for x in cases]
            if ws.dtype.kind == "b":
                out.append(el_ite(c, els[1], els[0]) if len(els) > 1 else els[0])
            else:
                r = els[-1]
                for k in range(len(els) - 2, -1, -1):
                    r = el_ite(tm.eq(c, const(k)), els[k], r)
                out.append(r)
        return mk(out, shape, eqn.outvars[0].aval.dtype)

    # ------------------------------------------------------------------ reductions
    def _reduce(self, eqn, s, f):
        axes = eqn.params["axes"]
        s = symify(s)
        keep = [i for i in range(len(s.shape)) if i not in axes]
        a = np.transpose(s.a, keep + list(axes))
        oshape = tuple(s.shape[i] for i in keep)
        n = int(np.prod(oshape)) if oshape else 1
        a = a.reshape(n, -1)
        return mk([f(list(a[i])) for i in range(n)], oshape, eqn.outvars[0].aval.dtype)

    def p_reduce_sum(self, eqn, ins):
        cplx = eqn.outvars[0].aval.dtype.kind == "c"
        def f(xs):
            if cplx:
                r = Cx(ZERO, ZERO)
                for x in xs:
                    r = r + x
                return r
            r = ZERO
            for x in xs:
                r = add(r, x)
            return r
        return self._reduce(eqn, ins[0], f)

    def p_reduce_prod(self, eqn, ins):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        return self._reduce(eqn, ins[0], f)

    def p_reduce_max(self, eqn, ins):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = bor(r, x) if tm.is_bool(r) else tm.tmax(r, x)
            return r
        return self._reduce(eqn, ins[0], f)

    def p_reduce_min(self, eqn, ins):
        def f(xs):
            r = xs[0]
            for x in xs[1:]:
                r = band(r, x) if tm.is_bool(r) else tm.tmin(r, x)
            return r
        return self._reduce(eqn, ins[0], f)

    def p_reduce_and(self, eqn, ins):
        return self._reduce(eqn, ins[0], lambda xs: band(*xs))

    def p_reduce_or(self, eqn, ins):
        return self._reduce(eqn, ins[0], lambda xs: bor(*xs))

    def _argext(self, eqn, ins, better):
        def f(xs):
            xs = [ite(x, ONE, ZERO) if tm.is_bool(x) else x for x in xs]
            best, idx = xs[0], ZERO
            for i, x in enumerate(xs[1:], 1):
                c = better(x, best)
                # NaN propagates as the extremum
                if x is tm.NAN:
                    c = TRUE if best is not tm.NAN else FALSE
                best = ite(c, x, best)
                idx = ite(c, const(i), idx)
            return idx
        return self._reduce(eqn, ins[0], f)

    def p_argmax(self, eqn, ins):
        return self._argext(eqn, ins, lambda x, b: tm.gt(x, b))

    def p_argmin(self, eqn, ins):
        return self._argext(eqn, ins, lambda x, b: tm.lt(x, b))

    def _cum(self, eqn, ins, f):
        ax = eqn.params["axis"]
        rev = eqn.params["reverse"]
        s = symify(ins[0])
        a = np.moveaxis(s.a, ax, -1)
        sh = a.shape
        a = a.reshape(-1, sh[-1])
        out = np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            idx = range(sh[-1] - 1, -1, -1) if rev else range(sh[-1])
            acc = None
            for j in idx:
                acc = a[i, j] if acc is None else f(acc, a[i, j])
                out[i, j] = acc
        return Sym(np.moveaxis(out.reshape(sh), -1, ax), eqn.outvars[0].aval.dtype)

    def p_cumsum(self, eqn, ins): return self._cum(eqn, ins, lambda a, b: a + b)
    def p_cumprod(self, eqn, ins): return self._cum(eqn, ins, lambda a, b: a * b)
    def p_cummax(self, eqn, ins): return self._cum(eqn, ins, tm.tmax)
    def p_cummin(self, eqn, ins): return self._cum(eqn, ins, tm.tmin)

    def p_dot_general(self, eqn, ins):
        (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
        A, B = symify(ins[0]), symify(ins[1])
        lf = [i for i in range(A.a.ndim) if i not in lc and i not in lb]
        rf = [i for i in range(B.a.ndim) if i not in rc and i not in rb]
        a = np.transpose(A.a, list(lb) + lf + list(lc))
        b = np.transpose(B.a, list(rb) + rf + list(rc))
        bs = tuple(A.shape[i] for i in lb)
        ls = tuple(A.shape[i] for i in lf)
        rs = tuple(B.shape[i] for i in rf)
        nb, nl, nr = [int(np.prod(x)) if x else 1 for x in (bs, ls, rs)]
        a = a.reshape(nb, nl, -1)
        b = b.reshape(nb, nr, -1)
        cplx = eqn.outvars[0].aval.dtype.kind == "c"
        out = []
        for i in range(nb):
            for j in range(nl):
                for k in range(nr):
                    r = Cx(ZERO, ZERO) if cplx else ZERO
                    for l in range(a.shape[2]):
                        x, y = a[i, j, l], b[i, k, l]
                        if cplx:
                            r = r + as_cx(x) * as_cx(y)
                        else:
                            r = add(r, mul(x, y))
                    out.append(r)
        return mk(out, bs + ls + rs, eqn.outvars[0].aval.dtype)

    # ------------------------------------------------------------------ sort
    def p_sort(self, eqn, ins):
        dim = eqn.params["dimension"]
        nk = eqn.params["num_keys"]
        ss = [symify(x) for x in ins]
        sh = ss[0].shape
        n = sh[dim]
        cols = [np.moveaxis(s.a, dim, -1).reshape(-1, n) for s in ss]
        outs = [np.empty(c.shape, dtype=object) for c in cols]
        for r in range(cols[0].shape[0]):
            keys = [[c[r, i] for c in cols[:nk]] for i in range(n)]
            pos = self.rank(keys)
            for c, o in zip(cols, outs):
                for k in range(n):
                    v = c[r, n - 1]
                    for i in range(n - 2, -1, -1):
                        v = el_ite(pos[i][k], c[r, i], v)
                    o[r, k] = v
        res = []
        for s, o in zip(ss, outs):
            msh = list(sh)
            msh.append(msh.pop(dim))
            res.append(Sym(np.moveaxis(o.reshape(msh), -1, dim), s.dtype))
        return res

    def rank(self, keys):
        """pos[i][k]: stable rank of element i is k."""
        n = len(keys)

        def less(a, b):
            # total order of lax.sort: NaN last; lexicographic
            r = FALSE
            for x, y in zip(reversed(a), reversed(b)):
                if isinstance(x, Cx):
                    xs, ys = [x.re, x.im], [y.re, y.im]
                else:
                    xs, ys = [x], [y]
                for u, v in zip(reversed(xs), reversed(ys)):
                    if tm.is_bool(u) or tm.is_bool(v):
                        u, v = ite(u, ONE, ZERO), ite(v, ONE, ZERO)
                    l, e = _sort_lt_eq(u, v)
                    r = bor(l, band(e, r))
            return r
        before = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                b = less(keys[j], keys[i])       # j strictly less -> j before i
                before[j][i] = b
                before[i][j] = bnot(b)
        pos = []
        for i in range(n):
            # count of elements before i, as one-hot of booleans
            cnt = [TRUE]
            for j in range(n):
                if j == i:
                    continue
                b = before[j][i]
                new = [FALSE] * (len(cnt) + 1)
                for k, c in enumerate(cnt):
                    new[k] = bor(new[k], band(c, bnot(b)))
                    new[k + 1] = bor(new[k + 1], band(c, b))
                cnt = new
            pos.append(cnt)
        return pos

    # ------------------------------------------------------------------ control flow
    def p_cond(self, eqn, ins):
        idx = ins[0]
        br = eqn.params["branches"]
        ops = ins[1:]
        if not isinstance(idx, Sym):
            i = int(np.clip(int(idx), 0, len(br) - 1))
            return self.eval_jaxpr(br[i].jaxpr, br[i].consts, ops)
        e = idx.a.reshape(-1)[0]
        res = [self.eval_jaxpr(b.jaxpr, b.consts, ops) for b in br]
        conds = []
        if tm.is_bool(e):
            conds = [bnot(e), e]
        else:
            for k in range(len(br)):
                if k == 0:
                    conds.append(tm.le(e, const(0)))
                elif k == len(br) - 1:
                    conds.append(tm.ge(e, const(k)))
                else:
                    conds.append(tm.eq(e, const(k)))
        out = []
        for j in range(len(eqn.outvars)):
            cur = res[-1][j]
            for k in range(len(br) - 2, -1, -1):
                cur = self.merge(conds[k], res[k][j], cur)
            out.append(cur)
        return out

    def merge(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if np.asarray(a).shape == np.asarray(b).shape and np.array_equal(np.asarray(a), np.asarray(b)):
                return a
        a, b = symify(a), symify(b)
        out = [el_ite(c, x, y) for x, y in zip(a.a.reshape(-1), b.a.reshape(-1))]
        return concretize_ints(mk(out, a.shape, a.dtype))

    def p_while(self, eqn, ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, st = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        cj, bj = p["cond_jaxpr"], p["body_jaxpr"]
        for it in range(self.while_bound + 1):
            c = self.eval_jaxpr(cj.jaxpr, cj.consts, list(cc) + st)[0]
            pv = symify(c)                   # a batched predicate: run while any holds, rows that are finished keep their state
            e = bor(*list(pv.a.reshape(-1)))
            if e is FALSE or (e is not TRUE and it and smt_prop_unsat(e)):
                return st
            if it == self.while_bound:
                h = self.hooks.get("__while_bound__")
                if h:
                    return h(self, e, st)
                raise BoundExceeded("while loop not finished in %d iterations" % it)
            new = self.eval_jaxpr(bj.jaxpr, bj.consts, list(bc) + st)
            if pv.shape == ():
                st = [self.merge(e, n, o) for n, o in zip(new, st)]
            else:
                st = [self.merge_rows(pv, n, o) for n, o in zip(new, st)]
            if "__while_state__" in self.hooks:
                st = self.hooks["__while_state__"](self, st, it + 1)
        return st

    def merge_rows(self, pv, n, o):
        n, o = symify(n), symify(o)
        k = pv.a.size
        na, oa = n.a.reshape(k, -1), o.a.reshape(k, -1)
        out = []
        for i, c in enumerate(pv.a.reshape(-1)):
            for x, y in zip(na[i], oa[i]):
                out.append(x if c is TRUE else (y if c is FALSE else el_ite(c, x, y)))
        return concretize_ints(mk(out, n.shape, n.dtype))

    def p_scan(self, eqn, ins):
        p = eqn.params
        nc, nk = p["num_consts"], p["num_carry"]
        L, rev = p["length"], p["reverse"]
        j = p["jaxpr"]
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        nout = len(eqn.outvars) - nk
        ys = [[None] * L for _ in range(nout)]
        for t in (range(L - 1, -1, -1) if rev else range(L)):
            sl = [Sym(_arr0(x.a[t]), x.dtype) if isinstance(x, Sym) else jnp.asarray(x)[t] for x in xs]
            o = self.eval_jaxpr(j.jaxpr, j.consts, list(consts) + carry + sl)
            carry = o[:nk]
            for k in range(nout):
                ys[k][t] = o[nk + k]
        outs = []
        for k in range(nout):
            aval = eqn.outvars[nk + k].aval
            if L == 0:
                outs.append(jnp.zeros(aval.shape, aval.dtype))
                continue
            if any(isinstance(y, Sym) for y in ys[k]):
                els = []
                for y in ys[k]:
                    els.extend(symify(y).a.reshape(-1))
                outs.append(mk(els, aval.shape, aval.dtype))
            else:
                outs.append(jnp.stack([jnp.asarray(y) for y in ys[k]]).astype(aval.dtype))
        return list(carry) + outs

    # ------------------------------------------------------------------ indexing
    def p_gather(self, eqn, ins):
        op, idx = ins
        if not isinstance(idx, Sym):
            return self.data_move(eqn, ins, which=[0])
        # enumerate each symbolic index row
        s = symify(op)
        dn = eqn.params["dimension_numbers"]
        ss = eqn.params["slice_sizes"]
        ia = symify(idx).a
        ishape = ia.shape
        K = ishape[-1]
        rows = ia.reshape(-1, K)
        lim = [s.shape[d] - ss[d] for d in dn.start_index_map]
        nb = rows.shape[0]
        # batch dims handled by running the full gather per candidate and picking the affected outputs
        owner = self._gather_owner(eqn, ins, s.shape, ishape)
        oshape = eqn.outvars[0].aval.shape
        n = int(np.prod(oshape)) if oshape else 1
        own = owner.reshape(-1)
        out = [None] * n
        pool = list(s.a.reshape(-1))
        base_ids = jnp.asarray(np.arange(len(pool), dtype=np.int64).reshape(s.shape))
        params = dict(eqn.params)
        params["mode"] = lax.GatherScatterMode.CLIP
        params["fill_value"] = None
        import itertools
        cand_rows = []
        for r in range(nb):
            cands = []
            for k in range(K):
                cands.append(_candidates(rows[r, k], lim[k]))
            cand_rows.append(list(itertools.product(*cands)))
        m = max(len(c) for c in cand_rows)
        fill_mode = str(eqn.params["mode"]).endswith("FILL_OR_DROP") or "fill" in str(eqn.params["mode"]).lower()
        for ci in range(m - 1, -1, -1):
            I = np.zeros((nb, K), dtype=np.int64)
            for r in range(nb):
                I[r] = [v for v, _ in cand_rows[r][min(ci, len(cand_rows[r]) - 1)]]
            g = np.asarray(eqn.primitive.bind(base_ids, jnp.asarray(I.reshape(ishape)), **params)).reshape(-1)
            for q in range(n):
                r = own[q]
                if ci >= len(cand_rows[r]):
                    continue
                v = pool[g[q]]
                if out[q] is None:
                    out[q] = v
                else:
                    c = band(*[cond for _, cond in cand_rows[r][ci]])
                    out[q] = el_ite(c, v, out[q])
        return mk(out, oshape, eqn.outvars[0].aval.dtype)

    def _gather_owner(self, eqn, ins, opshape, ishape):
        """For each output element, which index row produced it."""
        rows = int(np.prod(ishape[:-1])) if len(ishape) > 1 else 1
        dn = eqn.params["dimension_numbers"]
        oshape = eqn.outvars[0].aval.shape
        batch = [d for d in range(len(oshape)) if d not in dn.offset_dims]
        rid = np.arange(rows).reshape(ishape[:-1])
        sh = [oshape[d] if d in batch else 1 for d in range(len(oshape))]
        return np.broadcast_to(rid.reshape(sh) if oshape else rid.reshape(()), oshape)

    def p_dynamic_slice(self, eqn, ins):
        op, starts = ins[0], ins[1:]
        if not any(isinstance(s, Sym) for s in starts):
            return self.data_move(eqn, ins, which=[0])
        s = symify(op)
        sizes = eqn.params["slice_sizes"]
        import itertools
        cands = [_candidates(symify(x).a.reshape(-1)[0], s.shape[d] - sizes[d]) for d, x in enumerate(starts)]
        out = None
        for combo in reversed(list(itertools.product(*cands))):
            sl = tuple(slice(v, v + z) for (v, _), z in zip(combo, sizes))
            blk = s.a[sl]
            if out is None:
                out = blk.copy()
            else:
                c = band(*[q for _, q in combo])
                out = objarr([el_ite(c, x, y) for x, y in zip(blk.reshape(-1), out.reshape(-1))], blk.shape)
        return Sym(out, s.dtype)

    def p_dynamic_update_slice(self, eqn, ins):
        op, up, starts = symify(ins[0]), symify(ins[1]), ins[2:]
        import itertools
        cands = [_candidates(symify(x).a.reshape(-1)[0], op.shape[d] - up.shape[d]) for d, x in enumerate(starts)]
        out = None
        for combo in reversed(list(itertools.product(*cands))):
            new = op.a.copy()
            new[tuple(slice(v, v + z) for (v, _), z in zip(combo, up.shape))] = up.a
            if out is None:
                out = new
            else:
                c = band(*[q for _, q in combo])
                out = objarr([el_ite(c, x, y) for x, y in zip(new.reshape(-1), out.reshape(-1))], new.shape)
        return Sym(out, op.dtype)

    def _scatter(self, eqn, ins, combine):
        op, idx, up = symify(ins[0]), ins[1], symify(ins[2])
        ish = symify(idx)
        dn = eqn.params["dimension_numbers"]
        K = ish.shape[-1]
        rows = ish.a.reshape(-1, K)
        nb = rows.shape[0]
        # owner of each update element
        ush = up.shape
        ub = [d for d in range(len(ush)) if d not in dn.update_window_dims]
        rid = np.arange(nb).reshape(ish.shape[:-1])
        owner = np.broadcast_to(rid.reshape([ush[d] if d in ub else 1 for d in range(len(ush))]), ush).reshape(-1)
        upf = list(up.a.reshape(-1))
        cur = list(op.a.reshape(-1))
        wdims = {}
        lim = []
        wi = [d for d in range(op.a.ndim) if d not in dn.inserted_window_dims and d not in getattr(dn, "operand_batching_dims", ())]
        wsize = {d: ush[u] for d, u in zip(wi, dn.update_window_dims)}
        for d in dn.scatter_dims_to_operand_dims:
            lim.append(op.shape[d] - wsize.get(d, 1))
        import itertools
        params = dict(eqn.params)
        params["update_jaxpr"] = None
        params["update_consts"] = ()
        for r in range(nb):
            combos = list(itertools.product(*[_candidates(rows[r, k], lim[k], clip=False) for k in range(K)]))
            elems = [q for q in range(len(upf)) if owner[q] == r]
            for combo in combos:
                c = band(*[q for _, q in combo])
                if any(v is None for v, _ in combo):
                    continue
                I = np.full((nb, K), 10 ** 9, dtype=np.int64)
                I[r] = [v for v, _ in combo]
                ids = np.zeros(len(upf), dtype=np.int64)
                for n_, q in enumerate(elems):
                    ids[q] = q + 1
                res = lax.scatter_p.bind(jnp.zeros(op.shape, jnp.int64), jnp.asarray(I.reshape(ish.shape)),
                                         jnp.asarray(ids.reshape(ush)),
                                         dimension_numbers=dn, indices_are_sorted=False, unique_indices=False,
                                         mode=lax.GatherScatterMode.FILL_OR_DROP, update_jaxpr=None, update_consts=())
                res = np.asarray(res).reshape(-1)
                for pos in np.nonzero(res)[0]:
                    new = combine(cur[pos], upf[res[pos] - 1])
                    cur[pos] = el_ite(c, new, cur[pos])
        return mk(cur, op.shape, op.dtype)

    def p_scatter(self, eqn, ins): return self._scatter(eqn, ins, lambda o, u: u)
    def p_scatter_add(self, eqn, ins): return self._scatter(eqn, ins, lambda o, u: o + u)
    def p_scatter_mul(self, eqn, ins): return self._scatter(eqn, ins, lambda o, u: o * u)
    def p_scatter_max(self, eqn, ins): return self._scatter(eqn, ins, tm.tmax)
    def p_scatter_min(self, eqn, ins): return self._scatter(eqn, ins, tm.tmin)

    # ------------------------------------------------------------------ linear algebra contracts
    def p_custom_linear_solve(self, eqn, ins):
        p = eqn.params
        cl = p["const_lengths"]
        jx = p["jaxprs"]
        nm = cl.matvec
        mv_consts = ins[:nm]
        tot = cl.matvec + cl.vecmat + cl.solve + cl.transpose_solve
        b = ins[tot:]
        if len(b) != 1:
            raise Unsupported("custom_linear_solve with %d rhs" % len(b))
        b = symify(b[0])
        if jx.solve is not None:
            k0 = cl.matvec + cl.vecmat
            try:
                return list(self.eval_jaxpr(jx.solve.jaxpr, jx.solve.consts, list(ins[k0:k0 + cl.solve]) + [b]))
            except Unsupported:
                pass
        mv = jx.matvec
        shape = b.shape
        n = int(np.prod(shape))
        # build the dense matrix by applying matvec to unit vectors
        cols = []
        for k in range(n):
            e = np.zeros(n)
            e[k] = 1.0
            o = self.eval_jaxpr(mv.jaxpr, mv.consts, list(mv_consts) + [symify(e.reshape(shape))])[0]
            cols.append(symify(o).a.reshape(-1))
        A = [[cols[j][i] for j in range(n)] for i in range(n)]
        x = solve_blocks(A, list(b.a.reshape(-1)))
        return [mk(x, shape, b.dtype)]

    def p_lu(self, eqn, ins):
        """Exact LU without pivoting (valid on the generic set where leading minors are nonzero)."""
        s = symify(ins[0])
        if s.a.ndim != 2:
            raise Unsupported("batched lu")
        n, m = s.shape
        A = [[s.a[i, j] for j in range(m)] for i in range(n)]
        for k in range(min(n, m)):
            for i in range(k + 1, n):
                A[i][k] = A[i][k] / A[k][k]
                for j in range(k + 1, m):
                    A[i][j] = A[i][j] - A[i][k] * A[k][j]
        lu = mk([A[i][j] for i in range(n) for j in range(m)], (n, m), s.dtype)
        piv = np.arange(min(n, m), dtype=np.int32)
        perm = np.arange(n, dtype=np.int32)
        return [lu, piv, perm]

    def p_cholesky(self, eqn, ins):
        s = symify(ins[0])
        if s.a.ndim != 2:
            raise Unsupported("batched cholesky")
        n = s.shape[0]
        Lm = [[ZERO] * n for _ in range(n)]
        half = F(1, 2)
        sym_in = eqn.params.get("symmetrize_input", True)
        g = lambda i, j: scale(add(s.a[i, j], s.a[j, i]), half) if sym_in else s.a[i, j]
        for j in range(n):
            d = g(j, j)
            for k in range(j):
                d = sub(d, mul(Lm[j][k], Lm[j][k]))
            Lm[j][j] = sqrt(d)
            for i in range(j + 1, n):
                v = g(i, j)
                for k in range(j):
                    v = sub(v, mul(Lm[i][k], Lm[j][k]))
                Lm[i][j] = div(v, Lm[j][j])
        return mk([Lm[i][j] for i in range(n) for j in range(n)], (n, n), s.dtype)

    def p_triangular_solve(self, eqn, ins):
        p = eqn.params
        A, B = symify(ins[0]), symify(ins[1])
        if A.a.ndim != 2:
            raise Unsupported("batched triangular_solve")
        a, b = A.a, B.a
        lower = p["lower"]
        if p["conjugate_a"]:
            a = objarr([x.conj() if isinstance(x, Cx) else x for x in a.reshape(-1)], a.shape)
        if p["transpose_a"]:
            a, lower = a.T, not lower
        left = p["left_side"]
        if not left:                     # X A = B  <=>  A^T X^T = B^T
            a, lower, b = a.T, not lower, b.T
        n = a.shape[0]
        x = np.empty(b.shape, dtype=object)
        for c in range(b.shape[1]):
            for i in (range(n) if lower else range(n - 1, -1, -1)):
                v = b[i, c]
                for k in (range(i) if lower else range(i + 1, n)):
                    v = v - a[i, k] * x[k, c]
                x[i, c] = v if p["unit_diagonal"] else v / a[i, i]
        if not left:
            x = x.T
        return Sym(x, B.dtype)

    def p_lu_pivots_to_permutation(self, eqn, ins):
        return self.concrete(eqn, ins)

    def p_fft(self, eqn, ins):
        """Exact DFT along the last axis (small lengths)."""
        p = eqn.params
        kind = str(p["fft_type"]).split(".")[-1]
        lens = p["fft_lengths"]
        if len(lens) != 1:
            raise Unsupported("nd fft")
        s = symify(ins[0])
        N = lens[0]
        a = s.a.reshape(-1, s.shape[-1])

        def w(k):
            k %= N
            an = scale(tm.PI, F(2 * k, N))
            return Cx(fn("cos", an), fn("sin", an))
        oshape = eqn.outvars[0].aval.shape
        out = []
        for r in range(a.shape[0]):
            x = [as_cx(v) for v in a[r]]
            if kind == "IRFFT":
                full = []
                for k in range(N):
                    if k < len(x) and k <= N // 2:
                        v = x[k]
                        if k == 0 or (N % 2 == 0 and k == N // 2):
                            v = Cx(v.re, ZERO)
                    else:
                        v = x[N - k].conj()
                    full.append(v)
                x = full
            for k in range(oshape[-1]):
                acc = Cx(ZERO, ZERO)
                for n in range(N):
                    sg = -1 if kind in ("FFT", "RFFT") else 1
                    acc = acc + x[n] * w(sg * k * n)
                if kind in ("IFFT", "IRFFT"):
                    acc = Cx(scale(acc.re, F(1, N)), scale(acc.im, F(1, N)))
                out.append(acc.re if kind == "IRFFT" else acc)
        return mk(out, oshape, eqn.outvars[0].aval.dtype)

    def p_reduce_precision(self, eqn, ins):
        return ins[:1]

    def p_clamp(self, eqn, ins):
        lo, x, hi = [symify(v) for v in ins]
        sh = x.shape
        L = np.broadcast_to(lo.a, sh).reshape(-1)
        H = np.broadcast_to(hi.a, sh).reshape(-1)
        return mk([tm.tmin(tm.tmax(v, l), h) for v, l, h in zip(x.a.reshape(-1), L, H)], sh, x.dtype)


def _arr0(x):
    if isinstance(x, np.ndarray):
        return x
    return objarr([x], ())


def _leaves(t, out):
    if t.op == "ite":
        _leaves(t.args[1], out)
        _leaves(t.args[2], out)
    else:
        out.add(t)
    return out


def _candidates(e, lim, clip=True):
    """[(value, condition)] for a symbolic index with clamp to [0, lim]."""
    if e.op == "const":
        v = int(e.val)
        if clip:
            v = min(max(v, 0), lim)
        elif v < 0 or v > lim:
            return [(None, TRUE)]
        return [(v, TRUE)]
    if e.ctree and tm._ctree_size(e) <= 4096:
        vals = sorted({int(x.val) for x in _leaves(e, set()) if x.op == "const"})
        if clip:
            d = {}
            for v in vals:
                w = min(max(v, 0), lim)
                d[w] = bor(d.get(w, FALSE), tm.eq(e, const(v)))
            return sorted(d.items(), key=lambda p: p[0])
        return [(v if 0 <= v <= lim else None, tm.eq(e, const(v))) for v in vals]
    out = []
    for v in range(lim + 1):
        if clip and v == 0:
            c = tm.le(e, ZERO)
        elif clip and v == lim:
            c = tm.ge(e, const(v))
        else:
            c = tm.eq(e, const(v))
        out.append((v, c))
    return out


def _sort_lt_eq(u, v):
    """(u<v, u==v) in lax.sort's total order, NaN last."""
    if u.spec or v.spec:
        if u.op == "ite" and u.spec:
            c, x, y = u.args
            l1, e1 = _sort_lt_eq(x, v)
            l2, e2 = _sort_lt_eq(y, v)
            return bite(c, l1, l2), bite(c, e1, e2)
        if v.op == "ite" and v.spec:
            c, x, y = v.args
            l1, e1 = _sort_lt_eq(u, x)
            l2, e2 = _sort_lt_eq(u, y)
            return bite(c, l1, l2), bite(c, e1, e2)
        if u is tm.NAN or v is tm.NAN:
            if u is v:
                return FALSE, TRUE
            return (FALSE, FALSE) if u is tm.NAN else (TRUE, FALSE)
    return tm.lt(u, v), tm.eq(u, v)


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    r = None
    for j in range(n):
        if A[0][j] is ZERO:
            continue
        M = [[A[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = A[0][j] * det(M)
        if j % 2:
            t = -t
        r = t if r is None else r + t
    return ZERO if r is None else r


def solve_blocks(A, b):
    """Cramer, after splitting into independent blocks."""
    n = len(A)
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    isz = lambda x: (x is ZERO) or (isinstance(x, Cx) and x.re is ZERO and x.im is ZERO)
    for i in range(n):
        for j in range(n):
            if not isz(A[i][j]):
                a, c = find(i), find(j)
                if a != c:
                    comp[a] = c
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    x = [None] * n
    for g in groups.values():
        M = [[A[i][j] for j in g] for i in g]
        d = det(M)
        for k, j in enumerate(g):
            Mk = [[(b[i] if kk == k else M[ii][kk]) for kk in range(len(g))] for ii, i in enumerate(g)]
            x[j] = det(Mk) / d
    return x


# ---------------------------------------------------------------------- elementwise table

def _c2(f, g=None):
    def h(eqn, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            return (g or f)(as_cx(a), as_cx(b))
        return f(a, b)
    return h


def _intpow(eqn, a):
    y = eqn.params["y"]
    if isinstance(a, Cx):
        return a ** y
    return powi(a, y)


def _pow(eqn, a, b):
    e = b.re if isinstance(b, Cx) else b
    if e.op == "const" and e.val.denominator == 1 and abs(e.val) <= 64:
        return a ** int(e.val) if isinstance(a, Cx) else powi(a, int(e.val))
    if e.op == "const" and e.val.denominator == 2 and not isinstance(a, Cx):
        return powi(sqrt(a), int(e.val.numerator))
    if e.ctree and e.op == "ite":
        c, x, y = e.args
        return el_ite(c, _pow(eqn, a, x), _pow(eqn, a, y))
    if isinstance(a, Cx) or isinstance(b, Cx):
        raise Unsupported("complex pow with symbolic exponent")
    if el_const(a) and a.val > 0:
        return fn("exp", mul(e, tm.snap(math.log(float(a.val)))))
    return fn("pow", a, e)


def _exp(eqn, a):
    if isinstance(a, Cx):
        m = fn("exp", a.re)
        return Cx(mul(m, fn("cos", a.im)), mul(m, fn("sin", a.im)))
    if a.op == "fn" and a.val == "lgamma" and False:
        return None
    return fn("exp", a)


def _fn(name):
    def h(eqn, a):
        if isinstance(a, Cx):
            raise Unsupported("complex " + name)
        return fn(name, a)
    return h


def _sqrt(eqn, a):
    if isinstance(a, Cx):
        if a.im is ZERO and a.re.op == "const" and a.re.val >= 0:
            return Cx(sqrt(a.re), ZERO)
        raise Unsupported("complex sqrt")
    return sqrt(a)


def _sign(eqn, a):
    if isinstance(a, Cx):
        raise Unsupported("complex sign")
    return ite(tm.gt(a, ZERO), ONE, ite(tm.lt(a, ZERO), const(-1), ZERO))


def _cmpf(f):
    def h(eqn, a, b):
        if isinstance(a, Cx) or isinstance(b, Cx):
            raise Unsupported("ordering on complex")
        return f(a, b)
    return h


def _eqf(eqn, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = as_cx(a), as_cx(b)
        return band(tm.eq(a.re, b.re), tm.eq(a.im, b.im))
    return tm.eq(a, b)


def _bw(fb, name):
    def h(eqn, a, b):
        if not tm.is_bool(a):
            raise Unsupported("bitwise %s on ints" % name)
        return fb(a, b)
    return h


def _not(eqn, a):
    if not tm.is_bool(a):
        raise Unsupported("bitwise not on ints")
    return bnot(a)


def _div(eqn, a, b):
    if isinstance(a, Cx) or isinstance(b, Cx):
        return as_cx(a) / as_cx(b)
    if eqn.outvars[0].aval.dtype.kind in "iu":
        q = div(a, b)
        return ite(tm.lt(q, ZERO), -fn("floor", -q), fn("floor", q))
    return div(a, b)


def _rem(eqn, a, b):
    # C-style remainder: sign of dividend.
    if tm.DECIDE is not None and tm.lt(ZERO, b) is TRUE:
        for k in (0, 1, -1, 2, -2):
            lo, hi = scale(b, k if k > 0 else k - 1), scale(b, k if k < 0 else k + 1)
            if (tm.le(lo, a) if k > 0 else tm.lt(lo, a)) is TRUE and (tm.le(a, hi) if k < 0 else tm.lt(a, hi)) is TRUE:
                return sub(a, scale(b, k))
    q = div(a, b)
    tr = ite(tm.lt(q, ZERO), scale(fn("floor", scale(q, -1)), -1), fn("floor", q))
    return sub(a, mul(b, tr))


def _abs(eqn, a):
    return a.abs() if isinstance(a, Cx) else tabs(a)


def _isfinite(eqn, a):
    if isinstance(a, Cx):
        return band(_isfinite(eqn, a.re), _isfinite(eqn, a.im))
    if a.spec:
        if a.op == "ite":
            c, x, y = a.args
            return bite(c, _isfinite(eqn, x), _isfinite(eqn, y))
        return FALSE
    return TRUE


def _conj(eqn, a):
    return a.conj() if isinstance(a, Cx) else Cx(a, ZERO)


def _logistic(eqn, a):
    return div(ONE, add(ONE, fn("exp", scale(a, -1))))


def _log(eqn, a):
    if isinstance(a, Cx):
        if a.im is ZERO and a.re.op == "const" and a.re.val > 0:
            return Cx(fn("log", a.re), ZERO)
        raise Unsupported("complex log")
    return fn("log", a)


def _neq(eqn, a, b):
    if a is tm.NAN or b is tm.NAN:
        return TRUE
    if not isinstance(a, Cx) and (a.spec or b.spec):
        # isnan idiom  x != x
        if a is b:
            return _isnan(a)
    return bnot(_eqf(eqn, a, b))


def _isnan(a):
    if a.op == "ite" and a.spec:
        c, x, y = a.args
        return bite(c, _isnan(x), _isnan(y))
    return TRUE if a is tm.NAN else FALSE


def _round(eqn, a):
    raise Unsupported("round")


def _lgamma(eqn, a):
    """log Gamma at (trees of) positive integers and half-integers is exact via factorials."""
    if a.op == "ite" and a.ctree:
        c, x, y = a.args
        return ite(c, _lgamma(eqn, x), _lgamma(eqn, y))
    if a.op == "const" and a.val.denominator == 1 and 1 <= a.val <= 60:
        return fn("log", const(math.factorial(int(a.val) - 1)))
    return fn("lgamma", a)


def _realf(eqn, a): return a.re if isinstance(a, Cx) else a
def _imagf(eqn, a): return a.im if isinstance(a, Cx) else ZERO


ELEMENTWISE = {
    "add": _c2(lambda a, b: a + b), "add_any": _c2(lambda a, b: a + b), "sub": _c2(lambda a, b: a - b),
    "mul": _c2(lambda a, b: a * b), "div": _div, "neg": lambda e, a: -a,
    "integer_pow": _intpow, "pow": _pow, "square": lambda e, a: (a * a if isinstance(a, Cx) else powi(a, 2)),
    "sqrt": _sqrt, "rsqrt": lambda e, a: powi(sqrt(a), -1), "cbrt": _fn("cbrt"),
    "exp": _exp, "log": _log, "log1p": lambda e, a: fn("log", add(ONE, a)), "expm1": lambda e, a: sub(_exp(e, a), ONE),
    "sin": _fn("sin"), "cos": _fn("cos"), "tan": lambda e, a: div(fn("sin", a), fn("cos", a)),
    "acos": _fn("acos"), "asin": _fn("asin"), "atan": _fn("atan"), "sinh": _fn("sinh"), "cosh": _fn("cosh"),
    "tanh": _fn("tanh"), "asinh": _fn("asinh"), "logistic": _logistic, "lgamma": _lgamma,
    "atan2": lambda e, a, b: fn("atan2", a, b),
    "abs": _abs, "sign": _sign, "floor": _fn("floor"), "ceil": lambda e, a: scale(fn("floor", scale(a, -1)), -1),
    "max": lambda e, a, b: bor(a, b) if tm.is_bool(a) else tm.tmax(a, b),
    "min": lambda e, a, b: band(a, b) if tm.is_bool(a) else tm.tmin(a, b),
    "lt_to": lambda e, a, b: _sort_lt_eq(a, b)[0], "le_to": lambda e, a, b: bor(*_sort_lt_eq(a, b)),
    "lt": _cmpf(tm.lt), "le": _cmpf(tm.le), "gt": _cmpf(tm.gt), "ge": _cmpf(tm.ge), "eq": _eqf, "ne": _neq,
    "and": _bw(band, "and"), "or": _bw(bor, "or"), "not": _not, "xor": _bw(lambda a, b: bnot(tm.iff(a, b)), "xor"),
    "real": _realf, "imag": _imagf, "complex": lambda e, a, b: Cx(a, b), "conj": _conj,
    "is_finite": _isfinite, "rem": _rem, "round": _round,
}
