"""Check harness: obligations, solver flow, replay on the real code, evidence."""
import contextlib
import argparse
import importlib
import inspect
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction as F

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True

import numpy as np
import jax
import jax.numpy as jnp
from jax._src.interpreters import batching

jax.config.update("jax_enable_x64", True)

from . import term as tm
from . import smt
from .term import T, Cx, TRUE, FALSE, ZERO, ONE
from .interp import Interp, Sym, symify, mk, objarr, sym_real, sym_cplx, sym_bool, Unsupported, BoundExceeded

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """a violation has been confirmed; no need to go on"""


# --------------------------------------------------------------------------- values
def is_sym(x):
    return isinstance(x, Sym)


def flat_terms(x):
    """All scalar terms of a pytree of Sym (complex entries give re, im)."""
    out = []
    for s in jax.tree_util.tree_leaves(x, is_leaf=is_sym):
        s = symify(s)
        for e in s.a.reshape(-1):
            if isinstance(e, Cx):
                out += [e.re, e.im]
            else:
                out.append(e)
    return out


def concretize(x, env, fns=None):
    """Replace every Sym of a pytree by the numpy array it denotes under env."""
    def one(s):
        if not is_sym(s):
            return s
        terms = []
        for e in s.a.reshape(-1):
            terms += [e.re, e.im] if isinstance(e, Cx) else [e]
        v = tm.feval(terms, env, fns)
        if s.dtype.kind == "c":
            v = [complex(v[2 * i], v[2 * i + 1]) for i in range(len(v) // 2)]
        return np.array(v, dtype=s.dtype).reshape(s.shape)
    return jax.tree_util.tree_map(one, x, is_leaf=is_sym)


def fenv(env):
    """float view of a solver model"""
    return {k: (v if isinstance(v, bool) else float(v)) for k, v in env.items() if not k.startswith("__")}


def eq_list(a, b):
    """Pairs of scalar terms that must be equal in two pytrees of Syms."""
    fa = [symify(s) for s in jax.tree_util.tree_leaves(a, is_leaf=is_sym)]
    fb = [symify(s) for s in jax.tree_util.tree_leaves(b, is_leaf=is_sym)]
    assert len(fa) == len(fb), (len(fa), len(fb))
    out = []
    for x, y in zip(fa, fb):
        if x.shape != y.shape:
            raise ShapeMismatch(x.shape, y.shape)
        for u, v in zip(x.a.reshape(-1), y.a.reshape(-1)):
            if isinstance(u, Cx) or isinstance(v, Cx):
                u, v = tm.as_cx(u), tm.as_cx(v)
                out.append((u.re, v.re))
                out.append((u.im, v.im))
            else:
                out.append((u, v))
    return out


class ShapeMismatch(Exception):
    pass


def close(a, b, rtol=1e-7, atol=1e-9):
    la = jax.tree_util.tree_leaves(a)
    lb = jax.tree_util.tree_leaves(b)
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            return False
        if not np.all(np.isclose(x, y, rtol=rtol, atol=atol, equal_nan=True)):
            return False
    return True


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, F):
        return float(x)
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, complex):
        return [jsonable(x.real), jsonable(x.imag)]
    if hasattr(x, "shape"):
        a = np.asarray(x)
        return jsonable(a.tolist())
    return repr(x)


# --------------------------------------------------------------------------- stubs
_stub_no = [0]


class Stub:
    """Replaces a function of the code under test (by object identity, in every microjax module)
    by an environment model.

    out(*args, **kw) -> pytree of ShapeDtypeStruct;  sym(interp, *ins) -> pytree of Sym (flattened inputs);
    conc(*arrays) -> pytree of numpy arrays (replay).
    """

    def __init__(self, target, out, sym, conc=None, static=()):
        self.target = target
        self.out = out
        self.sym = sym
        self.conc = conc
        self.static = static
        _stub_no[0] += 1
        self.name = "vp_stub_%d" % _stub_no[0]
        self.hits = 0
        self.calls = []
        self.mode = "sym"

    def fn(self):
        outf = self.out
        static = self.static

        def wrapper(*args, **kw):
            st = {k: kw[k] for k in list(kw) if k in static}
            dyn = {k: v for k, v in kw.items() if k not in static}
            outs = outf(*args, **dyn, **st)
            leaves, tree = jax.tree_util.tree_flatten(outs)
            key = len(self.calls)
            self.calls.append((args, dyn, st))
            flat, itree = jax.tree_util.tree_flatten((args, dyn))
            flat = [jnp.asarray(x) for x in flat]
            if self.mode == "sym":
                if any(isinstance(x, batching.BatchTracer) for x in flat):
                    # every input gets every batch axis
                    z = sum((jnp.sum(jnp.zeros_like(x, dtype=np.float64) if x.dtype == np.bool_ else jnp.real(x) * 0.0) for x in flat), 0.0)
                    flat = [x | (z != 0) if x.dtype == np.bool_ else x + z.astype(x.dtype) for x in flat]

                def body(*xs):
                    # depends on every input, so that batching an input batches the result
                    t = sum((jnp.sum(jnp.zeros_like(x, dtype=np.float64) if x.dtype == np.bool_ else jnp.real(x) * 0.0) for x in xs), 0.0)
                    return tuple((jnp.zeros(l.shape) + t).astype(l.dtype) for l in leaves)
                body.__name__ = body.__qualname__ = "%s__%d" % (self.name, key)
                self.meta[key] = (itree, st, tree, [x.shape for x in flat], [l.shape for l in leaves])
                r = jax.jit(body, keep_unused=True)(*flat)
                return jax.tree_util.tree_unflatten(tree, list(r))

            def host(*xs):
                self.hits += 1
                a, d = jax.tree_util.tree_unflatten(itree, list(xs))
                r = self.conc(*a, **d, **st)
                return tuple(np.asarray(v, dtype=l.dtype).reshape(l.shape) for v, l in zip(jax.tree_util.tree_leaves(r), leaves))
            r = jax.pure_callback(host, tuple(leaves), *flat, vmap_method="sequential")
            return jax.tree_util.tree_unflatten(tree, list(r))
        self.meta = {}
        return wrapper

    def hook(self, interp, eqn, ins):
        self.hits += 1
        key = int(eqn.params["name"].split("__")[1])
        itree, st, tree, shapes, oshapes = self.meta[key]
        ins = [symify(x) for x in ins]

        def call(xs):
            a, d = jax.tree_util.tree_unflatten(itree, xs)
            r = self.sym(*a, **d, **st)
            return [symify(x) for x in jax.tree_util.tree_leaves(r, is_leaf=is_sym)]
        extra = [len(x.shape) - len(s) for x, s in zip(ins, shapes)]
        if not any(extra):
            return call(ins)
        outv = [v.aval.shape for v in eqn.outvars]
        lv = max(extra)
        if any(o[lv:] != s for o, s in zip(outv, oshapes)) or any(e and x.shape[e:] != s for e, x, s in zip(extra, ins, shapes)) or \
                (lv > 1 and any(e != lv for e in extra)):
            raise Unsupported("batched stub call")
        if lv > 1:
            n = int(np.prod(outv[0][:lv]))
            ins = [mk(list(x.a.reshape(-1)), (n,) + tuple(s), x.dtype) for x, s in zip(ins, shapes)]
            extra = [1] * len(ins)
            outv = [(n,) + tuple(o[lv:]) for o in outv]
        res = [call([mk(list(x.a[b].reshape(-1)) if x.a[b:b + 1].ndim > 1 else [x.a[b]], s, x.dtype) if e else x
                     for e, x, s in zip(extra, ins, shapes)]) for b in range(outv[0][0])]
        outv = [v.aval.shape for v in eqn.outvars]
        return [mk([t for r in res for t in r[j].a.reshape(-1)], o, res[0][j].dtype) for j, o in enumerate(outv)]


class UF(Stub):
    """Uninterpreted function of the named arguments of `target`: equal arguments give equal results, nothing else is known.

    out: list of (shape function of the bound arguments, dtype).  Under replay it is a fixed pseudo-random function.
    """

    freq, mid, half = 7.3, 0.0, 1.0     # concrete stand-in: frequency and range of its (real) values
    tol = 0                             # rounding allowed in constants of the arguments

    def __init__(self, target, name, keys, out, static=()):
        self.sig = inspect.signature(getattr(target, "__wrapped__", target))
        self.uname = name
        self.keys = tuple(keys)
        self.outs = out
        self.table, self.sigs = [], []
        super().__init__(target, self._out, self._sym, self._conc, static)
        self.multi = len(out) > 1

    def bind(self, a, k):
        b = self.sig.bind(*a, **k)
        b.apply_defaults()
        d = {}
        for n, v in b.arguments.items():
            if self.sig.parameters[n].kind == inspect.Parameter.VAR_KEYWORD:
                d.update(v)
            else:
                d[n] = v
        return [(n, d.get(n)) for n in self.keys]

    def _out(self, *a, **k):
        d = dict(self.bind(a, k))
        r = tuple(jax.ShapeDtypeStruct(sh(d), dt) for sh, dt in self.outs)
        return r if self.multi else r[0]

    def _key(self, args):
        out = []
        for n, v in args:
            if v is None or isinstance(v, (str, bool)):
                out.append((n, v))
            else:
                v = symify(v)
                out.append((n, tuple(v.shape), tuple(flat_terms(v))))
        return out

    def _same(self, k1, k2):
        for x, y in zip(k1, k2):
            if x[:-1] != y[:-1]:
                return False
            if x[-1] is None or isinstance(x[-1], (str, bool)):
                if x[-1] != y[-1]:
                    return False
                continue
            if len(x[-1]) != len(y[-1]):
                return False
            for p, q_ in zip(x[-1], y[-1]):
                if p is q_:
                    continue
                if self.tol and not tm.is_bool(p):
                    # coefficients equal up to the rounding of folded constants
                    ps, c = tm._lin_parts(p - q_)
                    if all(abs(x) <= self.tol for x in [c] + [x for _, x in ps]):
                        continue
                g = tm.bnot(tm.iff(p, q_)) if tm.is_bool(p) else tm.ne(p, q_)
                vs = [v for v in tm.free_vars([p, q_]) if v.val != "pi"]
                e = CURRENT.rand_env(vs)
                try:
                    if tm.feval([g], e)[0] and not tm.is_bool(p) and abs(np.subtract(*tm.feval([p, q_], e))) > 1e-7:
                        return False
                except (ArithmeticError, ValueError, KeyError, NotImplementedError):
                    pass
                if smt.query([g], timeout=3, want_env=False).status != "unsat":
                    return False
        return True

    def at(self, f, d):
        """f at keyword arguments; parameters of the target outside the keys get a neutral value"""
        k = {n: d.get(n, 0) for n, p in self.sig.parameters.items() if p.kind is not inspect.Parameter.VAR_KEYWORD}
        k.update(d)
        return f(**k)

    def value(self, *a, **k):
        """symbolic value at the given arguments (tuple when there are several outputs)"""
        return self._sym(*a, **k)

    def _sym(self, *a, **k):
        args = self.bind(a, k)
        d = dict(args)
        key = self._key(args)
        sg = self._sig(key)
        for (kk, v), s_ in zip(self.table, self.sigs):
            if (sg is None or s_ is None or close(sg, s_, 1e-6, 1e-9)) and self._same(kk, key):
                return v
        no = len(self.table)
        r = []
        for j, (sh, dt) in enumerate(self.outs):
            nm = "%s%d_%d" % (self.uname, no, j)
            dt = np.dtype(dt)
            s = {k_: np.asarray(0) if v is None else v for k_, v in d.items()}
            shape = sh({k_: v if v is None or isinstance(v, (str, bool)) else symify(v) for k_, v in d.items()})
            mk_ = sym_bool if dt == np.bool_ else sym_cplx if dt.kind == "c" else sym_real
            r.append(mk_(nm, shape))
        r = tuple(r) if self.multi else r[0]
        self.table.append((key, r))
        self.sigs.append(sg)
        return r

    def _sig(self, key):
        """value of the real arguments at a fixed sample point (a quick test that two argument lists differ)"""
        ts = [t for x in key if len(x) == 3 for t in x[2] if not tm.is_bool(t)]
        env = {}
        for v in tm.free_vars(ts):
            env[v.val] = math.pi if v.val == "pi" else 0.3 + 0.6 * math.fabs(math.sin(12.9898 * sum((i + 1) * ord(c) for i, c in enumerate(v.val))))
        try:
            xs = np.array(tm.feval(ts, env), float)
        except (ArithmeticError, ValueError, KeyError, NotImplementedError, TypeError):
            return None
        return np.array([len(ts)] + list(xs)) if np.all(np.isfinite(xs)) else None

    def _conc(self, *a, **k):
        args = self.bind(a, k)
        d = dict(args)
        acc, no = 0.0, 0
        for n, v in args:
            if v is None:
                continue
            if isinstance(v, str):
                v = len(v)
            for x in np.atleast_1d(np.asarray(v)).reshape(-1):
                for y in ((x.real, x.imag) if np.iscomplexobj(x) else (float(x),)):
                    no += 1
                    acc += math.sin(no) * float(y) * self.freq
        r = []
        for j, (sh, dt) in enumerate(self.outs):
            shape = sh({k_: v if v is None or isinstance(v, (str, bool)) else np.asarray(v) for k_, v in d.items()})
            n_ = int(np.prod(shape, dtype=int))
            u = np.array([math.sin(acc * (1 + 0.37 * i) + 2.1 * i + j + len(self.uname)) for i in range(n_)]).reshape(shape)
            dt = np.dtype(dt)
            if dt.kind == "f":
                u = self.mid + self.half * u
            r.append(u > 0 if dt == np.bool_ else u + 1j * np.roll(u, 1) if dt.kind == "c" else u)
        return tuple(r) if self.multi else r[0]

    def num(self, *a, **k):
        return self._conc(*a, **k)

    def congruence(self):
        """equal arguments give equal results, for all pairs of applications"""
        out = []
        for i, (k1, v1) in enumerate(self.table):
            for k2, v2 in self.table[:i]:
                eqs = []
                for x, y in zip(k1, k2):
                    if x[:-1] != y[:-1]:
                        break
                    if x[-1] is None or isinstance(x[-1], (str, bool)):
                        if x[-1] != y[-1]:
                            break
                    else:
                        eqs += [(tm.iff(p, q_) if tm.is_bool(p) else tm.eq(p, q_)) for p, q_ in zip(x[-1], y[-1]) if p is not q_]
                else:
                    c = tm.band(*eqs)
                    if c is FALSE:
                        continue
                    vs = list(zip(flat_terms(v1), flat_terms(v2)))
                    out.append(tm.bor(tm.bnot(c), tm.band(*[tm.iff(p, q_) if tm.is_bool(p) else tm.eq(p, q_) for p, q_ in vs])))
        return out


class EUF(Stub):
    """Element-wise uninterpreted function: the named array arguments are broadcast and every element of the result depends on its own
    elements only."""

    def __init__(self, target, name, keys, static=(), freq=7.3, mid=0.0, half=1.0):
        self.u = UF(target, name, keys, [(lambda d: (), np.float64)], static)
        self.u.freq, self.u.mid, self.u.half = freq, mid, half
        self.keys = keys
        super().__init__(target, self._out, lambda *a, **k: self._each(self.u.value, True, a, k), lambda *a, **k: self._each(self.u.num, False, a, k), static)

    def args(self, a, k):
        return dict(self.u.bind(a, k))

    def _shape(self, d):
        return np.broadcast_shapes(*[jnp.shape(v) for v in d.values() if not (v is None or isinstance(v, (str, bool)))])

    def _out(self, *a, **k):
        return jax.ShapeDtypeStruct(self._shape(self.args(a, k)), np.float64)

    def _each(self, f, sym, a, k):
        d = self.args(a, k)
        sh = self._shape({n: (v if not is_sym(v) else np.zeros(v.shape)) for n, v in d.items()})
        arr = {n: v if v is None or isinstance(v, (str, bool)) else np.broadcast_to(symify(v).a if sym else np.asarray(v), sh) for n, v in d.items()}
        out = []
        for ix in np.ndindex(*sh):
            e = {n: v if v is None or isinstance(v, (str, bool)) else
                 (mk([v[ix]], (), np.complex128 if isinstance(v[ix], Cx) else np.float64) if sym else v[ix]) for n, v in arr.items()}
            r = self.u.at(f, e)
            out.append(r.a[()] if sym else r)
        return mk(out, sh, np.float64) if sym else np.array(out).reshape(sh)

    def value(self, **k):
        return self._each(self.u.value, True, (), k)

    def num(self, **k):
        return self._each(self.u.num, False, (), k)


class Undecided(Exception):
    """more conditions left open on one path than the decider allows"""


class Decider:
    """Decides conditions under path assumptions: sample points of the path rule a value out, the solver confirms the other one."""

    def __init__(self, asm, envs=(), timeout=5.0):
        self.asm, self.envs, self.memo, self.timeout = [a for a in asm if a is not TRUE], list(envs), {}, timeout
        self.n = self.und = 0
        self.budget = None
        self.session = smt.Session(self.asm, timeout)
        for _ in range(1 if not self.envs else 0):
            r = self.session.query(TRUE)
            if r.status == "sat" and r.env is not None:
                self.envs.append(fenv(r.env))

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        old, tm.DECIDE = tm.DECIDE, None
        try:
            self.memo[t] = r = self.decide(t)
            self.und += r is None
            if self.budget is not None and self.und > self.budget:
                raise Undecided("%d conditions" % self.und)
        finally:
            tm.DECIDE = old
        return r

    def decide(self, t):
        vals = set()
        for e in self.envs:
            try:
                vals.add(bool(tm.feval([t], e)[0]))
            except (ArithmeticError, ValueError, KeyError, NotImplementedError):
                return None
            if len(vals) == 2:
                return None
        for v in sorted(vals) or [False, True]:
            self.n += 1
            q = self.session.query(tm.bnot(t) if v else t)
            if q.status == "unsat":
                return TRUE if v else FALSE
            if q.status == "sat" and q.env is not None and len(self.envs) < 60:
                self.envs.append(fenv(q.env))
            if vals:
                return None
        return None


class StubHooks(dict):
    """hook lookup by stub-name prefix"""

    def __init__(self, stubs):
        super().__init__()
        self.stubs = {s.name: s for s in stubs}

    def __contains__(self, k):
        return isinstance(k, str) and k.split("__")[0] in self.stubs

    def __getitem__(self, k):
        return self.stubs[k.split("__")[0]].hook

    def __bool__(self):
        return bool(self.stubs)


@contextlib.contextmanager
def patched(stubs, mode="sym"):
    """Patch all stubs into every loaded microjax module."""
    jax.clear_caches()
    undo = []
    for s in stubs:
        s.mode = mode
        s.calls = []
        w = s.fn()
        for name, mod in list(sys.modules.items()):
            if name == "microjax" or name.startswith("microjax."):
                for k, v in list(vars(mod).items()):
                    if v is s.target:
                        undo.append((mod, k, v))
                        setattr(mod, k, w)
    try:
        yield
    finally:
        for mod, k, v in undo:
            setattr(mod, k, v)
        jax.clear_caches()


def run_sym(f, *args, stubs=(), while_bound=40, interp=None, **kw):
    it = interp or Interp(hooks=StubHooks(stubs) if stubs else None, while_bound=while_bound)
    try:
        if stubs:
            with patched(stubs, "sym"):
                r = it.call(f, *args)
        else:
            r = it.call(f, *args)
    except (Unsupported, BoundExceeded, Inconclusive, Undecided, Stop, NotImplementedError, KeyboardInterrupt):
        raise
    except Exception as e:
        CURRENT.raised(f, args, e)
        raise
    CURRENT.note_encoding(f, it)
    return jax.tree_util.tree_map(symify, r, is_leaf=is_sym)


def run_real(f, *args, stubs=()):
    if stubs:
        with patched(stubs, "conc"):
            r = f(*args)
            return jax.tree_util.tree_map(np.asarray, r)
    return jax.tree_util.tree_map(np.asarray, f(*args))


CURRENT = None


class Check:
    def __init__(self, pid, tier="quick", seed=1, replay=None):
        global CURRENT
        CURRENT = self
        self.pid = pid
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.obls = []
        self.violations = []
        self.inconclusive = []
        self.known_hits = []
        self.assumptions = []
        self.bounds = []
        self.funcs = {}
        self.outside = []
        self.validated = 0
        self.replayed = 0
        self.only = replay
        self.known = load_known(pid)
        self.timeout = 20.0 if self.quick else 120.0
        self.ranges = {}
        self.samples = []
        self.cur_f = None
        self._undecided = set()
        self.deadline = self.t0 + float(os.environ.get('VP_BUDGET', 600 if self.quick else 10 ** 9))

    @contextlib.contextmanager
    def deeper(self, label, budget=None):
        """Obligations beyond the claimed bound: one that gets no verdict lowers the bound reached, which the evidence states."""
        n, m, dl = len(self.obls), len(self.inconclusive), self.deadline
        if budget:
            self.deadline = min(dl, time.time() + budget)
        try:
            yield
        except (Stop, KeyboardInterrupt):
            raise
        except Exception as e:
            if self.violations:
                raise
            self.inconclusive.append("%s: %s: %s" % (label, type(e).__name__, str(e)[:200]))
        finally:
            self.deadline = dl
        if len(self.inconclusive) > m:
            self.outside.append("%s: not decided on this tree (%s)" % (label, "; ".join(self.inconclusive[m:])[:400]))
            del self.inconclusive[m:]
            self.obls[n:] = [o for o in self.obls[n:] if o["status"] in ("proved", "reachable")]

    # ---------------------------------------------------------------- bookkeeping
    def note_encoding(self, f, it):
        nm = self.label or getattr(f, "__name__", str(f))
        d = self.funcs.setdefault(nm, {"jaxpr_equations_executed": 0})
        d["jaxpr_equations_executed"] += it.eqns

    label = None

    def encodes(self, *names):
        for n in names:
            self.funcs.setdefault(n, {"jaxpr_equations_executed": 0})
        self.label = names[0]

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def bound(self, text):
        if text not in self.bounds:
            self.bounds.append(text)

    def rand_env(self, vars_, box=None):
        env = {}
        for v in vars_:
            if v.op == "bvar":
                env[v.val] = self.rng.random() < 0.5
            elif v.val != "pi":
                lo, hi = self.range_of(v.val, box)
                env[v.val] = self.rng.uniform(lo, hi)
        return env

    def range_of(self, name, box=None):
        for d in (box or {}, self.ranges):
            if name in d:
                return d[name]
            for k, r in d.items():
                if k.endswith("*") and name.startswith(k[:-1]):
                    return r
        return (-2.0, 2.0)

    def raised(self, f, args, exc):
        """Tracing failed: a violation when the real code raises on concrete input as well (no stubs)."""
        if self.only is not None and self.only["obligation"] != "raises":
            return
        env = dict(self.only["env"]) if self.only else self.rand_env(tm.free_vars(flat_terms(args)))
        try:
            run_real(f, *concretize(args, env))
        except Exception as e:
            self.report("raises", env, {"exception": repr(e)[:300], "inputs": jsonable(concretize(args, env))})
            if self.violations:
                raise Stop()

    # ---------------------------------------------------------------- proving
    def abstract(self, lefts, rights, formulas):
        """Replace maximal subterms common to both sides by fresh variables everywhere (a generalisation: unsat stays unsat)."""
        inb = set(tm.topo(rights))
        hit, seen, stack = [], set(), list(lefts)
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            if t in inb and t.op not in ("const", "var", "bvar", "true", "false", "spec") and not t.spec:
                hit.append(t)
                continue
            stack.extend(t.args)
        if not hit:
            return None
        m, extra = {}, []
        for t in hit:
            v = tm.bvar("abs%d" % t.id) if tm.is_bool(t) else tm.var("abs%d" % t.id)
            m[t] = v
            if not tm.is_bool(t) and tm.nonneg(t):
                extra.append(tm.ge(v, ZERO))
        def key(t):
            cs, c = t.val
            return (t.args, tuple(x / cs[0] for x in cs))
        lins = {key(t): t for t in hit if t.op == "lin"}
        if lins:
            for t in tm.topo(formulas):
                if t.op == "lin" and t not in m and key(t) in lins:
                    h = lins[key(t)]
                    k = t.val[0][0] / h.val[0][0]
                    m[t] = tm.add(tm.scale(m[h], k), tm.const(t.val[1] - k * h.val[1]))
        return tm.subst(list(formulas), m) + extra

    def skeleton(self, terms):
        """Decision-tree abstraction: non-ite arithmetic is opaque, arithmetic atoms are free booleans."""
        m, seen, stack = {}, set(), list(terms)
        while stack:
            t = stack.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.op in ("lt0", "eq0"):
                m[t] = tm.bvar("sk%d" % t.id)
            elif tm.is_bool(t) or t.op == "ite":
                stack.extend(t.args)
            elif t.op not in ("const", "var") and not t.spec:
                m[t] = tm.var("sk%d" % t.id)
        return tm.subst(list(terms), m)

    def sweep(self, lefts, rights, assume=(), budget=40.0, limit=80, roots_only=False, timeout=2, names=None):
        """Merge subterms of `rights` into equal subterms of `lefts` (each merge proved by the solver, bottom-up)."""
        t0 = time.time()
        vs = [v for v in tm.free_vars(lefts + rights + list(assume)) if v.val != "pi"]
        envs = []
        for _ in range(300):
            e = self.rand_env(vs)
            try:
                if all(tm.feval(list(assume), e)):
                    envs.append(e)
            except (KeyError, NotImplementedError):
                return rights
            if len(envs) == 3 or time.time() - t0 > 5:
                break
        if not envs:
            return rights
        ln = [t for t in (lefts if roots_only else tm.topo(lefts)) if not tm.is_bool(t) and t.op != "const"]
        lset = set(ln)
        order = tm.topo(rights)
        rn = [t for t in order if not tm.is_bool(t) and t.op != "const" and t not in lset]
        lv = [tm.feval(ln, e) for e in envs]
        rv = [tm.feval(rn, e) for e in envs]

        def sig(xs):
            """direction of the value vector: equal up to a constant factor"""
            if len(xs) < 2 or any(not np.isfinite(x) for x in xs) or any(abs(x) < 1e-250 for x in xs):
                return None
            return tuple("%.7e" % (x / xs[0]) for x in xs[1:])
        idx = {}
        for k, t in enumerate(ln):
            s = sig([v[k] for v in lv])
            if s is not None:
                idx.setdefault(s, []).append((t, lv[0][k]))
        cand = {}
        for k, t in enumerate(rn):
            xs = [v[k] for v in rv]
            s = sig(xs)
            for l, x in sorted(idx.get(s, ()), key=lambda p: abs(math.log(abs(p[1] / xs[0]))))[:1]:
                c = F(xs[0] / x).limit_denominator(10 ** 5)
                if c and abs(float(c) - xs[0] / x) < 1e-8 * abs(float(c)):
                    cand[t] = tm.scale(l, c)
        val = {}
        nq = 0
        for t in order:
            r = tm.rebuild(t, val)
            if t in cand and nq < limit and time.time() - t0 < budget:
                l = cand[t]
                if r is not l:
                    nq += 1
                    rb = tm.subst([r], {v: f for f, v in names.items()})[0] if names else r
                    st = "unsat" if rb is l else smt.query([tm.ne(rb, l)], timeout=timeout, want_env=False).status
                    if st == "sat" and assume:
                        st = smt.query(list(assume) + [tm.ne(rb, l)], timeout=timeout, want_env=False).status
                    if st == "unsat":
                        r = tm.subst([l], names)[0] if names else l
            val[t] = r
        return [val[r] for r in rights]

    def prove_eq(self, name, pairs, assume=(), replay=None, **kw):
        """every pair of terms is equal"""
        pairs = [(a, b) for a, b in pairs if a is not b]
        return self.prove(name, tm.band(*[tm.eq(a, b) for a, b in pairs]), assume, replay,
                          sides=([a for a, _ in pairs], [b for _, b in pairs]), **kw)

    def prove(self, name, goal, assume=(), replay=None, timeout=None, box=None, robust=None, guard=False,
              tactics=None, slices=3, free=2, hint=(), sides=None, goal_fn=tm.eq):
        """Show that goal holds for all values satisfying assume.

        replay(env) -> (violated, detail) runs the real code on a concrete input.
        robust: boolean term implied to make the negated goal numerically visible.
        """
        assume = [a for a in assume if a is not TRUE]
        if self.only is not None:
            if self.only["obligation"] == name:
                bad, detail = replay(self.only["env"])
                print("REPLAY", name, "violated" if bad else "holds", json.dumps(jsonable(detail)))
                if bad:
                    self.violations.append((name, self.only["env"], detail))
            return True
        t0 = time.time()
        rec = {"name": name, "status": None, "secs": 0.0}
        self.obls.append(rec)

        def done(st):
            rec["status"] = st
            rec["secs"] = round(time.time() - t0, 3)
            if os.environ.get("VP_V"):
                print("  [%7.2fs] %-60s %s" % (rec["secs"], name, st), flush=True)
            if self.violations:
                raise Stop()
            return st == "proved"

        neg = tm.bnot(goal)
        if neg is FALSE:
            smt.STATS.queries += 1
            smt.STATS.unsat += 1
            smt.STATS.trivial += 1
            return done("proved")
        if time.time() > self.deadline:
            self.inconclusive.append("%s: time budget of the check used up" % name)
            return done("inconclusive")
        T_ = timeout or self.timeout
        fs = list(assume) + [neg]
        rb = list(assume) + [robust] if robust is not None else fs
        state = {"sat": False}

        def attempt(r):
            """None: go on; True/False: finished"""
            if r is None:
                return None
            if r.status == "unsat":
                return "proved"
            if r.status == "sat":
                state["sat"] = True
                if self._confirm(name, r.env, replay, rec):
                    return "violated"
            return None

        vs = [v for v in tm.free_vars(fs) if v.val != "pi"]

        def slices_(n, hint):
            for k in range(n):
                order = list(vs)
                self.rng.shuffle(order)
                order = [v for v in hint if v in vs] + [v for v in order if v not in hint]
                env = self._slice(rb if k % 2 == 0 else fs, order, box, max(free, len(hint)), guard)
                if env is not None:
                    yield smt.Result("sat", env)

        def probe(budget, n=3000):
            t1 = time.time()
            for _ in range(n):
                if time.time() - t1 > budget:
                    return
                e = self.rand_env(vs, box)
                try:
                    ok = all(tm.feval(fs, e))
                except (ArithmeticError, ValueError, KeyError, NotImplementedError):
                    continue
                if ok:
                    yield smt.Result("sat", e)
                    return

        def generalised(l, r):
            """Proof attempts on generalisations of the goal (unsat stays unsat)."""
            try:
                sk = self.skeleton(l + r)
                ng = tm.bnot(tm.band(*[goal_fn(x, y) for x, y in zip(sk[:len(l)], sk[len(l):])]))
                if ng is FALSE or smt.query([ng], timeout=3, guard=guard, want_env=False).status == "unsat":
                    return True
                ab = self.abstract(l, r, list(assume) + l + r)
            except NotImplementedError:
                return False
            if ab is None:
                return False
            na, n = len(list(assume)), len(l)
            asm, l2, r2, ex = ab[:na], ab[na:na + n], ab[na + n:na + 2 * n], ab[na + 2 * n:]
            ng = tm.bnot(tm.band(*[goal_fn(x, y) for x, y in zip(l2, r2)]))
            if ng is FALSE:
                return True
            sm = {}
            for x in tm.topo([ng]):
                if x.op in ("lt0", "eq0") and len(tm.topo([x])) > 12:
                    sm[x] = tm.bvar("atom%d" % x.id)
            if sm:
                # arithmetic atoms as free booleans: a further generalisation
                ngs = tm.subst([ng], sm)[0]
                if ngs is FALSE or smt.query(ex + [ngs], timeout=3, guard=guard, want_env=False).status == "unsat":
                    return True
            small = [x for x in asm if len(tm.topo([x])) < 25]
            if smt.query(small + ex + [ng], timeout=3, guard=guard, want_env=False).status == "unsat":
                return True
            return len(small) < len(asm) and smt.query(asm + ex + [ng], timeout=3, guard=guard, want_env=False).status == "unsat"

        def by_cases(l, r):
            """difference of the sides as a polynomial over 0/1 conditions; what does not cancel goes to the solver"""
            if goal_fn is not tm.eq or any(tm.is_bool(x) or x.spec for x in l + r):
                return False
            rest = []
            for x, y in zip(l, r):
                if x is y:
                    continue
                if len(tm.topo([x, y])) > 6000:
                    return False
                try:
                    d = tm.expand(tm.sub(x, y), 20000, cases=True)
                except NotImplementedError:
                    return False
                if len(d) > 60:
                    return False
                rest.append(tm.collapse(d))
            rest = [x for x in rest if x is not ZERO]
            if not rest:
                smt.STATS.trivial += 1
                return True
            ng = tm.bnot(tm.band(*[tm.eq(x, ZERO) for x in rest]))
            return smt.query(list(assume) + [ng], timeout=3, guard=guard, want_env=False).status == "unsat"

        if sides is not None and sides[0] and by_cases(list(sides[0]), list(sides[1])):
            return done("proved")
        if sides is not None and sides[0]:
            # per pair: the abstracted goal is built on the pair, so that common subterms do not dissolve in the difference
            l, r = list(sides[0]), list(sides[1])
            if generalised(l, r):
                return done("proved")
            if smt.query([neg], timeout=2, guard=guard, want_env=False).status == "unsat":
                return done("proved")
            # rewrite the right-hand sides by proved equalities of subterms
            try:
                r2 = self.sweep(l, r, assume)
            except (ArithmeticError, ValueError):
                r2 = r
            if any(x is not y for x, y in zip(r, r2)) and generalised(l, r2):
                return done("proved")

        def stages():
            yield smt.query(fs, timeout=min(T_, 6), guard=guard)
            if hint:
                yield from slices_(2, list(hint))
            if not state["sat"]:
                for tac in (tactics or ["qfnra-nlsat"]):
                    yield smt.query(fs, timeout=min(T_, 6), guard=guard, tactic=tac)
            yield from probe(2.0)
            yield from slices_(slices, ())
            if not state["sat"]:
                yield smt.query(fs, timeout=T_, guard=guard)
                if not state["sat"]:
                    yield smt.query(fs, timeout=T_, guard=guard, tactic="qfnra-nlsat")
            if state["sat"]:
                yield from slices_(2 * slices, ())
                for _ in range(20):
                    yield from probe(1.0, 100)

        for r in stages():
            d = attempt(r)
            if d:
                return done(d)
        self.inconclusive.append("%s: %s" % (name, "counterexample did not reproduce" if state["sat"] else "solver gave no verdict"))
        return done("inconclusive")

    def _slice(self, formulas, vs, box, free, guard):
        """Fix most variables to random values of the box and ask the solver for the rest."""
        fix = vs[free:]
        trig = {}
        for t in tm.topo(formulas):
            if t.op == "fn" and t.val in ("sin", "cos"):
                for b, _ in tm._lin_parts(t.args[0])[0]:
                    if b.op == "var":
                        trig[b] = True
        ass = []
        angles = {}
        env0 = {}
        for v in fix:
            if v.op == "bvar":
                val = self.rng.random() < 0.5
                env0[v.val] = val
                ass.append(v if val else tm.bnot(v))
                continue
            lo, hi = self.range_of(v.val, box)
            x = F(self.rng.uniform(lo, hi)).limit_denominator(64)
            if v in trig:
                angles[v] = x
            else:
                env0[v.val] = float(x)
                ass.append(tm.eq(v, tm.const(x)))
        free_vars_ = [v for v in vs[:free] if v.op == "var"]
        for v in free_vars_:
            if v in trig:
                continue
            lo, hi = self.range_of(v.val, box)
            w = F(hi - lo)
            ass.append(tm.gt(v, tm.const(F(lo) - w)))
            ass.append(tm.lt(v, tm.const(F(hi) + w)))
        # substitute the fixed plain variables for speed
        sub = {v: tm.const(F(env0[v.val])) for v in fix if v.op == "var" and v not in trig}
        fs = tm.subst(list(formulas), sub) if sub else list(formulas)
        if any(f is FALSE for f in fs):
            return None

        def extra(enc):
            out = []
            for (b, u), (zc, zs) in [(k, v) for k, v in enc.trigatom.items() if isinstance(k[0], T)]:
                if b in angles:
                    th = float(angles[b]) * float(u)
                    t = F(math.tan(th / 2)).limit_denominator(10 ** 6)
                    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                    out += [zc == smt.q(c), zs == smt.q(s)]
                    angles[b] = F(2 * math.atan(float(t)) / float(u))
                    if b.val in enc.vars:
                        out.append(enc.vars[b.val] == smt.q(angles[b]))
            return out
        r = smt.query(fs + [a for a in ass if True], timeout=5, guard=guard, extra=extra)
        if r.status != "sat":
            return None
        env = dict(r.env)
        env.update(env0)
        for v, x in angles.items():
            env[v.val] = float(x)
        return env

    def _confirm(self, name, env, replay, rec):
        if env is None:
            return False
        env = fenv(env)
        if replay is None:
            return False
        try:
            bad, detail = replay(env)
        except KeyError as e:
            # variable eliminated by the encoding: any value does
            tries = 0
            while tries < 40:
                try:
                    bad, detail = replay(env)
                    break
                except KeyError as e2:
                    k = e2.args[0]
                    lo, hi = self.range_of(k)
                    env[k] = self.rng.uniform(lo, hi)
                    tries += 1
            else:
                return False
        self.replayed += 1
        if bad:
            self.report(name, env, detail)
        return bool(bad)

    def report(self, name, env, detail):
        for kf in self.known:
            if kf["obligation"] == name:
                if name not in self.known_hits:
                    self.known_hits.append(name)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["text"]))
                return
        self.violations.append((name, env, detail))

    def prove_near(self, name, pairs, bound, tol, replay, free=()):
        """|got - want| <= tol whenever every variable lies in [-bound, bound]: the difference is a polynomial; each of its monomials is
        generalised to an independent number within its own bound (sound) and the solver decides the remaining linear problem.
        if-then-else terms of `got` are generalised to arbitrary numbers in the same range (the result must not depend on them)."""
        goals = []
        asm = []
        for n, (g, w) in enumerate(pairs):
            d = tm.sub(g, w)
            m = {}
            for t in tm.topo([d]):
                if t.op == "ite":
                    m[t] = tm.var("any!%d" % len(m))
            # outermost first: a generalised term hides the ones inside it
            for t in [t for t in reversed(tm.topo([d])) if t.op == "ite"]:
                if t in tm.topo([d]):
                    d = tm.subst([d], {t: m[t]})[0]
            poly = tm.expand(d)
            e = tm.const(poly.pop((), F(0)))
            for k, (mono, c) in enumerate(sorted(poly.items(), key=lambda q: [(a.id, p) for a, p in q[0]])):
                if any(a.op != "var" or p < 0 for a, p in mono):
                    raise Inconclusive(name, "difference is not polynomial")
                v = tm.var("mono!%d!%d" % (n, k))
                b = F(bound) ** sum(p for _, p in mono)
                asm += [tm.le(v, tm.const(b)), tm.ge(v, tm.const(-b))]
                e = e + tm.scale(v, c)
            goals += [tm.le(e, tm.const(F(tol))), tm.ge(e, tm.const(-F(tol)))]
        self.prove(name, tm.band(*goals), asm, replay)

    def resolve(self, x, assume=(), timeout=3.0, budget=60.0):
        """Replace if-then-else terms whose condition the solver decides under `assume` (an equivalence transformation)."""
        roots = flat_terms(x) if not isinstance(x, T) else [x]
        t0 = time.time()
        for _ in range(400):
            if time.time() - t0 > budget:
                break
            hit = None
            for t in tm.topo(roots):
                if t.op == "ite" and t not in self._undecided:
                    hit = t
                    break
            if hit is None:
                break
            c, a, b = hit.args
            pick = None
            sym_abs = c.op == "lt0" and (a + b) is ZERO
            if smt.query(list(assume) + [tm.bnot(c)], timeout=timeout).status == "unsat":
                pick = a
            else:
                neg = c
                if sym_abs:
                    neg = tm.band(c, tm.ne(c.args[0], ZERO))
                if smt.query(list(assume) + [neg], timeout=timeout).status == "unsat":
                    pick = b
                elif sym_abs and smt.query(list(assume) + [tm.gt(c.args[0], ZERO)], timeout=timeout).status == "unsat":
                    pick = a
            if pick is None:
                self._undecided.add(hit)
                continue
            roots = tm.subst(roots, {hit: pick})
        self._undecided = set()
        if isinstance(x, T):
            return roots[0]
        it = iter(roots)

        def back(s):
            s = symify(s)
            v = [Cx(next(it), next(it)) if isinstance(e, Cx) else next(it) for e in s.a.reshape(-1)]
            return mk(v, s.shape, s.dtype)
        return jax.tree_util.tree_map(back, x, is_leaf=is_sym)

    def unit_angles(self, terms, assume=(), timeout=5):
        """sin/cos of arctan2(y, x) with x^2 + y^2 = 1 (proved) become y and x."""
        known = {}
        for _ in range(4):
            sub = {}
            for t in tm.topo(terms):
                if t.op == "fn" and t.val in ("sin", "cos") and t.args[0].op == "fn" and t.args[0].val == "atan2":
                    y, x = t.args[0].args
                    if t.args[0] not in known:
                        g = tm.ne(x * x + y * y, ONE)
                        known[t.args[0]] = any(smt.query(a + [g], timeout=timeout, want_env=False).status == "unsat"
                                               for a in ([], list(assume)))
                    if known[t.args[0]]:
                        sub[t] = y if t.val == "sin" else x
            if not sub:
                break
            terms = tm.subst(terms, sub)
        return terms

    # ---------------------------------------------------------------- equality obligations
    def equal_replay(self, f, args, want, stubs=(), rtol=1e-6, atol=1e-8, fns=None, real_stubs=None, post=None):
        def replay(env):
            cargs = concretize(args, env, fns)
            w = concretize(want, env, fns)
            r = run_real(f, *cargs, stubs=real_stubs(env) if real_stubs else stubs)
            if post:
                r = post(r)
            ok = close(r, w, rtol, atol)
            return (not ok), {"inputs": jsonable(cargs), "got": jsonable(r), "expected": jsonable(w)}
        return replay

    def prove_equal(self, name, got, want, args=(), f=None, assume=(), stubs=(), rtol=1e-6, atol=1e-8, fns=None,
                    real_stubs=None, post=None, margin=F(1, 1000), one_query=False, **kw):
        """got = symbolic result of the real f(*args); want = oracle (pytree of Sym)."""
        replay = self.equal_replay(f, args, want, stubs, rtol, atol, fns, real_stubs, post)
        try:
            pairs = eq_list(got, want)
        except ShapeMismatch as e:
            env = self.rand_env(tm.free_vars(flat_terms(args) + flat_terms(want)))
            self.prove(name, FALSE, assume=(), replay=lambda env_, e=env: replay(dict(e, **env_)), **kw)
            return
        if self.only is not None:
            self.prove(self.only["obligation"] if self.only["obligation"].startswith(name) else name, TRUE, replay=replay)
            return
        if one_query:
            kw["sides"] = ([a for a, _ in pairs], [b for _, b in pairs])
            goal = tm.band(*[tm.eq(a, b) for a, b in pairs])
            rob = tm.bor(*[tm.gt(tm.powi(tm.sub(a, b), 2), tm.const(margin)) for a, b in pairs])
            self.prove(name, goal, assume, replay, robust=rob, **kw)
        else:
            for i, (a, b) in enumerate(pairs):
                goal = tm.eq(a, b)
                if a.spec or b.spec:
                    rob = None
                else:
                    rob = tm.gt(tm.powi(tm.sub(a, b), 2), tm.const(margin))
                n_ = name if len(pairs) == 1 else "%s[%d]" % (name, i)
                if not self.prove(n_, goal, assume, replay, robust=rob, sides=([a], [b]), **kw):
                    if self.violations:
                        break

    def validate(self, name, f, args, got, n=2, assume=(), fns=None, stubs=(), real_stubs=None, rtol=1e-6, atol=1e-8,
                 box=None, want=None, post=None):
        """Push concrete inputs through the real function and the encoding (translator validation)."""
        if self.only is not None or self.violations:
            return
        vs = tm.free_vars(flat_terms(args) + flat_terms(got) + list(assume))
        k = tries = 0
        while k < n and tries < 200:
            tries += 1
            env = self.rand_env(vs, box)
            if not all(tm.feval(list(assume), env, fns)):
                continue
            k += 1
            cargs = concretize(args, env, fns)
            r = run_real(f, *cargs, stubs=real_stubs(env) if real_stubs else stubs)
            if post:
                r = post(r)
            e = concretize(got, env, fns)
            if not close(r, e, rtol, atol):
                if want is not None:
                    w = concretize(want, env, fns)
                    if not close(r, w, max(rtol, 1e-6), max(atol, 1e-8)):
                        self.report(name, env, {"inputs": jsonable(cargs), "got": jsonable(r), "expected": jsonable(w)})
                    if self.violations:
                        raise Stop()
                    return
                raise Inconclusive("encoding of %s disagrees with the real function at %s: real %s encoded %s" % (
                    name, jsonable(cargs), jsonable(r), jsonable(e)))
            self.validated += 1
            if len(self.samples) < 4:
                self.samples.append({"validation": name, "inputs": jsonable(cargs), "real": jsonable(r)})
        if k == 0 and n:
            raise Inconclusive("no validation point for " + name)

    def reachable(self, name, formulas, timeout=None, guard=False):
        """Vacuity guard: the assumptions (and the reached condition) must be satisfiable."""
        if self.only is not None:
            return
        rec = {"name": "reach:" + name, "status": None, "kind": "witness"}
        self.obls.append(rec)
        fs = [f for f in formulas if f is not TRUE]
        if not fs:
            rec["status"] = "reachable"
            return
        vs = [v for v in tm.free_vars(fs) if v.val != "pi"]
        r = None
        for _ in range(100):
            e = self.rand_env(vs)
            try:
                if all(tm.feval(fs, e)):
                    r = smt.Result("sat", e)
                    break
            except (ArithmeticError, ValueError, NotImplementedError):
                pass
        if r is None:
            r = smt.query(fs, timeout=timeout or self.timeout, guard=guard)
        if r.status == "unknown":
            for _ in range(6):
                e = self._slice(fs, self.rng.sample(vs, len(vs)), None, 2, guard)
                if e is not None:
                    r = smt.Result("sat", e)
                    break
        rec["status"] = {"sat": "reachable", "unsat": "VACUOUS"}.get(r.status, "unknown")
        if r.status != "sat":
            self.inconclusive.append("reachability of %s: %s" % (name, r.status))

    # ---------------------------------------------------------------- end
    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        viol = []
        for i, (name, env, detail) in enumerate(self.violations):
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            p = os.path.join(rd, "%s-%d.json" % (self.pid, i))
            with open(p, "w") as fh:
                json.dump({"property": self.pid, "obligation": name, "env": jsonable(env), "detail": jsonable(detail),
                           "how": "/opt/venv/bin/python -m vp.run %s --replay %s" % (self.pid, p)}, fh, indent=1)
            viol.append((name, p))
        obl = [o for o in self.obls if o.get("kind") != "witness"]
        wit = [o for o in self.obls if o.get("kind") == "witness"]
        cov = {
            "explanation": "Bounded symbolic checking of the real code: the functions listed are traced to JAX's compiler IR "
                           "(jaxpr) from /repo's current source, executed on symbolic inputs, and each obligation (negated "
                           "property) is decided by z3 for all input values within the stated bounds; 'closed_by_normaliser' "
                           "counts obligations whose negation is already the constant false after term normalisation.",
            "functions_encoded": self.funcs,
            "bounds": self.bounds,
            "outside_bounds": self.outside,
            "obligations": len(obl),
            "discharged": sum(o["status"] == "proved" for o in obl),
            "reachability_witnesses": len(wit),
            "reachability_confirmed": sum(o["status"] == "reachable" for o in wit),
            "solver": dict(smt.STATS.as_dict(), z3=smt.z3.get_version_string()),
            "encoding_validated_points": self.validated,
            "counterexamples_replayed": self.replayed,
            "known_findings_reproduced": self.known_hits,
            "samples": self.samples[:4] or [o for o in obl[:3]],
            "obligation_list": [{k: o[k] for k in ("name", "status", "secs") if k in o} for o in self.obls][:400],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(viol)}
        with open(os.path.join(d, self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for name, p in viol:
            print("violated obligation: %s" % name)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s: %d obligations, %d discharged, %d witnesses, %d queries, solver %.1fs, wall %.1fs" % (
            self.pid, self.tier, len(obl), cov["discharged"], len(wit), smt.STATS.queries, smt.STATS.solver_s, ev["wall_s"]))
        if viol:
            return 1
        if self.inconclusive:
            for m in self.inconclusive:
                print("INCONCLUSIVE " + m)
            return 2
        if cov["discharged"] + len(self.known_hits) < len(obl):
            print("INCONCLUSIVE undischarged obligations")
            return 2
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                assert key.startswith("obligation=")
                out.append({"obligation": key[len("obligation="):], "text": text})
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("vp.checks." + a.pid.lower())
    rp = json.load(open(a.replay)) if a.replay else None
    ck = Check(a.pid, a.tier, seed, rp)
    try:
        mod.run(ck)
    except Stop:
        pass
    except Exception as e:
        traceback.print_exc()
        if ck.violations:
            return ck.finish()
        ck.inconclusive.append("%s: %s" % (type(e).__name__, e))
        ck.finish()
        return 2
    return ck.finish() if rp is None else (1 if ck.violations else 0)
