"""C07: the Ehrlich-Aberth iteration: step, fixed points, freezing of converged roots, enclosing start, independent rows."""

PROP = {
    "title": "Root finder: true roots are fixed points and converged roots stay put",
    "statement": "Each iteration of the polynomial root finder performs the Ehrlich-Aberth update of every root not yet converged and "
                 "leaves converged ones (last update within tolerance) unchanged, so a complete set of distinct true roots is returned as it is. "
                 "Without a start it begins on a circle that encloses every root of the polynomial, and every polynomial "
                 "of a batch is treated as if it were alone.",
    "over": ["inputs", "histories"],
    "text": "all complex coefficients and root estimates; degrees 1-3 (thorough 4); the first two iterations from an arbitrary state",
    "why": "tests only see converged results of a few polynomials; a wrong update still converges most of the time",
    "files": ["src/microjax/poly_solver.py"],
    "mech": [("update step", "poly_solver._ea_step"), ("loop", "poly_solver.poly_roots_EA"), ("start radius", "poly_solver._cauchy_radius")],
    "technique": "bounded unrolling of the iteration from an arbitrary state, nonlinear real arithmetic",
    "note": "arbitrary state, one and two iterations, degree <= 3 (4); a later iteration is a first iteration from another state; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, mk
from .. import term as tm
from ..term import const
from .c06 import horner

TOL = F(1, 10 ** 12)
EPS = F(float(np.finfo(float).eps) * 10)


class Captured(Exception):
    pass


def ea_update(cs, zs, k):
    """(update, |update|<=tol) of root k at estimates zs"""
    n = len(cs) - 1
    d = [Cx(tm.scale(x.re, n - j), tm.scale(x.im, n - j)) for j, x in enumerate(cs[:-1])]
    z = zs[k]
    f, fp = horner(cs, z), horner(d, z)
    s = Cx(ZERO, ZERO)
    for j in range(n):
        if j == k:
            continue
        e = z - zs[j]
        same = tm.band(tm.eq(e.re, ZERO), tm.eq(e.im, ZERO))
        inv = e.inv()
        s = s + Cx(tm.ite(same, ZERO, inv.re), tm.ite(same, ZERO, inv.im))
    den = fp - f * s
    small = tm.lt(den.norm2(), const(EPS * EPS))
    den = Cx(tm.ite(small, fp.re, den.re), tm.ite(small, fp.im, den.im))
    return f / den, den


def run(ck):
    from microjax.poly_solver import poly_roots, poly_roots_EA, poly_roots_EA_multi
    ck.encodes("poly_solver.poly_roots_EA", "poly_solver._ea_step", "poly_solver._cauchy_radius", "poly_solver.poly_roots_EA_multi")
    ck.ranges.update({"*": (-2, 2), "c_0.im": (4, 5)})
    ck.bound("degrees 1-%d for one iteration, 1-2 for two iterations; start circle degrees 1-5, enclosure degrees 1-2; batches of 2" % (3 if ck.quick else 4))
    ck.assume("exact reals; the derivative in the denominator of the update is nonzero; one coefficient is properly complex "
              "(otherwise tiny imaginary parts are dropped, checked separately)")

    def step_fn(k, tol=1e-12):
        return lambda c, r: poly_roots_EA(c, r, tol, k)

    def np_step(c, z):
        n = len(c) - 1
        out = []
        for k in range(n):
            f, fp = np.polyval(c, z[k]), np.polyval(np.polyder(c), z[k])
            s = sum(1 / (z[k] - z[j]) for j in range(n) if j != k and z[k] != z[j])
            den = fp - f * s
            out.append(f / (fp if abs(den) < float(EPS) else den))
        return np.array(out)

    def iterate(n, iters, tol, ca, ra):
        z, w, done = run_real(step_fn(iters, tol), ca, ra), np.array(ra), np.zeros(n, bool)
        for _ in range(iters):
            if done.all():
                break
            with np.errstate(all="ignore"):
                u = np_step(ca, w)
            w = np.where(done, w, w - u)
            done = done | (np.abs(u) <= tol)
        ok = z.shape == w.shape and (not np.all(np.isfinite(w)) or close(z, w, 1e-6, 1e-8))
        return (not ok), {"coeffs": ca, "start": ra, "got": z, "expected": w, "iterations": iters, "tol": tol}

    # one pass of the loop from an arbitrary state (estimates and which of them have converged)
    for n in (1, 2):
        c, r = sym_cplx("c", (n + 1,)), sym_cplx("r", (n,))
        tol = 0.25
        log = []

        def havoc(itp, st, t, log=log, n=n):
            ix = [i for i, x in enumerate(st) if is_sym(x) or hasattr(x, "shape")]
            zi = [i for i in ix if st[i].shape == (n,) and np.dtype(st[i].dtype).kind == "c"]
            di = [i for i in ix if st[i].shape == (n,) and np.dtype(st[i].dtype) == np.bool_]
            if len(zi) != 1 or len(di) != 1:
                return st
            log.append((symify(st[zi[0]]), symify(st[di[0]])))
            if len(log) == 2:
                raise Captured()
            st = list(st)
            st[zi[0]] = mk([Cx(tm.var("v%d_%d.re" % (t, k)), tm.var("v%d_%d.im" % (t, k))) for k in range(n)], (n,), np.complex128)
            st[di[0]] = mk([tm.bvar("d%d_%d" % (t, k)) for k in range(n)], (n,), np.bool_)
            return st
        try:
            Interp(hooks={"__while_state__": havoc}).call(step_fn(3, tol), c, r)
        except Captured:
            pass
        if len(log) < 2:
            ck.bound("loop state of degree %d not recognised: the pass from an arbitrary state is not checked" % n)
            continue

        def rep3(env, n=n, c=c, r=r, tol=tol):
            rng = np.random.default_rng(5)
            for _ in range(300):
                ca = rng.uniform(-2, 2, n + 1) + 1j * rng.uniform(-2, 2, n + 1)
                ca[0] = ca[0].real + 4.5j
                bad, d = iterate(n, 4, tol, ca, rng.uniform(-2, 2, n) + 1j * rng.uniform(-2, 2, n))
                if bad:
                    return True, d
            return False, {}
        z1 = [Cx(tm.var("v1_%d.re" % k), tm.var("v1_%d.im" % k)) for k in range(n)]
        d1 = [tm.bvar("d1_%d" % k) for k in range(n)]
        zz, dd = log[1]
        # the flags may mean "converged" or "still moving": decided by what the first pass does with them
        agree = []
        for k in range(n):
            u0, _ = ea_update(list(c.a), list(r.a), k)
            conv, flag = tm.le(u0.norm2(), const(F(tol) * F(tol))), log[0][1].a[k]
            for _ in range(20):
                env = ck.rand_env(tm.free_vars(flat_terms((c, r))))
                x, y = tm.feval([conv, flag], env)
                agree.append(bool(x) == bool(y))
        pos = sum(agree) * 2 >= len(agree)
        isdone = [d if pos else tm.bnot(d) for d in d1]
        for k in range(n):
            u, den = ea_update(list(c.a), z1, k)
            v = z1[k] - u
            asm = [tm.ne(den.norm2(), ZERO), tm.bnot(tm.band(*isdone))]
            ck.prove_eq("deg%d/any-state/root%d" % (n, k), [(zz.a[k].re, tm.ite(isdone[k], z1[k].re, v.re)),
                                                            (zz.a[k].im, tm.ite(isdone[k], z1[k].im, v.im))], asm, rep3)
            want = tm.bor(isdone[k], tm.le(u.norm2(), const(F(tol) * F(tol))))
            ck.prove("deg%d/any-state/done%d" % (n, k), tm.iff(dd.a[k] if pos else tm.bnot(dd.a[k]), want), asm, rep3)

    for n in ((1, 2, 3) if ck.quick else (1, 2, 3, 4)):
        c, r = sym_cplx("c", (n + 1,)), sym_cplx("r", (n,))
        cs, rs = list(c.a), list(r.a)
        for iters in ((1, 2) if n <= 2 else (1,)):
            tag = "deg%d/%d-iter" % (n, iters)
            tol = 0.25 if iters > 1 else 1e-12      # a wide tolerance makes roots converge at different iterations
            f = step_fn(iters, tol)
            got = run_sym(f, c, r)

            def rep(env, n=n, iters=iters, c=c, r=r, tol=tol):
                ca, ra = concretize(c, env), concretize(r, env)
                return iterate(n, iters, tol, ca, ra)
            if got.shape != (n,):
                ck.prove(tag + "/shape", FALSE, (), rep)
            cur, done, asm = list(rs), [FALSE] * n, [tm.gt(cs[0].im, const(F(tol) * 10 + 1))]
            for t in range(iters):
                stop, nxt, nd = tm.band(*done), [], []
                for k in range(n):
                    u, den = ea_update(cs, cur, k)
                    asm.append(tm.bor(stop, tm.ne(den.norm2(), ZERO)))
                    v = cur[k] - u
                    nxt.append(Cx(tm.ite(done[k], cur[k].re, v.re), tm.ite(done[k], cur[k].im, v.im)))
                    nd.append(tm.bor(done[k], tm.le(u.norm2(), const(F(tol) * F(tol)))))
                cur, done = nxt, nd
            ideal = cur
            for k in range(n):
                g, h = got.a[k], ideal[k]
                ck.prove_eq("%s/root%d.re" % (tag, k), [(g.re, h.re)], asm, rep)
                ck.prove_eq("%s/root%d.im" % (tag, k), [(g.im, h.im)], asm, rep)
            ck.reachable(tag, asm)
            for _ in range(2):
                env = ck.rand_env(tm.free_vars(flat_terms((c, r))))
                bad, d = rep(env)
                if bad:
                    ck.report(tag + "/validate", env, d)
                    raise Stop()
                ck.validated += 1
        # fixed points: coefficients built from the roots
        if n <= 3:
            lead = Cx(tm.var("l.re"), tm.var("l.im"))
            poly = [lead]
            for z in rs:
                nxt = poly + [Cx(ZERO, ZERO)]
                for i, x in enumerate(poly):
                    nxt[i + 1] = nxt[i + 1] - x * z
                poly = nxt
            cp = mk(poly, (n + 1,), np.complex128)
            u = [ea_update(poly, rs, k) for k in range(n)]
            distinct = [tm.ne((rs[i] - rs[j]).norm2(), ZERO) for i in range(n) for j in range(i)]
            asm = [tm.gt(lead.im, ONE)] + distinct
            for k in range(n):
                f0 = horner(poly, rs[k])

                def repf(env, cp=cp, r=r, k=k):
                    ca, ra = concretize(cp, env), concretize(r, env)
                    z = run_real(step_fn(3), ca, ra)
                    return (not close(z, ra, 1e-6, 1e-7)), {"coeffs": ca, "roots": ra, "got": z}
                g = run_sym(step_fn(1), cp, r).a[k]
                # the update is f/den; f vanishes (lemma), so the new estimate equals the old one
                ck.prove("deg%d/fixed/vanishes%d" % (n, k), tm.band(tm.eq(f0.re, ZERO), tm.eq(f0.im, ZERO)), (), repf)
                if n <= 2 or not ck.quick:
                    sub = {}
                    if f0.re.op != "const":
                        sub[f0.re] = ZERO
                    if f0.im.op != "const":
                        sub[f0.im] = ZERO
                    gr, gi = tm.subst([g.re, g.im], sub)
                    ck.prove("deg%d/fixed/root%d" % (n, k), tm.band(tm.eq(gr, rs[k].re), tm.eq(gi, rs[k].im)), asm, repf)
            ck.reachable("deg%d/fixed" % n, asm)
            env = ck.rand_env(tm.free_vars(flat_terms((cp, r))))
            bad, d = repf(env)
            if bad:
                ck.report("deg%d/fixed/validate" % n, env, d)
                raise Stop()

    # real coefficients: imaginary parts below 1e-11 are dropped, nothing else changes
    n = 2
    c, r = sym_real("c", (n + 1,)), sym_cplx("r", (n,))
    got = run_sym(step_fn(1), c, r)
    cs, rs = [Cx(x, ZERO) for x in c.a], list(r.a)
    for k in range(n):
        u, den = ea_update(cs, rs, k)
        h, g = rs[k] - u, got.a[k]

        def rep(env, k=k):
            ca, ra = concretize(c, env), concretize(r, env)
            z = run_real(step_fn(1), ca, ra)
            with np.errstate(all="ignore"):
                w = ra - np_step(ca, ra)
            return bool(np.all(np.isfinite(w)) and not close(z, w, 1e-6, 1e-8)), {"coeffs": ca, "start": ra, "got": z, "expected": w}
        ck.prove("real-coeffs/root%d.re" % k, tm.eq(g.re, h.re), [tm.ne(den.norm2(), ZERO)], rep)
        near = lambda a, b: tm.bor(tm.eq(a, b), tm.band(tm.eq(a, ZERO), tm.lt(tm.tabs(b), const(F(1, 10 ** 10)))))
        ck.prove("real-coeffs/root%d.im" % k, near(g.im, h.im), [tm.ne(den.norm2(), ZERO)], rep, sides=([g.im], [h.im]), goal_fn=near)

    # default start
    for n in (1, 2, 3, 5):
        c = sym_cplx("c", (n + 1,))
        f = lambda c: poly_roots_EA(c, None, 1e-12, 0)
        got = run_sym(f, c)
        R2 = [e.norm2() for e in got.a]
        big = [tm.gt(c.a[0].im, ONE)]

        def reps(env, n=n, c=c):
            ca = concretize(c, env)
            z = run_real(f, ca)
            rad = 1 + np.max(np.abs(ca[1:]) / abs(ca[0]))
            ang = np.sort(np.angle(z / z[0] * np.exp(1j * 1e-3)) % (2 * np.pi))
            bad = z.shape != (n,) or not np.allclose(np.abs(z), np.abs(z[0])) or abs(z[0]) < max(np.abs(np.roots(ca))) * (1 - 1e-9) \
                or not np.allclose(np.diff(ang), 2 * np.pi / n)
            return bool(bad), {"coeffs": ca, "start": z, "cauchy": rad}
        for k in range(n):
            # on the circle of the first point, rotated by 2 pi k/n
            rot = Cx(*[symify(x).a[()] for x in run_sym(lambda k=k, n=n: (jnp.cos(2 * jnp.pi * k / n), jnp.sin(2 * jnp.pi * k / n)))])
            w = got.a[0] * rot
            e = got.a[k] - w
            ck.prove("start/deg%d/angle%d" % (n, k), tm.lt(e.norm2(), tm.scale(R2[0], F(1, 10 ** 20))), big, reps)
        # encloses every root: radius is at least the Cauchy bound 1 + |c_i|/|c_0|
        c0 = tm.sqrt(c.a[0].norm2())
        rad = got.a[0].re if got.a[0].im is ZERO else tm.sqrt(R2[0])
        for i in range(1, n + 1):
            x = tm.scale(ONE + tm.div(tm.sqrt(c.a[i].norm2()), c0), F(999999, 1000000))
            ck.prove("start/deg%d/cauchy%d" % (n, i), tm.ge(rad, x), big + [tm.gt(c0, ONE)], reps, sides=([rad], [x]), goal_fn=tm.ge)
        ck.reachable("start/deg%d" % n, big)
    # the Cauchy radius does enclose the roots (degree 2, moduli): |c0||z|^2 <= |c1||z|+|c2| and |z| > 1+max impossible
    C0, C1, C2, m = (tm.var(x) for x in ("C0", "C1", "C2", "m"))
    ck.prove("cauchy/encloses", tm.bor(tm.le(m, ONE + tm.div(C1, C0)), tm.le(m, ONE + tm.div(C2, C0)),
                                       tm.gt(C0 * m * m, C1 * m + C2)), [tm.gt(C0, ZERO), tm.ge(m, ZERO), tm.ge(C1, ZERO), tm.ge(C2, ZERO)], lambda env: (False, {}))

    # batches: every row is treated as if alone (the loop is cut after two iterations)
    n = 2
    it_cut = lambda f, *a: jax.tree_util.tree_map(symify, Interp(hooks={"__while_bound__": lambda i, e, st: st}, while_bound=2).call(f, *a), is_leaf=is_sym)
    for shape in ((2,), (2, 1)):
        for custom in (False, True):
            C, R0 = sym_cplx("c", shape + (n + 1,)), sym_cplx("r", shape + (n,))
            f = (lambda C, R0: poly_roots(C, custom_init=True, roots_init=R0)) if custom else (lambda C, R0: poly_roots(C))
            tag = "batch%s%s" % ("x".join(map(str, shape)), "-custom" if custom else "")
            got = it_cut(f, C, R0)

            def repb(env, C=C, R0=R0, f=f, shape=shape):
                ca, ra = concretize(C, env), concretize(R0, env)
                z = run_real(f, ca, ra)
                if z.shape != shape + (n,):
                    return True, {"shape": z.shape}
                w = np.stack([run_real(f, ca.reshape(-1, n + 1)[i], ra.reshape(-1, n)[i]) for i in range(2)]).reshape(z.shape)
                return (not close(z, w, 1e-6, 1e-8)), {"coeffs": ca, "got": z, "alone": w}
            if got.shape != shape + (n,):
                ck.prove(tag + "/shape", FALSE, (), repb)
            rows = got.a.reshape(-1, n)
            for i in range(2):
                one = it_cut(f, mk(list(C.a.reshape(-1, n + 1)[i]), (n + 1,), np.complex128), mk(list(R0.a.reshape(-1, n)[i]), (n,), np.complex128))
                for k in range(n):
                    g, h = rows[i, k], one.a.reshape(-1)[k]
                    # a row that has finished keeps its value while others go on
                    ck.prove_eq("%s/row%d/root%d" % (tag, i, k), [(g.re, h.re), (g.im, h.im)], (), repb)
            env = ck.rand_env(tm.free_vars(flat_terms((C, R0))))
            bad, d = repb(env)
            if bad:
                ck.report(tag + "/validate", env, d)
                raise Stop()
