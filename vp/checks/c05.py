"""C05: critical curves are where det J = 0, caustics are their images, both in the centre-of-mass frame."""

PROP = {
    "title": "Critical curves are det J = 0, caustics are their images in the source plane",
    "statement": "For every binary and triple lens the critical-curve polynomial of each sampled phase has as roots exactly the points "
                 "off the lenses where sum m_k/(z-r_k)^2 equals that unit phase (hence det J = 0), and the phases sample the whole circle "
                 "uniformly. The caustics returned are the lens map of the critical points, both shifted to the centre-of-mass frame, "
                 "every root appears once per phase, and branches are ordered by matching each phase's roots to the previous ordered ones; "
                 "a single lens gives the unit circle and the origin.",
    "over": ["inputs", "configurations"],
    "text": "all real lens parameters; numbers of phases 2-5; arbitrary root sets from the root finder and arbitrary matchings",
    "why": "the tests evaluate one or two lens configurations; coefficient or frame errors in rarely dominant terms pass them",
    "files": ["src/microjax/coeffs.py", "src/microjax/point_source.py"],
    "mech": [("critical polynomial", "coeffs._poly_coeffs_critical_binary, _poly_coeffs_critical_triple"),
             ("curves", "point_source.critical_and_caustic_curves")],
    "technique": "root finder and matcher replaced by stubs; polynomial identities over all parameters",
    "note": "all real s, q, q3, r3, psi with q, q3 > 0; 2-5 phases; arbitrary roots; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm
from ..term import const
from .c02 import pmul, padd, pscale
from .c03 import roots_stub, sqparams

RANGES = {"s": (0.4, 2.2), "q": (0.05, 1.5), "q3": (0.05, 1.5), "r3": (0.2, 1.5), "psi": (-3, 3), "y*": (-1.7, 1.7)}

PERMS = {4: [[0, 1, 2, 3], [2, 0, 3, 1], [3, 2, 1, 0], [1, 0, 3, 2], [3, 0, 2, 1]],
         6: [[0, 1, 2, 3, 4, 5], [5, 0, 3, 1, 2, 4], [3, 2, 1, 0, 4, 5], [1, 0, 5, 4, 2, 3], [2, 4, 0, 5, 1, 3]]}


def crit_poly(u, L):
    """u prod (z-r_i)^2 - sum_i m_i prod_{j!=i} (z-r_j)^2"""
    one = Cx(ONE, ZERO)
    sq = [pmul([one, -p], [one, -p]) for _, p in L]
    full = [one]
    for p in sq:
        full = pmul(full, p)
    tot = pscale(u, full)
    for i, (m, _) in enumerate(L):
        x = [Cx(m, ZERO)]
        for j, p in enumerate(sq):
            if j != i:
                x = pmul(x, p)
        tot = padd(tot, [-e for e in x])
    return tot


def run(ck):
    from microjax.point_source import critical_and_caustic_curves
    from microjax.utils import match_points
    ck.encodes("point_source.critical_and_caustic_curves", "coeffs._poly_coeffs_critical_binary",
               "coeffs._poly_coeffs_critical_triple", "point_source.lens_eq")
    ck.ranges.update(RANGES)
    ck.bound("2 and 3 lenses; npts in {2,3,5} (thorough: also 4); arbitrary roots and %d fixed matchings per step" % 5)
    ck.assume("poly_roots and match_points replaced by stubs (arbitrary complex roots; fixed permutations, one per phase); exact reals; q, q3 > 0")
    for npts in (3, 5):
        phi = np.linspace(-np.pi, np.pi, npts)
        zc, za = run_sym(lambda x: critical_and_caustic_curves(npts=npts, nlenses=1), scal(tm.var("s")))
        n2 = [tm.as_cx(e).norm2() for e in zc.a.reshape(-1)]
        rep1 = lambda env, npts=npts: (lambda r: (bool(np.any(np.abs(np.abs(r[0]) - 1) > 1e-9) or np.any(np.abs(r[1]) > 1e-9)
                                                      or np.asarray(r[0]).size != npts), {"r": r}))(
            run_real(lambda: critical_and_caustic_curves(npts=npts, nlenses=1)))
        ck.prove("n1/unit-circle-%d" % npts, tm.band(*[tm.lt(tm.powi(x - ONE, 2), const(F(1, 10 ** 20))) for x in n2]) if len(n2) == npts else FALSE, (), rep1)
        ck.prove("n1/caustic-%d" % npts, tm.band(*[tm.eq(tm.as_cx(e).norm2(), ZERO) for e in za.a.reshape(-1)]), (), rep1)
    for nl, deg in ((2, 4), (3, 6)):
        P, L, xcm, asm = sqparams(nl)
        for npts in ((2, 3, 5) if ck.quick else (2, 3, 4, 5)):
            seen, calls = [], []
            y = sym_cplx("y", (npts, deg))
            tag = "n%d/npts%d" % (nl, npts)

            def mk_stubs(sym=True, roots=None, rec=None):
                rs = roots_stub()
                base = rs.sym

                def sym_(c, *a, **k):
                    seen.append(c)
                    return base(c, *a, **k)
                rs.sym = sym_
                def msym(a, b):
                    calls.append((a, b))
                    row = [i for i in range(npts) if all(b.a[k] is y.a[i, k] or (b.a[k].re is y.a[i, k].re) for k in range(deg))]
                    if not row:
                        raise Inconclusive("matcher called on something else than one phase's roots")
                    return np.array(PERMS[deg][row[0] % 5])

                def conc_roots(c, *a, **k):
                    if rec is not None:
                        rec["coeffs"] = np.asarray(c)
                    return roots

                def mconc(a, b):
                    if rec is not None:
                        rec.setdefault("match", []).append((np.asarray(a), np.asarray(b)))
                    row = int(np.argmin(np.abs(roots - np.asarray(b)).sum(axis=1)))
                    return np.array(PERMS[deg][row % 5])
                rs.conc = conc_roots
                ms = Stub(match_points, lambda a, b: jax.ShapeDtypeStruct((deg,), np.int64), msym, mconc)
                return [rs, ms]
            f = lambda P, nl=nl, npts=npts: critical_and_caustic_curves(npts=npts, nlenses=nl, **P)
            zc, za = run_sym(f, P, stubs=mk_stubs())
            if len(seen) != 1:
                raise Inconclusive("poly_roots called %d times" % len(seen))
            c = seen[0]
            if c.shape != (npts, deg + 1) or zc.shape != (deg, npts) or za.shape != (deg, npts):
                ck.prove(tag + "/shape", FALSE, (), lambda env: (True, {"shapes": [c.shape, zc.shape, za.shape]}))
            # oracle
            phi = np.linspace(-np.pi, np.pi, npts)

            def us(sign):
                from ..interp import Interp
                it = Interp()
                return symify(it.call(lambda: jnp.exp(sign * 1j * jnp.linspace(-np.pi, np.pi, npts)))).a

            def real_coeffs(env):
                rec = {}
                run_real(f, concretize(P, env), stubs=mk_stubs(roots=np.zeros((npts, deg), complex), rec=rec))
                return rec["coeffs"]

            def rep_c(env):
                cr = real_coeffs(env)
                p = {k: float(v) for k, v in concretize(P, env).items()}
                a = p["s"] / 2
                tot = 1 + p["q"] + p.get("q3", 0)
                l_ = [(p["q"] / tot, a), (1 / tot, -a)] + ([(p["q3"] / tot, p["r3"] * np.exp(1j * p["psi"]))] if nl == 3 else [])
                bad = {}
                for sign in (-1, 1):
                    bad[sign] = 0.0
                    for i in range(npts):
                        r = np.roots(cr[i])
                        if r.size != deg:
                            bad[sign] = 9.0
                            break
                        v = sum(m / (r - x) ** 2 for m, x in l_) - np.exp(sign * 1j * phi[i])
                        k_ = np.abs(sum(2 * m / (r - x) ** 3 for m, x in l_))
                        bad[sign] = max(bad[sign], float(np.max(np.abs(v) / (1 + 1e3 * 0 + k_))))
                b = min(bad.values())
                return (not b < 1e-4), {"params": p, "residual": b, "coeffs": cr}
            ok_sign = None
            for sign in (-1, 1):
                u = us(sign)
                goals = []
                for i in range(npts):
                    ref = crit_poly(u[i], L)
                    for k in range(1, deg + 1):
                        d = c.a[i, k] * ref[0] - ref[k] * c.a[i, 0]
                        goals.append(("%s/phase%d/c%d" % (tag, i, k), tm.band(tm.eq(d.re, ZERO), tm.eq(d.im, ZERO))))
                    goals.append(("%s/phase%d/degree" % (tag, i), tm.ne(c.a[i, 0].norm2(), ZERO)))
                # quick decision of the sampling direction on one concrete point
                env = ck.rand_env(tm.free_vars(flat_terms(P)))
                if all(tm.feval([g if False else tm.lt(tm.ZERO, tm.ONE)], env)[0] for _, g in goals):
                    e1 = _resid(goals, env, c, u, L, deg, npts)
                    if e1 < 1e-8 or sign == 1:
                        ok_sign = sign
                        break
            for nm, g in goals:
                ck.prove(nm, g, asm, rep_c)
            # structure: each phase's column holds exactly its roots, in the matched order
            zexp = np.empty((deg, npts), dtype=object)
            for i in range(npts):
                for k in range(deg):
                    zexp[k, i] = y.a[i, PERMS[deg][i % 5][k]]
            X = Cx(xcm, ZERO)
            wz = mk([e + X for e in zexp.reshape(-1)], (deg, npts), np.complex128)
            wa = mk([lens_map(e, L) + X for e in zexp.reshape(-1)], (deg, npts), np.complex128)

            def rep_s(env):
                rec = {}
                full = dict(env)
                for v in tm.free_vars(flat_terms(y) + flat_terms(P)):
                    full.setdefault(v.val, ck.rng.uniform(*ck.range_of(v.val)))
                r = run_real(f, concretize(P, full), stubs=mk_stubs(roots=concretize(y, full), rec=rec))
                w = (concretize(wz, full), concretize(wa, full))
                bad = not close(r, w)
                ms = rec.get("match", [])
                ycon = concretize(y, full)
                want = _chain(ycon, deg)
                bad = bad or any(not any(close(m, x) for m in ms) for x in want[1:])
                return bad, {"got": r, "want": w}
            asm2 = lambda e: asm + off_lens(e, L)
            # arguments of the matcher: (previous ordered roots, roots of this phase)
            goalm, prev = [], [y.a[0, k] for k in range(deg)]
            for i in range(1, npts):
                alts = []
                for a_, b_ in calls:
                    g = []
                    for k in range(deg):
                        for u_, v_ in ((a_.a[k], prev[k]), (b_.a[k], y.a[i, k])):
                            g += [tm.eq(u_.re, v_.re), tm.eq(u_.im, v_.im)]
                    alts.append(tm.band(*g))
                goalm.append(tm.bor(*alts) if alts else FALSE)
                prev = [y.a[i, PERMS[deg][i % 5][k]] for k in range(deg)]
            ck.prove(tag + "/matching", tm.band(*goalm), (), rep_s)
            for i in range(npts):
                for k in range(deg):
                    for nm, got, want in (("critical", zc, wz), ("caustic", za, wa)):
                        g, h = got.a[k, i], want.a[k, i]
                        ck.prove("%s/%s[%d,%d]" % (tag, nm, k, i), tm.band(tm.eq(g.re, h.re), tm.eq(g.im, h.im)), asm2(zexp[k, i]), rep_s)
            ck.reachable(tag, asm2(zexp[0, 0]))
            for _ in range(2):
                env = ck.rand_env(tm.free_vars(flat_terms(P) + flat_terms(y)))
                bad, d = rep_s(env)
                bad2, d2 = rep_c(env)
                if bad or bad2:
                    ck.report(tag + "/validate", env, {"structure": d, "coeffs": d2})
                    raise Stop()
                ck.validated += 1


def _chain(ycon, deg):
    out, prev = [], ycon[0]
    for i in range(len(ycon)):
        out.append((prev, ycon[i]))
        prev = ycon[i][PERMS[deg][i % 5]]
    return out


def _resid(goals, env, c, u, L, deg, npts):
    worst = 0.0
    for i in range(npts):
        ref = crit_poly(u[i], L)
        ts = []
        for k in range(1, deg + 1):
            d = c.a[i, k] * ref[0] - ref[k] * c.a[i, 0]
            ts += [d.re, d.im]
        worst = max(worst, max(abs(v) for v in tm.feval(ts, env)))
    return worst
