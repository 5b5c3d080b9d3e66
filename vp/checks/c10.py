"""C10: weighted straight-line fit."""

PROP = {
    "title": "Weighted straight-line fit is the exact least-squares solution",
    "statement": "linear_chi2 returns the slope b and intercept a that solve the normal equations of sum w (y - a - b x)^2 with w = 1/err^2 "
                 "for positive err and w = 1 otherwise, the standard errors are the roots of the diagonal of the inverse normal matrix, and "
                 "chi2 is that sum at the solution. A scalar err acts like that value at every point.",
    "over": ["inputs"],
    "text": "all abscissae (not all equal), ordinates and errors (positive, zero or negative, mixed) for 2-4 points (5 thorough)",
    "why": "tests use one noiseless line; wrong error bars, weights or a missing weight in chi2 do not show there",
    "files": ["src/microjax/likelihood.py"],
    "mech": [("fit", "likelihood.linear_chi2")],
    "technique": "normal equations over the traced code, nonlinear real arithmetic",
    "note": "2-4 points (5 thorough); positive definite normal matrix; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_real
from .. import term as tm


def run(ck):
    from microjax.likelihood import linear_chi2
    ck.encodes("likelihood.linear_chi2")
    ck.ranges.update({"e*": (-1, 2), "*": (-2, 2)})
    ck.bound("2-4 points (5 thorough)")
    ck.assume("abscissae not all equal (normal matrix invertible); exact reals")
    for n in ((2, 3, 4) if ck.quick else (2, 3, 4, 5)):
        for kind in ("array", "scalar", "default"):
            if kind != "array" and n == 4:
                continue
            x, y = sym_real("x", (n,)), sym_real("y", (n,))
            e = sym_real("e", (n,)) if kind == "array" else sym_real("e")
            ev = list(e.a) if kind == "array" else [R(e)] * n if kind == "scalar" else [ZERO] * n
            args = (x, y) if kind == "default" else (x, y, e)
            w = [tm.ite(tm.gt(v, ZERO), tm.div(ONE, tm.mul(v, v)), ONE) if v is not ZERO else ONE for v in ev]
            dets = sum((w[i] * w[j] * tm.powi(x.a[i] - x.a[j], 2) for i in range(n) for j in range(i)), ZERO)
            sw = sum(w, ZERO)
            swx = sum((a * b for a, b in zip(w, x.a)), ZERO)
            sxx = sum((a * b * b for a, b in zip(w, x.a)), ZERO)

            def rep(env, args=args, n=n, kind=kind):
                c = [np.asarray(concretize(a, env), float) for a in args]
                ee = np.broadcast_to(c[2] if len(c) > 2 else 0.0, (n,))
                wt = np.where(ee > 0, 1 / np.where(ee > 0, ee, 1) ** 2, 1.0)
                A = np.stack([np.ones(n), c[0]], 1)
                N = A.T @ (wt[:, None] * A)
                if np.linalg.cond(N) > 1e6:
                    return False, {}
                sol = np.linalg.solve(N, A.T @ (wt * c[1]))
                V = np.linalg.inv(N)
                want = [sol[1], np.sqrt(V[1, 1]), sol[0], np.sqrt(V[0, 0]), np.sum(wt * (c[1] - A @ sol) ** 2)]
                g = run_real(linear_chi2, *c)
                return (not close(tuple(g), tuple(want), 1e-6, 1e-7)), {"inputs": c, "got": g, "expected": want}
            got = run_sym(linear_chi2, *args)
            nm = "n=%d/%s" % (n, kind)
            if len(got) != 5 or any(g.shape != () for g in got):
                ck.prove(nm + "/shape", FALSE, (), rep)
            b, be, a, ae, chi2 = (R(g) for g in got)
            asm = [tm.ne(x.a[0], x.a[1])] if n == 2 else [tm.bor(*[tm.ne(x.a[i], x.a[0]) for i in range(1, n)])]
            # normal matrix determinant is positive (Lagrange identity); split by the signs of the errors
            signs = [()]
            if kind == "array":
                signs = [tuple(tm.gt(v, ZERO) if (m >> i) & 1 else tm.le(v, ZERO) for i, v in enumerate(ev))
                         for m in (range(2 ** n) if n < 4 or not ck.quick else (15, 0, 5, 7))]
            elif kind == "scalar":
                signs = [(tm.gt(ev[0], ZERO),), (tm.le(ev[0], ZERO),)]
            for k, sg in enumerate(signs):
                pos = list(asm) + list(sg)
                sub = {tm.gt(v, ZERO): TRUE for v, s in zip(ev, sg) if s is tm.gt(v, ZERO)}
                sub.update({tm.gt(v, ZERO): FALSE for v, s in zip(ev, sg) if s is not tm.gt(v, ZERO)})
                f = lambda t: ck.resolve(t, list(sg))
                b_, be_, a_, ae_, c_, dets_, sw_, sxx_, swx_ = [f(t) for t in (b, be, a, ae, chi2, dets, sw, sxx, swx)]
                w_ = [f(t) for t in w]
                t = "%s/%d" % (nm, k)
                ck.prove(t + "/det", tm.eq(sw_ * sxx_ - swx_ * swx_, dets_), pos, rep)
                d = sw_ * sxx_ - swx_ * swx_
                want_b = tm.div(sw_ * sum((p * q * r for p, q, r in zip(w_, x.a, y.a)), ZERO) - swx_ * sum((p * q for p, q in zip(w_, y.a)), ZERO), d)
                want_a = tm.div(sxx_ * sum((p * q for p, q in zip(w_, y.a)), ZERO) - swx_ * sum((p * q * r for p, q, r in zip(w_, x.a, y.a)), ZERO), d)
                asm2 = pos + [tm.gt(d, ZERO)]
                ck.prove_eq(t + "/slope", [(b_, want_b)], asm2, rep)
                ck.prove_eq(t + "/intercept", [(a_, want_a)], asm2, rep)
                # the oracle solves the normal equations
                r = [y.a[i] - want_a - want_b * x.a[i] for i in range(n)]
                ck.prove(t + "/normal0", tm.eq(sum((p * q for p, q in zip(w_, r)), ZERO), ZERO), asm2, rep)
                ck.prove(t + "/normal1", tm.eq(sum((p * q * s for p, q, s in zip(w_, r, x.a)), ZERO), ZERO), asm2, rep)
                ck.prove_eq(t + "/chi2", [(c_, sum((p * q * q for p, q in zip(w_, r)), ZERO))], asm2, rep)
                ck.prove_eq(t + "/slope-error", [(be_ * be_, tm.div(sw_, d))], asm2, rep)
                ck.prove_eq(t + "/intercept-error", [(ae_ * ae_, tm.div(sxx_, d))], asm2, rep)
                if n <= 3:
                    ck.prove(t + "/positive-det", tm.gt(dets_, ZERO), pos, rep)
                if k == 0:
                    ck.prove(t + "/errors-nonnegative", tm.band(tm.ge(be_, ZERO), tm.ge(ae_, ZERO)), asm2, rep)
                    ck.reachable(t, asm2)
            for _ in range(2):
                env = ck.rand_env(tm.free_vars(flat_terms(args)))
                bad, det_ = rep(env)
                if bad:
                    ck.report(nm + "/validate", env, det_)
                    raise Stop()
                ck.validated += 1
