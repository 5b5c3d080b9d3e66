"""C09: marginal likelihoods equal the Gaussian with covariance C + M Lambda M^T."""

PROP = {
    "title": "Flux-marginalised likelihoods are exact Gaussian marginals",
    "statement": "Both negative log-likelihoods (diagonal noise and priors; full covariances with a prior mean) equal, up to the "
                 "constant (n/2) log 2 pi, minus the logarithm of the Gaussian density of the data with mean M mu and covariance "
                 "C + M Lambda M^T, i.e. 1/2 [r^T S^-1 r + log det S]. They agree with each other when the covariances are diagonal and the "
                 "prior mean is zero.",
    "over": ["inputs"],
    "text": "all data, design matrices, positive definite noise and prior covariances and prior means, for 2-3 data points (quick; thorough 4)",
    "why": "tests compare the two functions with each other on one random set, so a shared or rarely visible slip passes",
    "files": ["src/microjax/likelihood.py"],
    "mech": [("diagonal", "likelihood.nll_ulens"), ("general", "likelihood.nll_ulens_general")],
    "technique": "exact symbolic linear algebra of the traced code against the marginal covariance, nonlinear real arithmetic",
    "note": "n = 2, 3 data points (4 thorough for the diagonal form), two fluxes; LU modelled as an exact factorisation; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, mk
from .. import term as tm
from ..term import const
from ..linalg import *


def compare(ck, tag, got, S, r, pos, rep, hint=(), facts=()):
    """got = 1/2 (r^T S^-1 r + log det S)"""
    if facts:
        # pivots of the posterior precision matrix: recognised by value, proved equal, known to be positive
        names = {f: tm.var("fact%d" % k) for k, f in enumerate(facts)}
        back = {v: f for f, v in names.items()}
        got = ck.sweep(facts, [got], pos, roots_only=True, timeout=10, names=names)[0]
        got = ck.resolve(got, pos + [tm.gt(v, ZERO) for v in back])
        got = tm.subst([got], back)[0]
    else:
        got = ck.resolve(got, pos)
    ls = logsum(got)
    if ls is None:
        raise Inconclusive("logarithms are not additive in the result: " + tm.show(got, 4)[:600])
    rest, logs = ls
    dS = det(S)
    aS = adj(S)
    quad = sum((r[i] * aS[i][j] * r[j] for i in range(len(r)) for j in range(len(r))), ZERO)
    want = tm.scale(tm.div(quad, dS), F(1, 2))
    p = logprod(logs, F(1, 2))
    if p is None:
        ck.prove(tag + "/log-weights", FALSE, (), rep)
        return
    asm = list(pos) + [tm.gt(dS, ZERO)]
    p = ck.resolve(p, pos)
    ck.prove(tag + "/logdet", tm.eq(p, dS), asm, rep, sides=([p], [dS]), hint=hint)
    ck.prove(tag + "/quadratic-form", tm.eq(rest, want), asm, rep, sides=([rest], [want]), hint=hint)


def np_nll(S, r):
    s, ld = np.linalg.slogdet(S)
    return 0.5 * (r @ np.linalg.solve(S, r) + ld)


def run(ck):
    from microjax.likelihood import nll_ulens, nll_ulens_general
    ck.encodes("likelihood.nll_ulens", "likelihood.nll_ulens_general")
    ck.ranges.update({"s2*": (0.3, 2), "C_d*": (0.3, 2), "L_d*": (0.3, 2), "*": (-2, 2)})
    ck.bound("2-3 data points (4 thorough, diagonal form), 2 fluxes")
    ck.assume("covariances positive definite; LU/solve/slogdet of the library are exact factorisations; exact reals")

    for n in ((2, 3) if ck.quick else (2, 3, 4)):
        flux, M, s2 = sym_real("f", (n,)), sym_real("M", (n, 2)), sym_real("s2", (n,))
        vs, vb = sym_real("s2fs"), sym_real("s2fb")
        Ms = [[M.a[i, j] for j in range(2)] for i in range(n)]
        pos = [tm.gt(x, ZERO) for x in list(s2.a) + [R(vs), R(vb)]]
        Lam = [[R(vs), ZERO], [ZERO, R(vb)]]
        K = matmul(matmul(Ms, Lam), transpose(Ms))
        S = [[K[i][j] + (s2.a[i] if i == j else ZERO) for j in range(n)] for i in range(n)]

        def rep(env, n=n, flux=flux, M=M, s2=s2, vs=vs, vb=vb):
            f, m, s, a, b = (concretize(x, env) for x in (flux, M, s2, vs, vb))
            g = run_real(nll_ulens, f, m, s, a, b)
            w = np_nll(np.diag(s) + m @ np.diag([a, b]) @ m.T, f)
            return (not close(g, w, 1e-6, 1e-8)), {"flux": f, "M": m, "s2": s, "s2fs": a, "s2fb": b, "got": g, "expected": w}
        got = run_sym(nll_ulens, flux, M, s2, vs, vb)
        if got.shape != ():
            ck.prove("diag%d/shape" % n, FALSE, (), rep)
        compare(ck, "diag%d" % n, got.a[()], S, list(flux.a), pos, rep)
        ck.reachable("diag%d" % n, pos)
        for _ in range(2):
            env = ck.rand_env(tm.free_vars(flat_terms((flux, M, s2, vs, vb))))
            bad, d = rep(env)
            if bad:
                ck.report("diag%d/validate" % n, env, d)
                raise Stop()
            ck.validated += 1

    def full(n):
        # every input has this form: C = T D T^T (T unit lower triangular), M = T X, flux = T y
        y, X, mu = sym_real("y", (n,)), sym_real("X", (n, 2)), sym_real("mu", (2,))
        C, pc, _ = spd("C", n)
        T = [[ONE if i == j else (tm.var("C_l%d%d" % (i, j)) if j < i else ZERO) for j in range(n)] for i in range(n)]
        TX = matmul(T, [[X.a[i, j] for j in range(2)] for i in range(n)])
        flux = mk([x[0] for x in matmul(T, [[t] for t in y.a])], (n,), np.float64)
        M = mk([TX[i][j] for i in range(n) for j in range(2)], (n, 2), np.float64)
        L, pl, _ = spd("L", 2)
        Cm = mk([C[i][j] for i in range(n) for j in range(n)], (n, n), np.float64)
        Lm = mk([L[i][j] for i in range(2) for j in range(2)], (2, 2), np.float64)
        Ms = [[M.a[i, j] for j in range(2)] for i in range(n)]
        K = matmul(matmul(Ms, L), transpose(Ms))
        S = [[K[i][j] + C[i][j] for j in range(n)] for i in range(n)]

        def rep(env, n=n, flux=flux, M=M, Cm=Cm, mu=mu, Lm=Lm):
            f, m, c, u, l = (np.asarray(concretize(x, env)) for x in (flux, M, Cm, mu, Lm))
            g = run_real(nll_ulens_general, f, m, c, u, l)
            w = np_nll(c + m @ l @ m.T, f - m @ u)
            return (not close(g, w, 1e-6, 1e-8)), {"flux": f, "M": m, "C": c, "mu": u, "Lambda": l, "got": g, "expected": w}
        got = run_sym(nll_ulens_general, flux, M, Cm, mu, Lm)
        if got.shape != ():
            ck.prove("full%d/shape" % n, FALSE, (), rep)
        # the residual is atomic
        r = [flux.a[i] - Ms[i][0] * mu.a[0] - Ms[i][1] * mu.a[1] for i in range(n)]
        # posterior precision Lambda^-1 + X^T D^-1 X; positive pivots (a sum of a positive definite and squares)
        dL = det(L)
        Li = [[tm.div(x, dL) for x in row] for row in adj(L)]
        D = [tm.var("C_d%d" % i) for i in range(n)]
        A = [[Li[i][j] + sum((tm.div(X.a[k, i] * X.a[k, j], D[k]) for k in range(n)), ZERO) for j in range(2)] for i in range(2)]
        facts = [A[0][0], A[1][1] - tm.div(A[0][1] * A[1][0], A[0][0])]
        # positive pivots: A00 > 0 and det A > 0 (Cauchy-Binet: a sum of positive terms)
        minors = sum((tm.div(tm.powi(X.a[i, 0] * X.a[j, 1] - X.a[i, 1] * X.a[j, 0], 2), D[i] * D[j])
                      for i in range(n) for j in range(i)), ZERO)
        ux = [tm.div(tm.powi(X.a[k, 0] + tm.var("L_l10") * X.a[k, 1], 2) * tm.var("L_d0") + tm.powi(X.a[k, 1], 2) * tm.var("L_d1"), D[k])
              for k in range(n)]
        dA = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        cb = tm.div(ONE + sum(ux, ZERO) + minors * dL, dL)
        ck.prove_eq("full%d/lemma/cauchy-binet" % n, [(dA, cb)], pc + pl, rep)
        ck.prove("full%d/lemma/pivot0" % n, tm.gt(A[0][0], ZERO), pc + pl, rep)
        for k, x in enumerate(ux + [dL, minors]):
            ck.prove("full%d/lemma/term%d" % (n, k), tm.ge(x, ZERO), pc + pl, rep)
        compare(ck, "full%d" % n, got.a[()], S, r, pc + pl, rep, facts=facts)
        ck.reachable("full%d" % n, pc + pl)
        for _ in range(2):
            env = ck.rand_env(tm.free_vars(flat_terms((flux, M, Cm, mu, Lm))))
            bad, d = rep(env)
            if bad:
                ck.report("full%d/validate" % n, env, d)
                raise Stop()
            ck.validated += 1

    full(2)
    with ck.deeper("full covariance, 3 data points"):
        full(3)
