"""C06: derivatives of the polynomial roots are the implicit-function ones, whatever the iteration did."""

PROP = {
    "title": "Gradients of polynomial roots obey the implicit function theorem",
    "statement": "Differentiating the root finder gives, for every root z it returns and every perturbation dc of the coefficients, "
                 "the implicit-function derivative p'(z) dz = - sum dc_k z^(n-k), independently of the number of iterations and of the "
                 "starting guesses. It holds for every row of a batch, and rows do not influence each other's derivative.",
    "over": ["inputs"],
    "text": "all complex coefficients, perturbations and returned roots with p'(z) != 0; degrees 1-5 (thorough: 10); single, batched, custom-start calls",
    "why": "tests compare gradients at a few converged points against finite differences",
    "files": ["src/microjax/poly_solver.py"],
    "mech": [("implicit jvp", "poly_solver._poly_roots_EA_jvp"), ("derivative polynomial", "poly_solver._polyder_coeffs")],
    "technique": "iteration loop havocked (returns arbitrary numbers), forward-mode derivative of the real code",
    "note": "every outcome of the iteration loop; degrees up to 5 (10 thorough), batches of 2; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, mk
from .. import term as tm

RANGES = {"*": (-2, 2)}


def havoc(name):
    n = [0]

    def h(interp, e, st):
        out = []
        for s in st:
            s = symify(s)
            if s.dtype.kind == "c":
                n[0] += 1
                out.append(sym_cplx("%s%d" % (name, n[0]), s.shape))
            else:
                out.append(s)
        return out
    return h


def run_havoc(f, *args):
    it = Interp(hooks={"__while_bound__": havoc("h")}, while_bound=0)
    r = it.call(f, *args)
    CURRENT_note(f, it)
    return jax.tree_util.tree_map(symify, r, is_leaf=is_sym)


def CURRENT_note(f, it):
    from .. import check
    check.CURRENT.note_encoding(f, it)


def horner(cs, z):
    v = cs[0]
    for c in cs[1:]:
        v = v * z + c
    return v


def run(ck):
    from microjax.poly_solver import poly_roots, poly_roots_EA
    ck.encodes("poly_solver.poly_roots", "poly_solver._poly_roots_EA_jvp", "poly_solver._polyder_coeffs")
    ck.ranges.update(RANGES)
    ck.bound("degrees 1,2,3,5%s; single polynomial, batch of 2 (shape (2,n+1)) and (1,2,n+1); default and custom starts" % ("" if ck.quick else ",10"))
    ck.assume("the iteration loop may return any numbers; exact reals; p'(z) != 0")
    cases = [(1, (), False), (2, (), False), (3, (), False), (5, (), False), (2, (2,), False), (2, (1, 2), False), (2, (), True), (3, (2,), True)]
    if not ck.quick:
        cases += [(10, (), False), (5, (2,), True), (6, (2,), False)]
    for n, batch, custom in cases:
        tag = "deg%d%s%s" % (n, "b" + "x".join(map(str, batch)) if batch else "", "-custom" if custom else "")
        c, dc = sym_cplx("c", batch + (n + 1,)), sym_cplx("dc", batch + (n + 1,))
        r0, dr0 = sym_cplx("r0", batch + (n,)), sym_cplx("dr0", batch + (n,))
        if custom:
            g = lambda c, r: poly_roots(c, custom_init=True, roots_init=r)
            f = lambda c, dc, r, dr, g=g: jax.jvp(g, (c, r), (dc, dr))
            args = (c, dc, r0, dr0)
        else:
            f = lambda c, dc: jax.jvp(poly_roots, (c,), (dc,))
            args = (c, dc)
        z, dz = run_havoc(f, *args)

        def rep(env, f=f, args=args, n=n, batch=batch):
            env = dict(env)
            for v in tm.free_vars(flat_terms(args)):
                if abs(env.get(v.val, 9)) > 4:
                    env[v.val] = ck.rng.uniform(-2, 2)
            ca = concretize(args, env)
            zz, dd = run_real(f, *ca)
            if zz.shape != batch + (n,) or dd.shape != zz.shape:
                return True, {"shapes": [zz.shape, dd.shape]}
            cc, dcc = np.asarray(ca[0]).reshape(-1, n + 1), np.asarray(ca[1]).reshape(-1, n + 1)
            worst = 0.0
            for i, (zr, dr) in enumerate(zip(zz.reshape(-1, n), dd.reshape(-1, n))):
                for k in range(n):
                    p1 = np.polyval(np.polyder(cc[i]), zr[k])
                    dp = np.polyval(dcc[i], zr[k])
                    sc = abs(p1) * (1 + abs(dr[k])) + np.polyval(np.abs(dcc[i]), abs(zr[k])) + 1e-9
                    worst = max(worst, abs(p1 * dr[k] + dp) / sc)
            return bool(not worst < 1e-6), {"coeffs": cc, "dcoeffs": dcc, "roots": zz, "droots": dd, "residual": worst}
        if z.shape != batch + (n,) or dz.shape != z.shape:
            ck.prove(tag + "/shape", FALSE, (), rep)
        cf, df = c.a.reshape(-1, n + 1), dc.a.reshape(-1, n + 1)
        zf, dzf = z.a.reshape(-1, n), dz.a.reshape(-1, n)
        for i in range(len(cf)):
            for k in range(n):
                zz = zf[i, k]
                p1 = [Cx(tm.scale(x.re, n - j), tm.scale(x.im, n - j)) for j, x in enumerate(cf[i][:-1])]
                P1 = horner(p1, zz)
                # generalise the (cleaned) root to an arbitrary number where the encoding allows it
                lhs = P1 * dzf[i, k] + horner(list(df[i]), zz)
                asm = [tm.ne(P1.norm2(), ZERO)]
                gz = Cx(tm.var("g.re"), tm.var("g.im"))
                sub = {zz.re: gz.re, zz.im: gz.im} if zz.re.op not in ("const",) and zz.im.op not in ("const",) else {}
                goal = tm.band(tm.eq(lhs.re, ZERO), tm.eq(lhs.im, ZERO))
                goal2, *asm2 = tm.subst([goal] + asm, sub)
                ck.prove("%s/row%d/root%d" % (tag, i, k), goal2, asm2, rep)
        ck.reachable(tag, [tm.ne(c.a.reshape(-1)[0].norm2(), ZERO)])
        env = ck.rand_env(tm.free_vars(flat_terms(args)))
        bad, d = rep(env)
        if bad:
            ck.report(tag + "/validate", env, d)
            raise Stop()
        ck.validated += 1
