"""C03: point-source magnification = sum of 1/|det J| over the roots that satisfy the lens equation."""

PROP = {
    "title": "Point-source magnification sums 1/|det J| over exactly the true images",
    "statement": "For 1-3 lenses and a source given in the centre-of-mass frame of the first two lenses, the point-source "
                 "magnification is the sum, over the candidate image positions that satisfy the lens equation to the tolerance "
                 "(1e-6 for two lenses, 1e-3 for three), of 1/|det J|; candidates that fail it contribute nothing and none is counted "
                 "twice or dropped. Masses and positions follow from s, q, q3, r3, psi, and the result has the shape of the source array.",
    "over": ["inputs", "configurations"],
    "text": "all lens parameters, sources and candidate root sets (arbitrary complex numbers returned by the root finder); scalar and batched sources",
    "why": "tests only see root sets a converged solver returns at a few configurations",
    "files": ["src/microjax/point_source.py"],
    "mech": [("image filter", "point_source._images_point_source"), ("sum over images", "point_source.mag_point_source")],
    "technique": "root finder replaced by a stub returning arbitrary complex numbers; per-root equality",
    "note": "all real parameters and arbitrary candidate roots; source shapes (), (2,), (1,2); exact reals; candidates not on a lens, det J != 0",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm

RANGES = {"z*": (-1.7, 1.7), "s": (0.4, 2.2), "q": (0.05, 1.5), "q3": (0.05, 1.5), "r3": (0.2, 1.5), "psi": (-3, 3),
          "w*": (-1.5, 1.5), "y*": (-1.7, 1.7)}


def roots_stub(name="y"):
    from microjax.poly_solver import poly_roots

    def out(coeffs, *a, **k):
        return jax.ShapeDtypeStruct(coeffs.shape[:-1] + (coeffs.shape[-1] - 1,), np.complex128)
    return Stub(poly_roots, out, lambda c, *a, **k: sym_cplx(name, c.shape[:-1] + (c.shape[-1] - 1,)),
                static=("custom_init",))


def sqparams(nl):
    P = {"s": sym_real("s"), "q": sym_real("q")}
    s, q = R(P["s"]), R(P["q"])
    a = tm.scale(s, F(1, 2))
    tot = ONE + q
    L = []
    if nl == 3:
        for k in ("q3", "r3", "psi"):
            P[k] = sym_real(k)
        q3, r3, psi = (R(P[k]) for k in ("q3", "r3", "psi"))
        tot = tot + q3
        L = [(tm.div(q3, tot), Cx(tm.mul(r3, tm.fn("cos", psi)), tm.mul(r3, tm.fn("sin", psi))))]
    L = [(tm.div(q, tot), Cx(a, ZERO)), (tm.div(ONE, tot), Cx(-a, ZERO))] + L
    xcm = tm.div(a * (ONE - q), ONE + q)
    asm = [tm.gt(R(P["s"]), ZERO), tm.gt(q, ZERO)] + ([tm.gt(R(P["q3"]), ZERO)] if nl == 3 else [])
    return P, L, xcm, asm


def split(t, groups):
    """Additive parts of t by the variable group they mention; None when a part mentions two groups."""
    pairs, c = tm._lin_parts(t)
    parts = [tm.ZERO] * len(groups)
    rest = tm.const(c)
    cache = {}
    for b, k in pairs:
        fv = cache.setdefault(b, set(tm.free_vars([b])))
        hit = [i for i, g in enumerate(groups) if fv & g]
        if len(hit) > 1:
            return None
        x = tm.scale(b, k)
        if hit:
            parts[hit[0]] = parts[hit[0]] + x
        else:
            rest = rest + x
    return parts, rest


def run(ck):
    from microjax.point_source import mag_point_source
    ck.encodes("point_source.mag_point_source", "point_source._images_point_source", "point_source.lens_eq", "point_source.lens_eq_det_jac")
    ck.ranges.update(RANGES)
    ck.bound("1, 2 and 3 lenses; source shapes (), (2,), (1,2); 2/5/10 arbitrary candidate roots per source")
    ck.assume("poly_roots is replaced by a stub returning arbitrary complex numbers; exact reals; s, q, q3 > 0; "
              "candidates are not on a lens nor on the critical curve")
    # single lens
    for shape in ((), (2,)):
        w = sym_cplx("w", shape)
        f = lambda w: mag_point_source(w, nlenses=1)
        got = run_sym(f, w)
        want = mk([tm.div(e.norm2() + 2, tm.sqrt(tm.mul(e.norm2(), e.norm2() + 4))) for e in w.a.reshape(-1)], shape, np.float64)
        asm = [tm.gt(e.norm2(), ZERO) for e in w.a.reshape(-1)]
        ck.validate("n1", f, (w,), got, assume=asm, want=want)
        rep = ck.equal_replay(f, (w,), want)
        if got.shape != shape:
            ck.prove("n1/shape", FALSE, (), rep)
        for k, e in enumerate(w.a.reshape(-1)):
            # change of variables u^2 = 4/(S^2-1): every w off the lens arises from S > 1 and two signs of Im w
            S, x = tm.var("S"), e.re
            U = tm.div(const(4), S * S - 1)
            asm = [tm.gt(S, ONE), tm.ge(U, x * x)]
            for sg in (1, -1):
                root = tm.scale(tm.sqrt(U - x * x), sg)

                def rep_(env, k=k, sg=sg, e=e):
                    u2 = 4 / (env["S"] ** 2 - 1)
                    v = x.val
                    env = dict(env)
                    xx = env.get(v, 0.0)
                    if "S" in env and u2 >= xx * xx:
                        env[e.im.val] = sg * math.sqrt(u2 - xx * xx)
                    return rep(env)
                g, h = tm.subst([got.a.reshape(-1)[k], want.a.reshape(-1)[k]], {e.im: root})
                g = ck.resolve(g, asm)
                h = tm.subst([h], {})[0]
                # closed form in S
                h2 = tm.div(S + tm.div(ONE, S), const(2))
                ck.prove("n1%s[%d]%+d" % ("v" if shape else "", k, sg), tm.eq(g, h2), asm, rep_)
    SS = tm.var("S")
    u2 = tm.div(const(4), SS * SS - 1)
    ck.prove("n1/closed-form", tm.eq(tm.powi(tm.div(SS + tm.div(ONE, SS), const(2)), 2),
                                    tm.div(tm.powi(u2 + 2, 2), tm.mul(u2, u2 + 4))), [tm.gt(SS, ONE)], lambda env: (False, {}))
    for nl, tol in ((2, F(1, 10 ** 6)), (3, F(1, 1000))):
        P, L, xcm, asm0 = sqparams(nl)
        n = nl * nl + 1
        for shape in ((), (2,), (1, 2)):
            w = sym_cplx("w", shape)
            st = roots_stub()
            f = lambda w, P, nl=nl: mag_point_source(w, nlenses=nl, **P)
            got = run_sym(f, w, P, stubs=[st])
            tag = "n%d%s" % (nl, "x".join(map(str, ("",) + shape)))
            if got.shape != shape:
                ck.prove(tag + "/shape", FALSE, (), lambda env: (True, {"shape": got.shape}))
            y = sym_cplx("y", shape + (n,))
            args = (w, P)
            # what the code adds to the roots is found from the images it returns (C02 pins it down)
            from microjax.point_source import _images_point_source
            els = list(w.a.reshape(-1))
            ys = y.a.reshape(len(els), n)
            if nl == 2:
                sh = Cx(ZERO, ZERO)
            else:
                sh = Cx(ZERO, ZERO)
                for m, p in L:
                    sh = sh + Cx(m, ZERO) * p
            want, full = [], []
            for e, yr in zip(els, ys):
                tot = []
                for x in yr:
                    z = x + sh
                    res = (lens_map(z, L) - (e - Cx(xcm, ZERO)))
                    hit = tm.lt(res.norm2(), tm.const(tol * tol))
                    tot.append((z, hit, tm.tabs(ONE - kappa(z, L).norm2())))
                want.append(tot)
            wsum = mk([sum((tm.ite(h, tm.div(ONE, d), ZERO) for z, h, d in t), ZERO) for t in want], shape, np.float64)

            def replay_factory(nm):
                def real_stubs(env):
                    ya = concretize(y, env)
                    s = roots_stub()
                    s.conc = lambda c, *a, **k: ya
                    return [s]

                def rep(env):
                    cargs = concretize(args, env)
                    ww = concretize(wsum, env)
                    r = run_real(f, *cargs, stubs=real_stubs(env))
                    return (not close(r, ww, 1e-5, 1e-8)), {"inputs": jsonable(cargs), "roots": jsonable(concretize(y, env)),
                                                          "got": jsonable(r), "expected": jsonable(ww)}
                return rep, real_stubs
            rep, real_stubs = replay_factory(tag)
            groups = [[set(tm.free_vars([x.re, x.im])) for x in yr] for yr in ys]
            for i, e in enumerate(got.a.reshape(-1)):
                e0 = els[i]
                sp = split(e, groups[i])
                if sp is None or (sp[1] is not ZERO):
                    asm = asm0 + [tm.gt(d, ZERO) for _, _, d in want[i]] + [c for z, _, _ in want[i] for c in off_lens(z, L)]
                    ck.prove("%s[%d]" % (tag, i), tm.eq(e, wsum.a.reshape(-1)[i]), asm, rep)
                    continue
                for k in range(n):
                    z, h, d = want[i][k]
                    asm = asm0 + off_lens(z, L) + [tm.gt(d, ZERO)]
                    goal = tm.eq(sp[0][k], tm.ite(h, tm.div(ONE, d), ZERO))
                    ck.prove("%s[%d]/root%d" % (tag, i, k), goal, asm, rep, hint=(e0.re, e0.im))
                    if i == 0 and k == 0:
                        ck.reachable(tag, asm + [tm.bnot(h)])
            if not shape:
                ck.validate(tag, f, args, got, stubs=[st], real_stubs=real_stubs, want=wsum)
                # inputs for which the first candidate is a true image: the source is the image of the candidate
                for t in range(2):
                    env = ck.rand_env(tm.free_vars(flat_terms(args) + flat_terms(y)))
                    z0 = want[0][0][0]
                    we = lens_map(z0, L) + Cx(xcm, ZERO)
                    env["w.re"], env["w.im"] = [float(v) for v in tm.feval([we.re, we.im], env)]
                    bad, d = rep(env)
                    if bad:
                        ck.report(tag + "/image", env, d)
                        raise Stop()
                    r = run_real(f, *concretize(args, env), stubs=real_stubs(env))
                    assert float(r) > 0 and close(r, concretize(got, env)), (r, concretize(got, env))
                    ck.validated += 1
