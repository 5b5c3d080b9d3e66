"""C17: line integrals around image contours."""

PROP = {
    "title": "Contour integrals are the exact area and brightness of the contour polygon",
    "statement": "For a contour stored with trailing zeros, the uniform integral is the signed (counter-clockwise positive) area of the polygon "
                 "through the points up to tail_idx and the padding contributes nothing. The limb-darkened integral is the trapezoidal sum "
                 "around the same points of half the brightness-weighted line integrals from the mean point to each vertex, each exact for "
                 "polynomial brightness, so with u1 = 0 it is the same area. The brightness is 3/(3-u1) (1 - u1 (1 - sqrt(1 - r^2))) at the mapped "
                 "source radius r inside the disc and its continuous continuation 3/(3-u1) (1 - u1 - u1 sqrt(1 - 1/r^2)) outside.",
    "over": ["inputs"],
    "text": "all contours of up to 6 points, every tail index, all source radii, limb-darkening coefficients and quadratic brightness fields",
    "why": "tests compare magnifications at 1e-3; padding, tail and split-point errors are small or appear only for some contour lengths",
    "files": ["src/microjax/caustics/integrate.py", "src/microjax/utils.py"],
    "mech": [("uniform", "caustics.integrate._integrate_unif"), ("limb darkened", "caustics.integrate._integrate_ld"),
             ("quadrature", "caustics.integrate._integrate_gauss_legendre"), ("profile", "caustics.integrate._brightness_profile"),
             ("trapezoid", "utils.trapz_zero_avoiding")],
    "technique": "symbolic execution; quadrature rounding bounded by linear arithmetic over generalised monomials",
    "note": "contours of 3-5 slots (6 thorough), quadrature of 4-6 nodes (up to 12 thorough), brightness generalised to any quadratic; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk, objarr
from .. import term as tm

TOL = F(1, 10 ** 9)


def run(ck):
    from microjax.caustics import integrate as ig
    from microjax.utils import trapz_zero_avoiding
    ck.encodes("caustics.integrate._integrate_unif", "caustics.integrate._integrate_ld", "caustics.integrate._integrate_gauss_legendre",
               "caustics.integrate._brightness_profile", "utils.trapz_zero_avoiding")
    ck.ranges.update({"rho": (0.05, 1.5), "u1": (0.0, 0.9), "a": (0.3, 0.9), "e1": (0.1, 0.6), "*": (-1.5, 1.5)})
    ck.bound("contours of %s slots, every tail index; quadrature nodes %s" % (("3-5", "4, 6") if ck.quick else ("3-6", "2-12")))
    ck.assume("limb-darkened quadrature: coordinates, split points and brightness coefficients within [-2, 2], rounding tolerance 1e-9")
    ck.outside.append("integration error of the quadrature for brightness that is not polynomial of the covered degree")
    trapz(ck, trapz_zero_avoiding)
    uniform(ck, ig._integrate_unif)
    gauss(ck, ig._integrate_gauss_legendre)
    darkened(ck, ig)
    profile(ck, ig._brightness_profile)


def padded(v, t, n):
    z = v.dtype == np.complex128
    return mk([v.a[i] if i <= t else (Cx(ZERO, ZERO) if z else ZERO) for i in range(n)], (n,), v.dtype)


def trapz(ck, f):
    for n in (2, 3, 4) if ck.quick else (2, 3, 4, 5, 6):
        y, x = sym_real("y", (n,)), sym_real("x", (n,))
        for t in range(n):
            xs = padded(x, t, n)
            want = ZERO
            for k in range(t):
                want = want + tm.scale((y.a[k] + y.a[k + 1]) * (x.a[k + 1] - x.a[k]), F(1, 2))
            got = run_sym(lambda y, x, t=t: f(y, x, t), y, xs)
            ck.prove_equal("trapz n=%d tail=%d" % (n, t), got, scal(want), (y, xs), lambda y, x, t=t: f(y, x, t))


def uniform(ck, f):
    for n in (3, 4, 5) if ck.quick else (3, 4, 5, 6):
        z = sym_cplx("z", (n,))
        for t in range(1, n):
            # closed: the last point repeats the first
            pts = [z.a[k] for k in range(t)] + [z.a[0]]
            zs = mk(pts + [Cx(ZERO, ZERO)] * (n - t - 1), (n,), np.complex128)
            area = ZERO
            for k in range(t):
                p, q = pts[k], pts[k + 1]
                area = area + tm.scale(p.re * q.im - q.re * p.im, F(1, 2))
            g = lambda z, t=t: f(z, t)
            ck.prove_equal("uniform n=%d tail=%d" % (n, t), run_sym(g, zs), scal(area), (zs,), g)
        # tail index as data, batched over contours
        zz = sym_cplx("z", (2, n))
        tails = np.array([1, n - 1])
        rows, area = [], []
        for j, t in enumerate(tails):
            pts = [zz.a[j, k] for k in range(t)] + [zz.a[j, 0]]
            rows += pts + [Cx(ZERO, ZERO)] * (n - t - 1)
            s = ZERO
            for k in range(t):
                s = s + tm.scale(pts[k].re * pts[k + 1].im - pts[k + 1].re * pts[k].im, F(1, 2))
            area.append(s)
        zs = mk(rows, (2, n), np.complex128)
        g = lambda z: jax.vmap(f)(z, jnp.asarray(tails))
        ck.prove_equal("uniform batch n=%d" % n, run_sym(g, zs), mk(area, (2,), np.float64), (zs,), g)


def gauss(ck, f):
    for n in (2, 3) if ck.quick else (2, 3, 4, 6):
        deg = 2 * n - 1
        a, b = sym_real("a", (2,)), sym_real("b", (2,))
        c = sym_real("c", (deg + 1,))
        call = lambda a, b, c, n=n, deg=deg: f(lambda x: sum(c[k] * x ** k for k in range(deg + 1)), a, b, n=n)
        want = []
        for j in range(2):
            s = ZERO
            for k in range(deg + 1):
                s = s + tm.scale(c.a[k] * (tm.powi(b.a[j], k + 1) - tm.powi(a.a[j], k + 1)), F(1, k + 1))
            want.append(s)
        got = run_sym(call, a, b, c)
        rep = ck.equal_replay(call, (a, b, c), mk(want, (2,), np.float64))
        ck.prove_near("gauss-legendre n=%d" % n, list(zip(got.a, want)), F(3, 2), F(1, 10 ** 7), rep)
        ck.validate("gauss-legendre n=%d" % n, call, (a, b, c), got)


def darkened(ck, ig):
    P, lenses = lens_params(2)
    c = sym_real("c", (6,))

    def field(x, y, c, num=False):
        m = [1.0 if num else ONE, x, y, x * x, x * y, y * y]
        return sum((ci * mi for ci, mi in zip(c, m)), 0.0 if num else ZERO)
    box = {}
    st = Stub(ig._brightness_profile, lambda z, *a, **k: jax.ShapeDtypeStruct(jnp.shape(z), np.float64),
              lambda z, *a, **k: mk([field(v.re, v.im, box["c"]) for v in symify(z).a.reshape(-1)], z.shape, np.float64),
              lambda z, *a, **k: field(np.real(z), np.imag(z), box["c"], True), static=("nlenses",))

    # exact antiderivatives in y from y0 (at fixed x) and in x from x0 (at fixed y)
    def iy(x, y0, y, c, num=False):
        D = lambda k: (y ** k - y0 ** k) / k if num else tm.scale(tm.powi(y, k) - tm.powi(y0, k), F(1, k))
        return c[0] * D(1) + c[1] * x * D(1) + c[2] * D(2) + c[3] * x * x * D(1) + c[4] * x * D(2) + c[5] * D(3)

    def ix(x0, x, y, c, num=False):
        D = lambda k: (x ** k - x0 ** k) / k if num else tm.scale(tm.powi(x, k) - tm.powi(x0, k), F(1, k))
        return c[0] * D(1) + c[1] * D(2) + c[2] * y * D(1) + c[3] * D(3) + c[4] * y * D(2) + c[5] * y * y * D(1)

    def total(xs, ys, c, num=False):
        n = len(xs)
        if num:
            x0, y0, half, acc = np.mean(xs), np.mean(ys), (lambda v: v / 2), 0.0
        else:
            x0, y0, half, acc = tm.scale(sum(xs, ZERO), F(1, n)), tm.scale(sum(ys, ZERO), F(1, n)), (lambda v: tm.scale(v, F(1, 2))), ZERO
        p = [-half(iy(x, y0, y, c, num)) for x, y in zip(xs, ys)]
        q = [half(ix(x0, x, y, c, num)) for x, y in zip(xs, ys)]
        for k in range(n - 1):
            acc = acc + half((p[k] + p[k + 1]) * (xs[k + 1] - xs[k])) + half((q[k] + q[k + 1]) * (ys[k + 1] - ys[k]))
        return acc
    w0, rho, u1 = sym_cplx("w0"), sym_real("rho"), sym_real("u1")
    for n, npts in ((2, 4), (3, 4), (3, 6), (4, 4)) if ck.quick else ((2, 4), (2, 12), (3, 4), (3, 5), (3, 6), (4, 4), (4, 6)):
        z = sym_cplx("z", (n,))
        for t in range(1, n):
            zs = padded(z, t, n)
            call = lambda z, w0, rho, u1, P, t=t, npts=npts: ig._integrate_ld(z, t, w0, rho, u1=u1, nlenses=2, npts=npts, **P)
            box["c"] = list(c.a)
            got = run_sym(call, zs, w0, rho, u1, P, stubs=[st])
            want = total([v.re for v in zs.a[:t + 1]], [v.im for v in zs.a[:t + 1]], list(c.a))

            def rep(env, zs=zs, call=call, t=t):
                fv = tm.free_vars(flat_terms((zs, w0, rho, u1, P, c)))
                for e in [dict(ck.rand_env(fv), **env)] + [dict(ck.rand_env(fv)) for _ in range(12)]:
                    k = [concretize(v, e) for v in (zs, w0, rho, u1, P)]
                    box["c"] = [float(x) for x in np.asarray(concretize(c, e))]
                    with patched([st], "conc"):
                        g = float(call(*k))
                    w = total(list(np.real(k[0])[:t + 1]), list(np.imag(k[0])[:t + 1]), box["c"], True)
                    if abs(g - w) > 1e-7 * (1 + abs(w)):
                        return True, {"z": k[0], "tail": t, "c": box["c"], "rho": k[2], "got": g, "expected": w}
                return False, {}
            ck.prove_near("limb-darkened n=%d tail=%d npts=%d" % (n, t, npts), [(got.a[()], want)], 2, TOL, rep)
        bad, d = rep({})
        if bad:
            ck.report("validate", {}, d)
            raise Stop()
        ck.validated += 13
    # u1 = 0 with the real brightness: the polygon area
    for n in (3, 4):
        z = sym_cplx("z", (n,))
        pts = [z.a[k] for k in range(n - 1)] + [z.a[0]]
        zs = mk(pts, (n,), np.complex128)
        area = ZERO
        for k in range(n - 1):
            area = area + tm.scale(pts[k].re * pts[k + 1].im - pts[k + 1].re * pts[k].im, F(1, 2))
        call = lambda z, w0, rho, P, n=n: ig._integrate_ld(z, n - 1, w0, rho, u1=0.0, nlenses=2, npts=4, **P)
        got = run_sym(call, zs, w0, rho, P)
        ck.prove_near("limb-darkened u1=0 n=%d" % n, [(got.a[()], area)], 2, TOL, ck.equal_replay(call, (zs, w0, rho, P), scal(area)))


def profile(ck, f):
    for nl in (1, 2, 3):
        P, lenses = lens_params(nl)
        z, w0, rho, u1 = sym_cplx("z"), sym_cplx("w0"), sym_real("rho"), sym_real("u1")
        call = lambda z, rho, w0, u1, P, nl=nl: f(z, rho, w0, u1=u1, nlenses=nl, **P)
        wz = lens_map(z.a[()], lenses)
        cuts = {wz.re: tm.var("wz.re"), wz.im: tm.var("wz.im")}      # the mapped point, generalised once proved equal to the code's
        d = Cx(cuts[wz.re], cuts[wz.im]) - w0.a[()]
        back = {v: t for t, v in cuts.items()}
        r2 = tm.div(d.norm2(), R(rho) * R(rho))
        u = R(u1)
        n0 = tm.div(tm.const(3), tm.const(3) - u)
        it = Interp(cuts=dict(cuts), cut_envs=[ck.rand_env(tm.free_vars(list(cuts))) for _ in range(2)])
        got = run_sym(call, z, rho, w0, u1, P, interp=it)
        if not set(back) <= set(tm.free_vars(flat_terms(got))):
            d = Cx(*tm.subst([d.re, d.im], back))
            r2 = tm.div(d.norm2(), R(rho) * R(rho))
            got = run_sym(call, z, rho, w0, u1, P)
        full = scal(tm.subst([got.a[()]], back)[0])
        asm = [tm.gt(R(rho), ZERO), tm.ge(u, ZERO), tm.lt(u, tm.const(3))]
        for tag, cond, want in (("inside", tm.le(r2, ONE), n0 * (ONE - u + u * tm.sqrt(ONE - r2))),
                                ("outside", tm.gt(r2, ONE), n0 * (ONE - u - u * tm.sqrt(ONE - tm.div(ONE, r2))))):
            def rep(env, tag=tag):
                """the solver's point and random points, some of them moved inside the disc"""
                fv = tm.free_vars(flat_terms((z, rho, w0, u1, P)))
                for e in [dict(ck.rand_env(fv), **{k: v for k, v in env.items()})] + [dict(ck.rand_env(fv)) for _ in range(20)]:
                    k = [concretize(v, e) for v in (z, rho, w0, u1, P)]
                    p = {n: float(v) for n, v in k[4].items()}
                    L = {1: [(1, 0)], 2: [(p.get("e1"), p.get("a")), (1 - p.get("e1", 0), -p.get("a", 0))],
                         3: [(p.get("e1"), p.get("a")), (p.get("e2"), -p.get("a", 0)),
                             (1 - p.get("e1", 0) - p.get("e2", 0), p.get("r3", 0) * np.exp(1j * p.get("psi", 0)))]}[nl]
                    wz_ = k[0] - sum(m / np.conj(k[0] - q) for m, q in L)
                    for c in (k[2], wz_ + 0.3 * float(k[1]) * np.exp(1j)):
                        r = abs(wz_ - c) / float(k[1])
                        u_ = float(k[3])
                        exp = 3 / (3 - u_) * (1 - u_ + u_ * np.sqrt(1 - r * r)) if r <= 1 else 3 / (3 - u_) * (1 - u_ - u_ * np.sqrt(1 - 1 / r / r))
                        g = float(run_real(call, k[0], k[1], c, k[3], k[4]))
                        if abs(r - 1) > 1e-4 and np.isfinite(exp) and u_ < 2.9 and abs(g - exp) > 1e-6 * (1 + abs(exp)):
                            return True, {"z": k[0], "rho": k[1], "w0": c, "u1": u_, "P": p, "got": g, "expected": exp}
                return False, {}
            ck.prove("profile %d-lens %s" % (nl, tag), tm.eq(got.a[()], want), asm + [cond], rep, sides=([got.a[()]], [want]))
        ck.validate("profile %d-lens" % nl, call, (z, rho, w0, u1, P), full)
