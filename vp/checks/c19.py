"""C19: boundary helpers of the inverse-ray integrator."""

PROP = {
    "title": "Ray distances, edge weights and limb-darkening profile are exact",
    "statement": "distance_from_source gives |lens map of r e^(i theta) - w| in the shifted frame for every radius, angle, source and 2- or 3-lens "
                 "configuration. in_source and step_smooth are exact 0/1 steps; the edge weight integrates a square-root profile up to half a "
                 "cell past the node (linear rule below delta_c). cubic_interp is the Lagrange cubic: it passes through its nodes and reproduces "
                 "every cubic. The limb-darkening profile is 3(1-u1(1-mu))/(pi(3-u1)) inside the disc, 0 outside, unit flux. The derivative "
                 "rules are the exact derivatives of the documented smooth surrogates.",
    "over": ["inputs"],
    "text": "all radii, angles, source positions, lens parameters, distances, profiles and nodes",
    "why": "these helpers are only sampled through end-to-end magnifications, where a wrong weight or frame costs less than the test tolerance",
    "files": ["src/microjax/inverse_ray/boundary.py", "src/microjax/inverse_ray/limb_darkening.py", "src/microjax/inverse_ray/extended_source.py"],
    "mech": [("distance", "inverse_ray.boundary.distance_from_source"), ("adaptive", "inverse_ray.boundary.distance_from_source_adaptive"),
             ("steps", "inverse_ray.boundary.in_source"), ("edge weight", "inverse_ray.boundary.calc_facB"),
             ("edge position", "inverse_ray.extended_source.cubic_interp"), ("profile", "inverse_ray.limb_darkening.Is_limb_1st")],
    "technique": "nonlinear real arithmetic over the traced code",
    "note": "2 angles; cubic_interp with its guard at 0 and distinct nodes; profile derivative where 1-d^2 > 1e-3; exact reals. in_source and "
            "Is_limb_1st return a smoothed value under differentiation by design; that is not claimed to equal the plain value",
}

import jax
import jax.numpy as jnp

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm

H = tm.const(F(1, 2))


def run(ck):
    from microjax.inverse_ray import boundary as bd, extended_source as es, limb_darkening as li
    ck.encodes("inverse_ray.boundary.distance_from_source", "inverse_ray.boundary.distance_from_source_adaptive", "inverse_ray.boundary.in_source",
               "inverse_ray.boundary.step_smooth", "inverse_ray.boundary.calc_facB", "inverse_ray.extended_source.cubic_interp",
               "inverse_ray.limb_darkening.Is_limb_1st", "point_source.lens_eq")
    ck.ranges.update({"r": (0.3, 2), "th*": (-3, 6), "e1": (0.1, 0.6), "e2": (0.1, 0.3), "a": (0.2, 1), "r3": (0.3, 1), "psi": (0, 6), "rho": (0.1, 1),
                      "d": (0.01, 1.2), "u1": (0.05, 0.9), "db": (0.01, 1), "dc": (0.005, 0.6), "fac": (20, 120), "*": (-1, 1)})
    ck.bound("2 angles per call; otherwise all reals")
    ck.assume("rays off the lenses; exact reals")

    # --- distances
    r, th, w, sh = sym_real("r"), sym_real("th", (2,)), sym_cplx("w"), sym_real("sh")
    u, t0, t1 = sym_real("u", (2,)), sym_real("th0"), sym_real("th1")
    for nl in (2, 3):
        P, lens = lens_params(nl)
        nm = list(P)

        def dist(ang):
            v, pre = [], []
            for x in ang:
                z = Cx(R(r) * tm.fn("cos", x) - R(sh), R(r) * tm.fn("sin", x))
                v.append(tm.sqrt((lens_map(z, lens) - w.a[()]).norm2()))
                pre += off_lens(z, lens)
            return mk(v, (2,), np.float64), pre
        f = lambda r, th, w, sh, *p: bd.distance_from_source(r, th, w, sh, nlenses=nl, **dict(zip(nm, p)))
        args = (r, th, w, sh) + tuple(P.values())
        want, pre = dist([th.a[i] for i in range(2)])
        got = run_sym(f, *args)
        ck.prove_equal("distance/%d-lens" % nl, got, want, args, f, assume=pre, rtol=1e-6, atol=1e-7)
        ck.validate("distance/%d-lens" % nl, f, args, got, assume=pre, want=want)
        g = lambda r, u, t0, t1, w, sh, *p: bd.distance_from_source_adaptive(r, u, t0, t1, w, sh, nlenses=nl, **dict(zip(nm, p)))
        args = (r, u, t0, t1, w, sh) + tuple(P.values())
        want, pre = dist([R(t0) + (R(t1) - R(t0)) * u.a[i] for i in range(2)])
        got = run_sym(g, *args)
        ck.prove_equal("distance-adaptive/%d-lens" % nl, got, want, args, g, assume=pre, rtol=1e-6, atol=1e-7)

    # --- steps
    d, rho = sym_real("d"), sym_real("rho")
    ins = lambda d, rho: bd.in_source(d, rho)
    ck.prove_equal("in_source", run_sym(ins, d, rho), scal(tm.ite(tm.lt(R(d), R(rho)), ONE, ZERO)), (d, rho), ins)
    x, fac = sym_real("x"), sym_real("fac")
    stp = lambda x, fac: bd.step_smooth(x, fac)
    ck.prove_equal("step_smooth", run_sym(stp, x, fac), scal(tm.ite(tm.gt(R(x), ZERO), ONE, ZERO)), (x, fac), stp)
    rp = [tm.gt(R(rho), ZERO)]
    dx, dy = sym_real("dx"), sym_real("dy")

    def tangents(name, f, ref, args, assume=()):
        """tangent of f = derivative of the reference"""
        j = lambda f: (lambda a, b, da, db: jax.jvp(f, (a, b), (da, db))[1])
        got = run_sym(j(f), *args, dx, dy)
        want = run_sym(j(ref), *args, dx, dy)
        ck.prove_equal(name, got, want, args + (dx, dy), j(f), assume=assume)
    tangents("step_smooth/derivative", stp, lambda x, fac: jax.nn.sigmoid(x * fac), (x, fac))
    tangents("in_source/derivative", ins, lambda d, rho: jax.nn.sigmoid(100.0 * (rho - d) / rho), (d, rho), rp)

    # --- edge weight
    db, dc = sym_real("db"), sym_real("dc")
    fb = lambda b, c: bd.calc_facB(b, c)
    got = R(run_sym(fb, db, dc))
    pos = [tm.gt(R(db), ZERO), tm.ge(R(dc), ZERO)]

    def frep(env):
        for e in [env] + [ck.rand_env([R(db), R(dc)]) for _ in range(40)]:
            b, c = float(e["db"]), float(e["dc"])
            if b <= 0 or c < 0:
                continue
            v = float(bd.calc_facB(b, c))
            want = (b + .5) ** 1.5 * 2 / 3 / math.sqrt(b) if b > c else 2 * b / 3 + .5
            if abs(v - want) > 1e-9 * (1 + want):
                return True, {"delta_B": b, "delta_c": c, "got": v, "expected": want}
        return False, {}
    big = tm.gt(R(db), R(dc))
    ck.prove("facB/edge-cell", tm.eq(got * got * R(db), tm.powi(R(db) + H, 3) * tm.const(F(4, 9))), pos + [big], frep)
    ck.prove("facB/positive", tm.gt(got, ZERO), pos, frep)
    ck.prove("facB/near-edge", tm.eq(got, R(db) * tm.const(F(2, 3)) + H), pos + [tm.bnot(big)], frep)
    ck.reachable("facB", pos + [big])
    bad, dd = frep(dict(db=.3, dc=.01))
    if bad:
        ck.report("facB/validate", {}, dd)
        raise Stop()
    ck.validated += 41
    tangents("facB/derivative", fb, lambda b, c: 2.0 / 3.0 * b + 0.0 * c, (db, dc), pos)

    # --- cubic interpolation
    xs, ys = [sym_real("x%d" % i) for i in range(4)], [sym_real("y%d" % i) for i in range(4)]
    ci = lambda x, *p: es.cubic_interp(x, *p, epsilon=0.0)
    got = R(run_sym(ci, x, *xs, *ys))
    distinct = [tm.ne(R(xs[i]), R(xs[j])) for i in range(4) for j in range(i)]
    # scale and offset of the rescaled abscissa are arbitrary: generalise the min and max
    X = R(x)
    want = ZERO
    for i in range(4):
        t = R(ys[i])
        for j in range(4):
            if j != i:
                t = t * (X - R(xs[j])) / (R(xs[i]) - R(xs[j]))
        want = want + t
    crep = ck.equal_replay(ci, (x, *xs, *ys), scal(want), (), 1e-6, 1e-8)

    def crep_(env):
        fv = [X] + [R(v) for v in xs + ys]
        for e in [env] + [ck.rand_env(fv) for _ in range(30)]:
            p = sorted(float(e[R(v).val]) for v in xs)
            if min(p[i + 1] - p[i] for i in range(3)) < 0.02:
                continue
            b, dd = crep({**{v.val: 0.1 for v in fv}, **e})
            if b:
                return b, dd
        return False, {}
    order = [tm.lt(R(xs[i]), R(xs[i + 1])) for i in range(3)]
    import itertools
    perms = list(itertools.permutations(range(4)))
    for p in perms if not ck.quick else perms[::3]:
        o = [tm.lt(R(xs[p[i]]), R(xs[p[i + 1]])) for i in range(3)]
        g2 = ck.resolve(got, o)
        ck.prove("cubic/lagrange %s" % "".join(map(str, p)), tm.eq(g2, want), o, crep_, sides=([g2], [want]))
    ck.reachable("cubic", order)
    ck.validate("cubic", ci, (x, *xs, *ys), scal(got), assume=order + [tm.gt(R(xs[i + 1]) - R(xs[i]), tm.const(F(1, 20))) for i in range(3)], want=scal(want))

    # --- profile
    u1 = sym_real("u1")
    pf = lambda d, u: li.Is_limb_1st(d, u)
    got = R(run_sym(pf, d, u1))
    D, U = R(d), R(u1)
    unit = [tm.ge(D, ZERO), tm.lt(D, ONE), tm.ge(U, ZERO), tm.le(U, ONE)]
    mu = tm.sqrt(ONE - D * D)
    want = (ONE - U * (ONE - mu)) * tm.const(3) / (tm.PI * (tm.const(3) - U))
    ck.prove_equal("profile/inside", scal(got), scal(want), (d, u1), pf, assume=unit)
    ck.prove_equal("profile/outside", scal(got), scal(ZERO), (d, u1), pf, assume=[tm.ge(D, ONE), tm.ge(U, ZERO), tm.le(U, ONE)])
    # flux: the profile at d = sqrt(1-mu^2) is A + B mu and pi (A + 2 B/3) = 1
    at = lambda m: tm.subst([got], {D: tm.sqrt(ONE - m * m)})[0]
    M = tm.var("mu")
    A, B = at(tm.const(F(3, 5))), at(tm.const(F(4, 5)))
    B_ = (B - A) * tm.const(5)
    A_ = A - B_ * tm.const(F(3, 5))

    def prep(env):
        for u in [float(env.get("u1", .3)), 0.0, .2, .5, .9, 1.0]:
            if not 0 <= u <= 1:
                continue
            m = (np.arange(20000) + .5) / 20000
            v = np.asarray(li.Is_limb_1st(jnp.sqrt(1 - m ** 2), u))
            flux = float(np.mean(v * 2 * np.pi * m))
            if abs(flux - 1) > 1e-6:
                return True, {"u1": u, "flux": flux}
        return False, {}
    us = [tm.ge(U, ZERO), tm.le(U, ONE)]
    ck.prove("profile/linear-in-mu", tm.eq(at(M), A_ + B_ * M), us + [tm.gt(M, ZERO), tm.le(M, ONE)], prep)
    ck.prove("profile/unit-flux", tm.eq(tm.PI * (A_ + B_ * tm.const(F(2, 3))), ONE), us, prep)
    ref = lambda d, u: 3.0 / (jnp.pi * (3.0 - u)) * (1.0 - u * (1.0 - jnp.sqrt(1.0 - d * d))) * jax.nn.sigmoid(100.0 * (1.0 - d))
    tangents("profile/derivative", pf, ref, (d, u1), unit + [tm.lt(D * D, tm.const(F(999, 1000)))])
    ck.validate("profile", pf, (d, u1), scal(got), assume=unit, want=scal(want))
