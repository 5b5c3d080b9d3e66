"""C12: Earth's orbit and the tangent-plane basis."""

PROP = {
    "title": "Orbit projection is geometrically exact",
    "statement": "The orbital rotation is a proper rotation that takes the orbital direction of the vernal equinox to the equatorial x axis and "
                 "the orbit normal to the ecliptic pole; north and east are the unit tangent vectors of increasing declination and right "
                 "ascension. The projected position is that of a Kepler ellipse with the Sun in one focus (semi-major axis 1, perihelion at "
                 "tperi on the orbital x axis), and with set_parallax the orbit points along the equatorial x axis at tvernal.",
    "over": ["inputs"],
    "text": "all angles, sky positions, epochs, periods and eccentricities",
    "why": "tests check orthonormality at one direction; a wrong sense of rotation or a mean anomaly in place of the true anomaly passes",
    "files": ["src/microjax/trajectory/parallax.py"],
    "mech": [("basis", "trajectory.parallax.prepare_projection_basis"), ("ellipse", "trajectory.parallax.project_earth_position"),
             ("orientation", "trajectory.parallax.set_parallax")],
    "technique": "trigonometric identities over the traced code, nonlinear real arithmetic",
    "note": "|Dec|<90, 0<=ecc<1, period>0; the eccentric anomaly is whatever getpsi returns (C13); exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_real, mk
from .. import term as tm


def sc(x):
    return tm.fn("sin", x), tm.fn("cos", x)


def run(ck):
    from microjax.trajectory import parallax as P
    ck.encodes("trajectory.parallax.prepare_projection_basis", "trajectory.parallax.project_earth_position",
               "trajectory.parallax.set_parallax")
    ck.ranges.update({"tref": (7000, 8000), "tp": (7000, 7400), "tv": (7100, 7500), "RA": (0, 360), "Dec": (-80, 80), "rot": (10, 40),
                      "off": (-3, 3), "ecc": (0.05, 0.5), "per": (300, 400), "dt": (0.1, 5), "m*": (-1, 1), "*": (-2, 2)})
    ck.bound("all real parameters")
    ck.assume("|Dec|<90, 0<=ecc<1, period>0; sin, cos, arctan2 by their algebraic identities; exact reals")
    deg = lambda x: tm.scale(tm.mul(tm.PI, x), F(1, 180))

    # --- basis
    args = tuple(sym_real(k) for k in ("rot", "off", "RA", "Dec"))
    rot, off, RA, Dec = (R(x) for x in args)
    (sr, cr), (so, co), (sa, ca), (sd, cd) = sc(deg(rot)), sc(off), sc(deg(RA)), sc(deg(Dec))
    f = P.prepare_projection_basis
    got = run_sym(f, *args)
    if [g.shape for g in got] != [(3, 3), (3,), (3,)]:
        raise Inconclusive("basis shapes")
    dec = [tm.gt(cd, ZERO)]
    got = ck.resolve(got, dec)
    Rm = got[0].a
    vec = lambda v: mk(v, (3,), np.float64)
    app = lambda v: [sum((Rm[i, j] * v[j] for j in range(3)), ZERO) for i in range(3)]
    mat = lambda v: (lambda *a: np.asarray(P.prepare_projection_basis(*a)[0]) @ np.array(v(*map(float, a))))
    ck.prove_equal("vernal-direction", vec(app([co, so, ZERO])), vec([ONE, ZERO, ZERO]), args,
                   mat(lambda r, o, a, d: [math.cos(o), math.sin(o), 0]), one_query=True)
    ck.prove_equal("orbit-normal", vec(app([ZERO, ZERO, ONE])), vec([ZERO, -sr, cr]), args, mat(lambda *a: [0, 0, 1]), one_query=True)
    ck.prove_equal("third-axis", vec(app([-so, co, ZERO])), vec([ZERO, cr, sr]), args,
                   mat(lambda r, o, a, d: [-math.sin(o), math.cos(o), 0]), one_query=True)
    ck.prove_equal("east", got[2], vec([-sa, ca, ZERO]), args, lambda *a: f(*a)[2], assume=dec, one_query=True)
    ck.prove_equal("north", got[1], vec([-(sd * ca), -(sd * sa), cd]), args, lambda *a: f(*a)[1], assume=dec, one_query=True)
    ck.validate("basis", f, args, got)
    ck.reachable("basis", dec)

    # --- ellipse, in mean anomaly: t = tp + per m
    m, tp, per, ecc = (sym_real(k) for k in ("m", "tp", "per", "ecc"))
    Rf, n_, e_ = sym_real("R", (3, 3)), sym_real("n", (3,)), sym_real("e", (3,))
    base = [tm.ge(R(ecc), ZERO), tm.lt(R(ecc), ONE), tm.gt(R(per), ZERO)]
    pe = lambda m, tp, per, ecc, *r: P.project_earth_position(tp + per * m, tp, per, ecc, *r)
    args = (m, tp, per, ecc, Rf, n_, e_)
    got = run_sym(pe, *args)
    psi = run_sym(P.getpsi, scal(tm.scale(tm.mul(tm.PI, R(m)), 2)), ecc)
    sp, cp = sc(R(psi))
    orb = [cp - R(ecc), tm.sqrt(ONE - R(ecc) * R(ecc)) * sp, ZERO]
    eq = [sum((Rf.a[i, j] * orb[j] for j in range(3)), ZERO) for i in range(3)]
    want = mk([sum((b.a[i] * eq[i] for i in range(3)), ZERO) for b in (n_, e_)], (2, 1), np.float64)
    ck.prove_equal("ellipse", ck.resolve(got, base), ck.resolve(want, base), args, pe, assume=base, rtol=1e-6, atol=1e-7)
    ck.validate("ellipse", pe, args, got, assume=base, atol=1e-6)
    # orbit equation: distance to the focus is 1 - e cos psi
    r2 = sum((x * x for x in orb), ZERO)
    ck.prove("focus", tm.eq(r2, tm.powi(ONE - R(ecc) * cp, 2)), base)

    # --- orientation from set_parallax
    names = ("tref", "tp", "tv", "RA", "Dec", "rot", "ecc", "per", "dt")
    S = {k: sym_real(k) for k in names}
    v = {k: R(x) for k, x in S.items()}
    sargs = tuple(S[k] for k in names)
    base = [tm.ge(v["ecc"], ZERO), tm.lt(v["ecc"], ONE), tm.gt(v["per"], ZERO), tm.ne(v["tp"], ZERO), tm.ne(v["tv"], ZERO)]

    def comp(tref, tp, tv, RA, Dec, rot, ecc, per, dt):
        s = P.set_parallax(tref, tp, tv, RA, Dec, rot, ecc, per, dt)
        x, y, z = jnp.eye(3)
        a = P.project_earth_position(tv, tp, per, ecc, s[2], x, y)
        b = P.project_earth_position(tv, tp, per, ecc, s[2], z, s[3])
        return a[0, 0], a[1, 0], b[0, 0], s[2], s[3], s[4]
    got = ck.resolve(run_sym(comp, *sargs), base)
    phi = tm.scale(tm.div(tm.mul(tm.PI, v["tv"] - v["tp"]), v["per"]), 2)
    psi = R(run_sym(P.getpsi, scal(phi), S["ecc"]))
    rad = ONE - v["ecc"] * tm.fn("cos", psi)
    rad = ck.resolve(rad, base)
    # |e cos psi| < 1 (a consequence of e < 1, given to the solver)
    asm = base + [tm.gt(rad, ZERO)]

    def rep(env):
        c = [float(concretize(a, env)) for a in sargs]
        g = [np.asarray(x) for x in run_real(comp, *c)]
        x, y, z = (float(t) for t in g[:3])
        ps = float(P.getpsi(2 * math.pi * (c[2] - c[1]) / c[7], c[6]))
        w = [1 - c[6] * math.cos(ps), 0, 0]
        return (not close((x, y, z), tuple(w), 1e-6, 1e-6)), {"inputs": c, "at_vernal": [x, y, z], "expected": w}
    # the eccentric anomaly as an arbitrary angle
    p = tm.var("p")
    sub = {}
    for k in ("sin", "cos"):
        (b, c), = tm._lin_parts(tm.fn(k, psi))[0]
        sub[b] = tm.scale(tm.fn(k, p), c)
    xyz = ck.unit_angles(tm.subst([R(x) for x in got[:3]] + [rad] + asm, sub), tm.subst(asm, sub))
    if len(tm.free_vars(xyz[:4])) < 5:
        got, rad, asm = [scal(t) for t in xyz[:3]] + list(got[3:]), xyz[3], xyz[4:]
    for nm, g, w in (("z", R(got[2]), ZERO), ("y", R(got[1]), ZERO), ("x", R(got[0]), rad)):
        ck.prove_eq("vernal-equinox/" + nm, [(g, w)], asm, rep)
    (sr, cr), (sa, ca), (sd, cd) = sc(deg(v["rot"])), sc(deg(v["RA"])), sc(deg(v["Dec"]))
    dec = [tm.gt(cd, ZERO)]
    n1, e1 = ck.resolve(got[4], base + dec), ck.resolve(got[5], base + dec)
    ck.prove_equal("set_parallax/north", n1, vec([-(sd * ca), -(sd * sa), cd]), sargs, lambda *a: comp(*a)[4], assume=base + dec, one_query=True)
    ck.prove_equal("set_parallax/east", e1, vec([-sa, ca, ZERO]), sargs, lambda *a: comp(*a)[5], assume=base + dec, one_query=True)
    nrm = vec([got[3].a[i, 2] for i in range(3)])
    ck.prove_equal("set_parallax/ecliptic-pole", nrm, vec([ZERO, -sr, cr]), sargs, lambda *a: comp(*a)[3][:, 2], assume=base, one_query=True)
    ck.reachable("orientation", asm)
    for _ in range(2):
        env = ck.rand_env(tm.free_vars(flat_terms(sargs)))
        bad, d = rep(env)
        if bad:
            ck.report("validate", env, d)
            raise Stop()
        ck.validated += 1
