"""C11: annual parallax offsets."""

PROP = {
    "title": "Parallax offsets are the linear geocentric frame change",
    "statement": "With the parameters of set_parallax, the offsets vanish at the reference time, are free of first-order drift there (equal at "
                 "tref-dt and tref+dt), and at every time equal (piEN dqN + piEE dqE, piEN dqE - piEE dqN) with dq(t) = q(t) - q(tref) - v "
                 "(t - tref), q the projected orbit position and v its central difference; each time sample is treated separately, the "
                 "orbit is periodic, and given epochs are used unless one of them is 0.",
    "over": ["inputs"],
    "text": "all times, epochs, sky positions, parallax vectors, orbital elements and steps; scalar time and 3 samples",
    "why": "tests check shapes and a few values; a sign, a swapped component or a reference-epoch slip changes every light curve",
    "files": ["src/microjax/trajectory/parallax.py"],
    "mech": [("parameters", "trajectory.parallax.set_parallax"), ("offsets", "trajectory.parallax.compute_parallax"),
             ("projected orbit", "trajectory.parallax.project_earth_position")],
    "technique": "relational queries over the traced code, nonlinear real arithmetic with trigonometric atoms",
    "note": "all real parameters with 0<=ecc<1, period>0, dt>0, |Dec|<90; scalar time and 3 samples; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_real, mk
from .. import term as tm


def run(ck):
    from microjax.trajectory import parallax as P
    ck.encodes("trajectory.parallax.set_parallax", "trajectory.parallax.compute_parallax", "trajectory.parallax.project_earth_position",
               "trajectory.parallax.peri_vernal", "trajectory.parallax.getpsi", "trajectory.parallax.prepare_projection_basis")
    ck.ranges.update({"tref": (7000, 8000), "tp": (7000, 7400), "tv": (7100, 7500), "RA": (0, 360), "Dec": (-80, 80), "rot": (10, 40),
                      "ecc": (0.05, 0.5), "per": (300, 400), "dt": (0.1, 5), "t": (7000, 8000), "t_*": (7000, 8000), "m": (-1, 1),
                      "m_*": (-1, 1), "*": (-2, 2)})
    ck.bound("scalar time and 3 time samples; all real parameters")
    ck.assume("0<=ecc<1, period>0, dt>0, |Dec|<90; trigonometric functions abstracted by their algebraic identities; exact reals")
    sp_names = ("tref", "tp", "tv", "RA", "Dec", "rot", "ecc", "per", "dt")
    S = {k: sym_real(k) for k in sp_names}
    v = {k: R(x) for k, x in S.items()}
    base = [tm.ge(v["ecc"], ZERO), tm.lt(v["ecc"], ONE), tm.gt(v["per"], ZERO), tm.gt(v["dt"], ZERO), tm.ne(v["tp"], ZERO),
            tm.ne(v["tv"], ZERO)]
    N, E = sym_real("piEN"), sym_real("piEE")
    sargs = tuple(S[k] for k in sp_names)

    # --- compute_parallax for arbitrary parameters
    fresh = (sym_real("q", (2, 1)), sym_real("v", (2, 1)), sym_real("R", (3, 3)), sym_real("n", (3,)), sym_real("e", (3,)), S["tref"],
             S["tp"], S["per"], S["ecc"])
    for shape in ((), (3,)):
        t = sym_real("t", shape)
        n = 1 if shape == () else shape[0]
        tt = [R(t)] if shape == () else list(t.a)
        got = run_sym(P.compute_parallax, t, N, E, fresh)
        pe = lambda x: run_sym(P.project_earth_position, x, S["tp"], S["per"], S["ecc"], fresh[2], fresh[3], fresh[4])
        q = [pe(scal(x)) for x in tt]
        ds = [[q[i].a[k, 0] - fresh[0].a[k, 0] - fresh[1].a[k, 0] * (tt[i] - v["tref"]) for k in range(2)] for i in range(n)]
        dtn = mk([R(N) * d[0] + R(E) * d[1] for d in ds], (n,), np.float64)
        dum = mk([R(N) * d[1] - R(E) * d[0] for d in ds], (n,), np.float64)
        ck.prove_equal("offsets%s" % (shape,), got, (dtn, dum), (t, N, E, fresh), P.compute_parallax, rtol=1e-9, atol=1e-6)
        ck.validate("offsets%s" % (shape,), P.compute_parallax, (t, N, E, fresh), got, atol=1e-6)
        got = run_sym(P.project_earth_position, t, S["tp"], S["per"], S["ecc"], fresh[2], fresh[3], fresh[4])
        want = mk([q[i].a[k, 0] for k in range(2) for i in range(n)], (2, n), np.float64)
        ck.prove_equal("samples%s" % (shape,), got, want, (t, S["tp"], S["per"], S["ecc"], fresh[2], fresh[3], fresh[4]),
                       P.project_earth_position, rtol=1e-9, atol=1e-9)

    # --- parameters
    sp = run_sym(P.set_parallax, *sargs)
    if len(sp) != 9:
        raise Inconclusive("set_parallax returns %d values" % len(sp))
    sp = ck.resolve(sp, base)
    ck.prove_equal("epochs", (sp[5], sp[6], sp[7], sp[8]), (S["tref"], S["tp"], S["per"], S["ecc"]), sargs,
                   lambda *a: P.set_parallax(*a)[5:], assume=base, rtol=1e-12, atol=1e-9)
    pv = run_sym(P.peri_vernal, S["tref"])
    for nm, sub in (("tp", {v["tp"]: ZERO}), ("tv", {v["tv"]: ZERO})):
        a = tuple(scal(sub.get(R(x), R(x))) for x in sargs)
        s0 = run_sym(P.set_parallax, *a)
        ck.prove_equal("auto/" + nm, s0[6], pv[0], a, lambda *a: P.set_parallax(*a)[6], rtol=1e-12, atol=1e-9)

    def pe(x, sp=sp):
        return run_sym(P.project_earth_position, x, sp[6], sp[7], sp[8], sp[2], sp[3], sp[4])
    q0 = pe(S["tref"])
    qm, qp = pe(scal(v["tref"] - v["dt"])), pe(scal(v["tref"] + v["dt"]))
    v0 = mk([tm.div(qp.a[k, 0] - qm.a[k, 0], tm.scale(v["dt"], 2)) for k in range(2)], (2, 1), np.float64)
    for k, (got, want) in enumerate(((sp[0], q0), (sp[1], v0))):
        if got.shape == (2,):
            got = mk(list(got.a), (2, 1), np.float64)
        pick = lambda *a, k=k: np.asarray(P.set_parallax(*a)[k]).reshape(2, 1)
        ck.prove_equal(("position", "velocity")[k], got, want, sargs, pick, assume=base, rtol=1e-6, atol=1e-8)
    ck.validate("set_parallax", P.set_parallax, sargs, sp, assume=base, atol=1e-7)

    # --- gauge of the composition
    def comp(t, *a):
        return P.compute_parallax(t, a[0], a[1], P.set_parallax(*a[2:]))
    a = (N, E) + sargs
    at0 = ck.resolve(run_sym(comp, S["tref"], *a), base)
    z = mk([ZERO], (1,), np.float64)
    ck.prove_equal("zero-at-reference", at0, (z, z), a, lambda *a: comp(a[2], *a), assume=base, atol=1e-7)
    up = ck.resolve(run_sym(comp, scal(v["tref"] + v["dt"]), *a), base)
    dn = ck.resolve(run_sym(comp, scal(v["tref"] - v["dt"]), *a), base)
    diff = tuple(mk([x.a[0] - y.a[0]], (1,), np.float64) for x, y in zip(up, dn))

    def drift(*a):
        u, d = comp(a[2] + a[10], *a), comp(a[2] - a[10], *a)
        return tuple(np.asarray(x) - np.asarray(y) for x, y in zip(u, d))
    ck.prove_equal("no-drift", diff, (z, z), a, drift, assume=base, atol=1e-7)
    ck.reachable("gauge", base)

    # --- periodicity, in mean anomaly m = (t - tp)/period
    m = sym_real("m")
    t1 = v["tp"] + v["per"] * R(m)
    args = (S["tp"], S["per"], S["ecc"], fresh[2], fresh[3], fresh[4])
    p1 = run_sym(P.project_earth_position, scal(t1), *args)
    p2 = run_sym(P.project_earth_position, scal(v["tp"] + v["per"] * (R(m) + ONE)), *args)
    ck.prove_equal("periodic", p2, p1, (m,) + args, lambda m, tp, per, *r: P.project_earth_position(tp + per * (m + 1), tp, per, *r),
                   assume=base[:3] + [tm.ne(tm.fn("sin", tm.scale(tm.mul(tm.PI, R(m)), 2)), ZERO)], rtol=1e-6, atol=1e-7)
