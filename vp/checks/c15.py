"""C15: dispatch of caustics.lightcurve.magnifications."""

PROP = {
    "title": "Contour light curve keeps the multipole only where the accuracy tests allow it",
    "statement": "magnifications returns for every source position, in input order, the multipole value (with the caller's limb darkening) "
                 "when the accuracy tests accept that position and otherwise the contour magnification of that very position with the "
                 "caller's lens, source and resolution settings. Binary lenses use the proximity test, and also the planetary test when "
                 "q < 0.01; triple lenses always use contours; a single lens uses the multipole only for sources at least two radii away.",
    "over": ["inputs", "configurations"],
    "text": "all trajectories of up to 3 points, all outcomes of the accuracy tests, all lens parameters, with and without limb darkening",
    "why": "tests compare smooth light curves at loose tolerance; a wrong frame, threshold or dropped option shows only for particular outcomes",
    "files": ["src/microjax/caustics/lightcurve.py"],
    "mech": [("dispatch", "caustics.lightcurve.magnifications")],
    "technique": "symbolic execution with the solvers and tests as uninterpreted functions",
    "note": "2 points (3 thorough); image solver, multipole, accuracy tests and contour integration are uninterpreted functions of their arguments",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm


def run(ck):
    from microjax.caustics import lightcurve as lc
    from microjax.caustics.extended_source import mag_extended_source
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    prox, planet = lc._caustics_proximity_test, lc._planetary_caustic_test
    ck.encodes("caustics.lightcurve.magnifications")
    ck.ranges.update({"q": (0.001, 0.02), "q3": (0.001, 0.02), "s": (0.5, 1.5), "rho": (0.01, 0.4), "u1": (0.1, 0.9), "*": (-1, 1)})
    ck.bound("1-2 trajectory points (3 thorough)")
    ck.assume("image solver, multipole, accuracy tests and contour integration enter as uninterpreted functions of their arguments")
    ck.assume("q > 0, masses positive, rho > 0")

    for nl in (1, 2, 3):
        for ld in (False, True):
            for n in ((1, 2) if ck.quick else (1, 2, 3)):
                case(ck, lc.magnifications, (_images_point_source, mag_hexadecapole, prox, planet, mag_extended_source), nl, ld, n)


def case(ck, f, targets, nl, ld, n):
    nim = {1: 2, 2: 5, 3: 10}[nl]
    sh = lambda d: d["w"].shape
    lens = {1: (), 2: ("a", "e1"), 3: ("a", "e1", "e2", "r3", "psi")}[nl]
    names = {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}[nl]
    I = UF(targets[0], "I", ("w", "nlenses") + lens, [(lambda d: (nim,) + d["w"].shape, np.complex128), (lambda d: (nim,) + d["w"].shape, np.bool_)],
           static=("nlenses", "custom_init"))
    H = UF(targets[1], "H", ("z", "z_mask", "rho", "u1", "nlenses") + lens,
           [(lambda d: d["z"].shape[1:], np.float64), (lambda d: d["z"].shape[1:], np.float64)], static=("nlenses",))
    P = UF(targets[2], "P", ("w", "z", "z_mask", "rho", "delta_mu_multi", "nlenses", "c_m", "gamma", "c_f", "rho_min", "a", "e1"), [(sh, np.bool_)],
           static=("nlenses",))
    Q = UF(targets[3], "Q", ("w", "rho", "c_p", "a", "e1"), [(sh, np.bool_)])
    X = UF(targets[4], "X", ("w0", "rho", "nlenses", "npts_limb", "limb_darkening") + (("u1", "npts_ld") if ld else ()) + names,
           [(lambda d: d["w0"].shape, np.float64)], static=("nlenses", "npts_limb", "limb_darkening", "npts_ld"))
    stubs = [I, H, P, Q, X]
    w, rho, u1 = sym_cplx("w", (n,)), sym_real("rho"), sym_real("u1")
    prm = {k: sym_real(k) for k in names}
    opts = dict(npts_limb=37, limb_darkening=ld, npts_ld=23)

    def call(w, rho, u1, *p):
        return f(w, rho, nlenses=nl, u1=u1, **opts, **dict(zip(names, p)))

    def model(sym, w, rho, u1, p):
        i, h, pr, pl, x = [s.value if sym else s.num for s in stubs]
        one = ONE if sym else 1.0
        div = tm.div if sym else (lambda x, y: x / y)
        wrap = scal if sym else float
        ln, ws = {}, w
        if nl > 1:
            s, q = (R(p["s"]), R(p["q"])) if sym else (p["s"], p["q"])
            q3 = (R(p["q3"]) if sym else p["q3"]) if nl == 3 else (ZERO if sym else 0.0)
            a = tm.scale(s, F(1, 2)) if sym else 0.5 * s
            tot = one + q + q3
            xcm = a * div(one - q, one + q)
            ln = {"a": wrap(a), "e1": wrap(div(q, tot))}
            if nl == 3:
                ln.update(e2=wrap(div(one, tot)), r3=p["r3"], psi=p["psi"])
            ws = mk([v - Cx(xcm, ZERO) for v in w.a], (n,), np.complex128) if sym else w - xcm
        full = [x(mk([w.a[k]], (), np.complex128) if sym else w[k], rho, nlenses=nl, u1=u1, **opts, **p) for k in range(n)]
        full = [R(v) if sym else float(v) for v in full]
        z, m = i(ws, nlenses=nl, **ln)
        mu, dl = h(z, m, rho, nlenses=nl, u1=(u1 if ld else 0.0), **ln)
        mu = list(mu.a) if sym else [float(v) for v in mu]
        if nl == 3:
            return mu, [FALSE if sym else False] * n, full
        if nl == 1:
            return mu, None, full
        t1, t2 = pr(ws, z, m, rho, dl, nlenses=nl, **ln), pl(ws, rho, **ln)
        small = tm.lt(q, tm.const(F(1, 100))) if sym else q < 0.01
        acc = [tm.band(x, tm.bor(tm.bnot(small), y)) for x, y in zip(t1.a, t2.a)] if sym else list(t1 & (t2 | (not small)))
        return mu, acc, full

    def rep(env):
        tries = [dict(env)] + [dict(ck.rand_env(tm.free_vars(flat_terms((w, rho, u1, prm))))) for _ in range(30)]
        with patched(stubs, "conc"):
            for e in tries:
                wc = np.asarray(concretize(w, e), complex)
                r, u = float(concretize(rho, e)), float(concretize(u1, e))
                p = {k: float(concretize(prm[k], e)) for k in names}
                got = np.asarray(call(wc, r, u, *[p[k] for k in names]))
                mu, acc, full = model(False, wc, r, u, p)
                bad = got.shape != (n,)
                for k in range(n if not bad else 0):
                    if acc is None:
                        far = abs(wc[k]) >= 2 * r * (1 - 1e-9)
                        ok = close(got[k], full[k], 1e-7, 1e-8) or (far and close(got[k], mu[k], 1e-7, 1e-8))
                    else:
                        ok = close(got[k], mu[k] if acc[k] else full[k], 1e-7, 1e-8)
                    bad = bad or not ok
                if bad:
                    return True, {"w": wc, "rho": r, "u1": u, "params": p, "got": got, "multipole": mu, "accepted": acc, "full": full}
        return False, {}
    tag = "%d-lens ld=%s n=%d" % (nl, ld, n)
    got = run_sym(call, w, rho, u1, *[prm[k] for k in names], stubs=stubs)
    mu, acc, full = model(True, w, rho, u1, prm)
    asm = [tm.gt(R(rho), ZERO)] + [tm.gt(R(prm[k]), ZERO) for k in names if k in ("q", "q3")]
    asm += X.congruence() + H.congruence()
    if got.shape != (n,):
        ck.prove(tag + "/shape", FALSE, (), rep)
    if acc is None:
        far = [tm.ge(v.re * v.re + v.im * v.im, tm.scale(R(rho) * R(rho), 4)) for v in w.a]
        goal = tm.band(*[tm.bor(tm.eq(g, x), tm.band(f_, tm.eq(g, m))) for g, m, x, f_ in zip(got.a, mu, full, far)])
        ck.prove(tag, goal, asm, rep)
    else:
        want = [tm.ite(a, m, x) for a, m, x in zip(acc, mu, full)]
        ck.prove(tag, tm.band(*[tm.eq(g, v) for g, v in zip(got.a, want)]), asm, rep, sides=(list(got.a), want))
    if nl == 2:
        ck.reachable(tag + " accepted and rejected", asm + [acc[0], tm.bnot(acc[-1]) if n > 1 else TRUE])
    bad, d = rep({v.val: 0.7 for v in tm.free_vars(flat_terms((w, rho, u1, prm)))})
    if bad:
        ck.report("validate", {}, d)
        raise Stop()
    ck.validated += 31
