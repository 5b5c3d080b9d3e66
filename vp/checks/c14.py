"""C14: light-curve dispatch of mag_binary and mag_triple."""

PROP = {
    "title": "Light-curve refinement replaces exactly the points it should, in place",
    "statement": "mag_binary and mag_triple return, for every trajectory point and in the input order, either the multipole value of that "
                 "point or the finite-source integration of that very point with the caller's lens, source, limb darkening and resolution "
                 "settings: points accepted by the accuracy tests (proximity test, and the planetary test when q < 0.01; none for triples) "
                 "keep the multipole value, the first MAX_FULL_CALLS rejected points are integrated, whatever the chunk size, and the rest "
                 "keep the multipole value.",
    "over": ["inputs", "configurations"],
    "text": "all trajectories of 3-4 points, all outcomes of the accuracy tests, MAX_FULL_CALLS 0-5, chunk sizes 1-4, uniform and limb-darkened",
    "why": "tests compare whole light curves at loose tolerance with a budget larger than the curve; permutation, padding and budget slips "
           "need particular test outcomes",
    "files": ["src/microjax/inverse_ray/lightcurve.py"],
    "mech": [("binary", "inverse_ray.lightcurve.mag_binary"), ("triple", "inverse_ray.lightcurve.mag_triple")],
    "technique": "symbolic execution with the solvers and tests as uninterpreted functions",
    "note": "3 points (4 thorough); image solver, multipole, accuracy tests and integrators are uninterpreted functions of their arguments",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm


def ufs(images, multi, prox, planet, uni, ld, nl):
    lens = ("a", "e1") if nl == 2 else ("a", "e1", "e2", "r3", "psi")
    phys = ("s", "q") if nl == 2 else ("s", "q", "q3", "r3", "psi")
    nim = {2: 5, 3: 10}[nl]
    n = lambda d: d["w"].shape
    cell = ("w_center", "rho", "nlenses", "r_resolution", "th_resolution", "Nlimb", "bins_r", "bins_th", "margin_r", "margin_th")
    res = ("r_resolution", "th_resolution", "Nlimb", "bins_r", "bins_th")
    I = UF(images, "I", ("w", "nlenses") + lens, [(lambda d: (nim,) + d["w"].shape, np.complex128), (lambda d: (nim,) + d["w"].shape, np.bool_)],
           static=("nlenses", "custom_init"))
    H = UF(multi, "H", ("z", "z_mask", "rho", "u1", "nlenses") + lens,
           [(lambda d: d["z"].shape[1:], np.float64), (lambda d: d["z"].shape[1:], np.float64)], static=("nlenses",))
    P = UF(prox, "P", ("w", "z", "z_mask", "rho", "delta_mu_multi", "nlenses", "c_m", "gamma", "c_f", "rho_min", "a", "e1"), [(n, np.bool_)],
           static=("nlenses",))
    Q = UF(planet, "Q", ("w", "rho", "c_p", "a", "e1"), [(n, np.bool_)])
    one = lambda d: d["w_center"].shape
    U = UF(uni, "U", cell + phys, [(one, np.float64)], static=("nlenses",) + res)
    L = UF(ld, "L", cell + ("u1", "delta_c") + phys, [(one, np.float64)], static=("nlenses", "u1") + res)
    return I, H, P, Q, U, L


def run(ck):
    from microjax.inverse_ray import lightcurve as lc
    from microjax.inverse_ray.cond_extended import _caustics_proximity_test, _planetary_caustic_test
    from microjax.inverse_ray.extended_source import mag_uniform, mag_limb_dark
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    ck.encodes("inverse_ray.lightcurve.mag_binary", "inverse_ray.lightcurve.mag_triple")
    ck.ranges.update({"q": (0.001, 0.02), "q3": (0.001, 0.02), "s": (0.5, 1.5), "rho": (0.01, 0.1), "*": (-2, 2)})
    ck.bound("3 trajectory points (4 thorough), budget 0..N+1, chunk sizes 1..N+1")
    ck.assume("image solver, multipole, accuracy tests and integrators enter as uninterpreted functions of their arguments (C02, C06-C08, C15...)")
    ck.assume("q > 0, masses positive")

    cases = []
    for nl in (2, 3):
        for u1 in (0.0, 0.4):
            if ck.quick:
                cfg = [(3, 0, 2), (3, 1, 1), (3, 2, 2), (3, 5, 2), (3, 3, 3)] if (nl == 2 and u1 == 0) else [(3, 1, 2), (3, 2, 1), (3, 4, 4)]
            else:
                cfg = [(n, m, c) for n in (2, 3, 4) for m in range(0, n + 2) for c in (1, 2, 3, n + 1)]
            cases += [(nl, u1) + c for c in cfg]
    for nl, u1, n, mx, chunk in cases:
        f = lc.mag_binary if nl == 2 else lc.mag_triple
        w, rho = sym_cplx("w", (n,)), sym_real("rho")
        names = ("s", "q") if nl == 2 else ("s", "q", "q3", "r3", "psi")
        prm = {k: sym_real(k) for k in names}
        opts = dict(r_resolution=11, th_resolution=13, delta_c=0.03, Nlimb=17, bins_r=5, bins_th=7, margin_r=0.25, margin_th=0.75)
        stubs = ufs(_images_point_source, mag_hexadecapole, _caustics_proximity_test, _planetary_caustic_test, mag_uniform, mag_limb_dark, nl)
        I, H, P, Q, U, L = stubs

        def call(w, rho, *p, f=f, names=names, u1=u1, mx=mx, chunk=chunk, opts=opts):
            return f(w, rho, u1=u1, MAX_FULL_CALLS=mx, chunk_size=chunk, **opts, **dict(zip(names, p)))

        def model(sym, w, rho, p, n=n, nl=nl, u1=u1, stubs=stubs, opts=opts):
            """multipole value, acceptance and integrated value of every point"""
            I, H, P, Q, U, L = [s.value if sym else s.num for s in stubs]
            s, q = p["s"], p["q"]
            if sym:
                s, q = R(s), R(q)
            q3 = (R(p["q3"]) if sym else p["q3"]) if nl == 3 else (ZERO if sym else 0.0)
            one = ONE if sym else 1.0
            half = (lambda x: tm.scale(x, F(1, 2))) if sym else (lambda x: 0.5 * x)
            div = tm.div if sym else (lambda x, y: x / y)
            wrap = scal if sym else float
            a = half(s)
            tot = one + q + q3
            xcm = a * div(one - q, one + q)
            ln = {"a": wrap(a), "e1": wrap(div(q, tot))}
            if nl == 3:
                ln.update(e2=wrap(div(one, tot)), r3=p["r3"], psi=p["psi"])
            ws = mk([x - Cx(xcm, ZERO) for x in w.a], (n,), np.complex128) if sym else w - xcm
            z, m = I(ws, nlenses=nl, **ln)
            mu, dl = H(z, m, rho, nlenses=nl, u1=u1, **ln)
            if nl == 2:
                t1, t2 = P(ws, z, m, rho, dl, nlenses=nl, **ln), Q(ws, rho, **ln)
                small = tm.lt(q, tm.const(F(1, 100))) if sym else q < 0.01
                acc = [tm.band(x, tm.bor(tm.bnot(small), y)) for x, y in zip(t1.a, t2.a)] if sym else list(t1 & (t2 | (not small)))
            else:
                acc = [FALSE if sym else False] * n
            full = []
            kw = {k: v for k, v in opts.items() if k != "delta_c"}
            for i in range(n):
                wi = mk([w.a[i]], (), np.complex128) if sym else w[i]
                v = U(wi, rho, nlenses=nl, **kw, **p) if u1 == 0 else L(wi, rho, nlenses=nl, u1=u1, **opts, **p)
                full.append(R(v) if sym else float(v))
            return (list(mu.a) if sym else list(mu)), acc, full

        def expect_num(w, rho, p, mx=mx, model=model):
            mu, acc, full = model(False, w, rho, p)
            out, used = [], 0
            for m_, a_, f_ in zip(mu, acc, full):
                if a_ or used >= mx:
                    out.append(m_)
                else:
                    out.append(f_)
                if not a_:
                    used += 1
            return np.array(out)

        def rep(env, w=w, rho=rho, prm=prm, names=names, call=call, stubs=stubs, expect_num=expect_num, n=n):
            tries = [dict(env)] + [dict(ck.rand_env(tm.free_vars(flat_terms((w, rho, prm)))), **{}) for _ in range(40)]
            with patched(list(stubs), "conc"):
                for e in tries:
                    c = {k: concretize(v, e) for k, v in (("w", w), ("rho", rho), ("p", prm))}
                    wc = np.asarray(c["w"], complex)
                    p = {k: float(c["p"][k]) for k in names}
                    got = np.asarray(call(wc, float(c["rho"]), *[p[k] for k in names]))
                    want = expect_num(wc, float(c["rho"]), p)
                    if got.shape != want.shape or not close(got, want, 1e-6, 1e-7):
                        return True, {"w": wc, "rho": c["rho"], "params": p, "got": got, "expected": want}
            return False, {}
        tag = "%d-lens u1=%s n=%d budget=%d chunk=%d" % (nl, u1, n, mx, chunk)
        got = run_sym(call, w, rho, *[prm[k] for k in names], stubs=list(stubs))
        mu, acc, full = model(True, w, rho, prm)
        want = []
        for i in range(n):
            # point i is integrated when rejected and fewer than mx earlier points were rejected
            rank = [tm.ite(a, ZERO, ONE) for a in acc[:i]]
            have = tm.lt(sum(rank, ZERO), tm.const(mx))
            want.append(tm.ite(tm.bor(acc[i], tm.bnot(have)), mu[i], full[i]))
        q = R(prm["q"])
        asm = [tm.gt(q, ZERO)] + ([tm.gt(R(prm["q3"]), ZERO)] if nl == 3 else [])
        asm += U.congruence() + L.congruence()
        if got.shape != (n,):
            ck.prove(tag + "/shape", FALSE, (), rep)
        ck.prove(tag, tm.band(*[tm.eq(x, y) for x, y in zip(got.a, want)]), asm, rep, sides=(list(got.a), want))
        if mx:
            ck.reachable(tag, asm + [tm.bnot(a) for a in acc])
    bad, d = rep({v.val: 0.7 for v in tm.free_vars(flat_terms((w, rho, prm)))})
    if bad:
        ck.report("validate", {}, d)
        raise Stop()
    ck.validated += 41
