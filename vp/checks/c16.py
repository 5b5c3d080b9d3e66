"""C16: accuracy tests that decide whether the multipole value may be kept."""

PROP = {
    "title": "Accuracy tests accept a point exactly when every published criterion holds",
    "statement": "For binary lenses the proximity test (both copies) accepts a source iff the cusp measure sum |6 Im(3 conj(f')^3 f''^2)/J^5| "
                 "(rho+rho_min)^2 over the valid images, times gamma, plus the multipole correction is below c_m, and, when there are invalid "
                 "(ghost) images, half the sum of their ghost distances |J Jh^2/(Jh conj(f'') f' - Jh f'' conj(f') f'(zh))|, with "
                 "zh = conj(w) + sum m/(z-p) and Jh = 1 - |f'(z) f'(zh)|, exceeds c_f (rho+rho_min). The planetary test accepts iff the source "
                 "is outside the disc around the planet's caustic (a - 1/s for a planet at +a) of squared radius c_p (rho^2 + 9 q/s^2). "
                 "test_full combines them (planetary test only for q < 0.01) and accepts nothing for triple lenses.",
    "over": ["inputs"],
    "text": "all sources, images, validity masks, radii, lens parameters and thresholds",
    "why": "the tests steer which points are integrated at all; a sign or frame slip leaves light curves right except near some caustics",
    "files": ["src/microjax/inverse_ray/cond_extended.py", "src/microjax/caustics/lightcurve.py"],
    "mech": [("proximity", "inverse_ray.cond_extended._caustics_proximity_test"), ("planetary", "inverse_ray.cond_extended._planetary_caustic_test"),
             ("copies", "caustics.lightcurve._caustics_proximity_test/_planetary_caustic_test"), ("mask", "inverse_ray.cond_extended.test_full")],
    "technique": "symbolic execution over all images, masks and thresholds",
    "note": "1-3 images per source (5 thorough), 1-2 sources; binary lenses; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, sym_bool, mk
from .. import term as tm

PAR = ("c_m", "gamma", "c_f", "rho_min")


def run(ck):
    from microjax.inverse_ray import cond_extended as ce
    from microjax.caustics import lightcurve as lc
    ck.encodes("inverse_ray.cond_extended._caustics_proximity_test", "inverse_ray.cond_extended._planetary_caustic_test",
               "caustics.lightcurve._caustics_proximity_test", "caustics.lightcurve._planetary_caustic_test", "inverse_ray.cond_extended.test_full")
    ck.ranges.update({"e1": (0.05, 0.6), "a": (0.3, 0.9), "rho": (0.01, 0.3), "delta": (0, 0.02), "c_m": (0.005, 0.5), "gamma": (0.01, 0.1),
                      "c_f": (0.5, 5), "rho_min": (0.0005, 0.01), "c_p": (0.5, 3), "*": (-1.5, 1.5)})
    ck.bound("1-3 images per source (5 thorough), 1-2 sources per call; nlenses=2 (test_full also nlenses=3)")
    ck.assume("0 < e1 < 1, a > 0, images not on a lens, not on a critical curve")
    ck.outside.append("nlenses=3 of the proximity test (never called by the library)")
    for mod, nm in ((ce, "inverse_ray"), (lc, "caustics")):
        for shape in ([(1,), (2,), (2, 2)] if ck.quick else [(1,), (2,), (3,), (5,), (2, 2)]):
            for defaults in (False, True):
                proximity(ck, mod._caustics_proximity_test, nm, shape, defaults)
        planetary(ck, mod._planetary_caustic_test, nm)
    full(ck, ce)


def proximity(ck, f, nm, shape, defaults):
    P, lenses = lens_params(2)
    wsh = shape[1:]
    z, zm = sym_cplx("z", shape), sym_bool("m", shape)
    w, d, rho = sym_cplx("w", wsh), sym_real("delta", wsh), sym_real("rho")
    th = {k: sym_real(k) for k in PAR}
    tag = "proximity %s %s%s" % (nm, shape, " default thresholds" if defaults else "")

    def call(w, z, zm, rho, d, th, P):
        return f(w, z, zm, rho, d, nlenses=2, **({} if defaults else th), **P)
    cuts, V = {}, {}

    def name(nm, c):
        v = Cx(tm.var(nm + ".re"), tm.var(nm + ".im"))
        cuts[c.re], cuts[c.im] = v.re, v.im
        return v
    for ix in np.ndindex(*shape):
        zi, s_ = z.a[ix], "_".join(map(str, ix))
        zh, fpp = w.a[ix[1:]].conj(), Cx(ZERO, ZERO)
        for m, p in lenses:
            zh = zh + Cx(m, ZERO) / (zi - p)
            fpp = fpp - Cx(tm.scale(m, 2), ZERO) / ((zi - p) * (zi - p) * (zi - p))
        zv = name("zh" + s_, zh)
        fp, fpp, fh = name("fp" + s_, kappa(zi, lenses)), name("fpp" + s_, fpp), name("fh" + s_, kappa(zv, lenses))

        def one(nm, t):
            cuts[t] = tm.var(nm + s_)
            return cuts[t]
        c = fp.conj()
        J, Jh = one("J", ONE - fp.norm2()), one("Jh", ONE - tm.sqrt(fp.norm2() * fh.norm2()))
        K = one("K", (c * c * c * fpp * fpp).im)
        den = fpp.conj() * fp - fpp * c * fh
        G = one("G", tm.sqrt(tm.div(J * J * Jh * Jh, den.norm2())))
        V[ix] = (J, Jh, K, G, den)
    it = Interp(cuts=dict(cuts), cut_envs=[ck.rand_env(tm.free_vars(list(cuts))) for _ in range(2)], cut_scale=True)
    got = run_sym(call, w, z, zm, rho, d, th, P, interp=it)
    seen = set(tm.free_vars(list(got.a.ravel())))
    unused = {v: t for t, v in cuts.items() if v not in seen}

    def plain(t):
        for _ in range(4):      # definitions of cut values the code never computes
            t = tm.subst(t, unused)
        return t
    T = {"c_m": tm.const(F(1, 100)), "gamma": tm.const(F(1, 50)), "c_f": tm.const(4), "rho_min": tm.const(F(1, 1000))} if defaults \
        else {k: R(v) for k, v in th.items()}
    re = R(rho) + T["rho_min"]
    goals, asm, lefts, rights = [], [], [], []
    for ix in np.ndindex(*wsh):
        cusp, ghost, nghost = ZERO, ZERO, []
        for i in range(shape[0]):
            zi, mi = z.a[(i,) + ix], zm.a[(i,) + ix]
            J, Jh, K, G, den = V[(i,) + ix]
            cusp = cusp + tm.ite(mi, tm.tabs(tm.div(tm.scale(K, 18) * re * re, J * J * J * J * J)), ZERO)
            ghost = ghost + tm.ite(mi, ZERO, G)
            nghost.append(tm.bnot(mi))
            asm += [tm.ne(J, ZERO), tm.ne(Jh, ZERO), tm.ne(den.norm2(), ZERO)]
        ok1 = tm.lt(T["gamma"] * cusp + d.a[ix], T["c_m"])
        ok2 = tm.bor(tm.bnot(tm.bor(*nghost)), tm.gt(tm.scale(ghost, F(1, 2)), T["c_f"] * re))
        want = plain([tm.band(ok1, ok2)])[0]
        goals.append(tm.iff(got.a[ix], want))
        lefts.append(got.a[ix])
        rights.append(want)

    edge = {}

    def num(c):
        w_, z_, m_, r_, d_ = (np.asarray(c[k]) for k in ("w", "z", "m", "rho", "d"))
        a, e1 = float(c["P"]["a"]), float(c["P"]["e1"])
        L = [(e1, a), (1 - e1, -a)]
        t = dict(c_m=1e-2, gamma=0.02, c_f=4.0, rho_min=1e-3) if defaults else {k: float(v) for k, v in c["th"].items()}
        k2 = lambda x: sum(m / (x - p) ** 2 for m, p in L)
        fp, fpp = k2(z_), sum(-2 * m / (z_ - p) ** 3 for m, p in L)
        zh = np.conj(w_) + sum(m / (z_ - p) for m, p in L)
        J, Jh = 1 - abs(fp) ** 2, 1 - abs(fp * k2(zh))
        cusp = np.sum(np.where(m_, abs(6 * np.imag(3 * np.conj(fp) ** 3 * fpp ** 2) / J ** 5) * (r_ + t["rho_min"]) ** 2, 0), axis=0)
        fac = abs(J * Jh ** 2 / (Jh * np.conj(fpp) * fp - Jh * fpp * np.conj(fp) * k2(zh)))
        g = 0.5 * np.sum(np.where(m_, 0, fac), axis=0)
        lhs = t["gamma"] * cusp + d_
        ok = (lhs < t["c_m"]) & (np.all(m_, axis=0) | (g > t["c_f"] * (r_ + t["rho_min"])))
        near = (abs(lhs - t["c_m"]) < 1e-7 * (1 + abs(lhs))) | (abs(g - t["c_f"] * (r_ + t["rho_min"])) < 1e-7 * (1 + g))
        edge.update(lhs=lhs - d_, ghost=g, rho_min=t["rho_min"], c_f=t["c_f"], c_m=t["c_m"])
        return ok, near | ~np.isfinite(lhs) | ~np.isfinite(g)

    def rep(env):
        c = {k: concretize(v, env) for k, v in (("w", w), ("z", z), ("m", zm), ("rho", rho), ("d", d), ("th", th), ("P", P))}
        got_ = run_real(call, *[c[k] for k in ("w", "z", "m", "rho", "d", "th", "P")])
        ok, near = num(c)
        bad = np.shape(got_) != np.shape(ok) or bool(np.any((np.asarray(got_) != ok) & ~near))
        return bad, dict(c, got=got_, expected=ok)

    def sampled(env):
        """the solver's point, random points, and points moved close to the decision boundaries"""
        fv = tm.free_vars(flat_terms((w, z, zm, rho, d, th, P)))
        for j, e in enumerate([env] + [dict(ck.rand_env(fv)) for _ in range(60)]):
            e = dict(e)
            r = rep(e)
            if r[0]:
                return r
            ix = (0,) * len(wsh)
            if j % 2 and np.isfinite(edge["ghost"][ix]) and edge["ghost"][ix] < 1e6:
                # radius at which the first source's ghost criterion tips
                e[R(rho).val] = float(edge["ghost"][ix] / edge["c_f"] - edge["rho_min"]) * (1 + 1e-3 * (1 if j % 4 == 1 else -1))
                if e[R(rho).val] <= 0:
                    continue
                e[d.a[ix].val] = -1e9
            else:
                e[d.a[ix].val] = float(edge["c_m"] - edge["lhs"][ix]) + 1e-3 * abs(float(edge["lhs"][ix])) * (1 if j % 4 else -1)
            r = rep(e)
            if r[0]:
                return r
        return False, {}
    e1 = R(P["e1"])
    asm += [tm.gt(e1, ZERO), tm.lt(e1, ONE), tm.gt(R(P["a"]), ZERO), tm.gt(R(rho), ZERO), tm.ge(T["rho_min"], ZERO)]
    if got.shape != wsh:
        ck.prove(tag + "/shape", FALSE, (), rep)
    ck.prove(tag, tm.band(*goals), plain(asm), sampled, sides=(lefts, rights))
    bad, dd = sampled({v.val: 0.3 for v in tm.free_vars(flat_terms((w, z, zm, rho, d, th, P)))})
    if bad:
        ck.report(tag + "/validate", {}, dd)
        raise Stop()
    ck.validated += 61


def planetary(ck, f, nm):
    P, lenses = lens_params(2)
    w, rho, cp = sym_cplx("w", (2,)), sym_real("rho"), sym_real("c_p")
    a, e1 = R(P["a"]), R(P["e1"])
    for defaults in (False, True):
        def call(w, rho, cp, P, defaults=defaults):
            return f(w, rho, **({} if defaults else {"c_p": cp}), **P)
        got = run_sym(call, w, rho, cp, P)
        c = tm.const(2) if defaults else R(cp)
        s, q = tm.scale(a, 2), tm.div(e1, ONE - e1)
        x0 = a - tm.div(ONE, s)
        r2 = c * (R(rho) * R(rho) + tm.div(tm.scale(q, 9), s * s))
        want = [tm.gt((v.re - x0) * (v.re - x0) + v.im * v.im, r2) for v in w.a]

        def rep(env, call=call, defaults=defaults):
            k = {n: concretize(v, env) for n, v in (("w", w), ("rho", rho), ("cp", cp), ("P", P))}
            g = np.asarray(run_real(call, k["w"], k["rho"], k["cp"], k["P"]))
            a_, e_ = float(k["P"]["a"]), float(k["P"]["e1"])
            s_, c_ = 2 * a_, 2.0 if defaults else float(k["cp"])
            lhs = abs(np.asarray(k["w"]) - (a_ - 1 / s_)) ** 2
            rhs = c_ * (float(k["rho"]) ** 2 + 9 * e_ / (1 - e_) / s_ ** 2)
            bad = g.shape != lhs.shape or np.any((g != (lhs > rhs)) & (abs(lhs - rhs) > 1e-8 * (1 + lhs)))
            return bool(bad), dict(k, got=g, expected=lhs > rhs)
        asm = [tm.gt(e1, ZERO), tm.lt(e1, ONE), tm.gt(a, ZERO)]
        tag = "planetary %s%s" % (nm, " default c_p" if defaults else "")
        ck.prove(tag, tm.band(*[tm.iff(x, y) for x, y in zip(got.a, want)]), asm, rep, sides=(list(got.a), want))
        for _ in range(3):
            bad, d = rep(ck.rand_env(tm.free_vars(flat_terms((w, rho, cp, P)))))
            if bad:
                ck.report(tag + "/validate", {}, d)
                raise Stop()
            ck.validated += 1


def full(ck, ce):
    from microjax.multipole import mag_hexadecapole
    from microjax.point_source import _images_point_source
    for nl in (2, 3):
        lens = {2: ("a", "e1"), 3: ("a", "e1", "e2", "r3", "psi")}[nl]
        nim = {2: 5, 3: 10}[nl]
        sh = lambda d: d["w"].shape
        I = UF(_images_point_source, "I", ("w", "nlenses") + lens,
               [(lambda d: (nim,) + d["w"].shape, np.complex128), (lambda d: (nim,) + d["w"].shape, np.bool_)], static=("nlenses", "custom_init"))
        H = UF(mag_hexadecapole, "H", ("z", "z_mask", "rho", "u1", "nlenses") + lens,
               [(lambda d: d["z"].shape[1:], np.float64), (lambda d: d["z"].shape[1:], np.float64)], static=("nlenses",))
        Pp = UF(ce._caustics_proximity_test, "P", ("w", "z", "z_mask", "rho", "delta_mu_multi", "nlenses") + PAR + ("a", "e1"), [(sh, np.bool_)],
                static=("nlenses",))
        Q = UF(ce._planetary_caustic_test, "Q", ("w", "rho", "c_p", "a", "e1"), [(sh, np.bool_)])
        stubs = [I, H, Pp, Q]
        P, _ = lens_params(nl)
        w, rho = sym_cplx("w", (2,)), sym_real("rho")

        def call(w, rho, P):
            return ce.test_full(w, rho, nlenses=nl, **P)

        def model(sym, w, rho, P):
            i, h, p, q = [s.value if sym else s.num for s in stubs]
            if nl == 3:
                return [FALSE if sym else False] * 2
            z, m = i(w, nlenses=2, **P)
            _, dl = h(z, m, rho, nlenses=2, **P)
            t1, t2 = p(w, z, m, rho, dl, nlenses=2, **P), q(w, rho, **P)
            if sym:
                e1 = R(P["e1"])
                small = tm.lt(tm.scale(e1, 100), ONE - e1)
                return [tm.band(x, tm.bor(tm.bnot(small), y)) for x, y in zip(t1.a, t2.a)]
            return list(t1 & (t2 | (not P["e1"] / (1 - P["e1"]) < 0.01)))

        def rep(env):
            fv = tm.free_vars(flat_terms((w, rho, P)))
            with patched(stubs, "conc"):
                for e in [dict(env)] + [dict(ck.rand_env(fv, {"e1": (0.001, 0.02)})) for _ in range(30)]:
                    wc, r = np.asarray(concretize(w, e), complex), float(concretize(rho, e))
                    p = {k: float(concretize(v, e)) for k, v in P.items()}
                    g, want = np.asarray(call(wc, r, p)), model(False, wc, r, p)
                    if list(g) != [bool(x) for x in want]:
                        return True, {"w": wc, "rho": r, "P": p, "got": g, "expected": want}
            return False, {}
        got = run_sym(call, w, rho, P, stubs=stubs)
        want = model(True, w, rho, P)
        e1 = R(P["e1"])
        ck.prove("test_full %d-lens" % nl, tm.band(*[tm.iff(x, y) for x, y in zip(got.a, want)]), [tm.gt(e1, ZERO), tm.lt(e1, ONE)], rep,
                 sides=(list(got.a), want))
        bad, d = rep({v.val: 0.3 for v in tm.free_vars(flat_terms((w, rho, P)))})
        if bad:
            ck.report("test_full/validate", {}, d)
            raise Stop()
        ck.validated += 31
