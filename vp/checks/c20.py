"""C20: source limb and polar regions of the inverse-ray integrator."""

PROP = {
    "title": "Polar regions contain every traced limb image and never overlap",
    "statement": "calc_source_limb traces the circle of radius rho around the caller's source position with the caller's lens and hands every "
                 "image back in the frame centred on the centre of mass shift. For every set of limb images, define_regions returns r-theta rectangles such that each visible image lies in one of them with at least "
                 "the radial and angular margin around it, no two of them overlap (modulo full turns), each contains a visible image, and "
                 "unused rectangles are empty.",
    "over": ["inputs", "configurations"],
    "text": "all positions of up to 2 limb images (3 thorough), all patterns of visible images, all source radii, all lens parameters",
    "why": "tests run a few smooth geometries; an image lost or counted twice needs particular gaps, wrap-around at theta=0 or merged radii",
    "files": ["src/microjax/inverse_ray/merge_area.py"],
    "mech": [("limb", "inverse_ray.merge_area.calc_source_limb"), ("regions", "inverse_ray.merge_area.define_regions")],
    "technique": "path-wise symbolic execution (angular bin and radial order of every image), linear real arithmetic",
    "note": "2-3 images, 2-4 bins, images not exactly on a bin edge; exact reals; angular margin less than half a bin",
}

import itertools
import jax
import jax.numpy as jnp

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, mk
from .. import term as tm


def run(ck):
    from microjax.inverse_ray import merge_area as ma
    from microjax import point_source as ps
    ck.encodes("inverse_ray.merge_area.calc_source_limb", "inverse_ray.merge_area.define_regions", "inverse_ray.merge_area.cluster_1d",
               "inverse_ray.merge_area._refine_addmargin_merge_r", "inverse_ray.merge_area._compute_in_mask", "inverse_ray.merge_area._merge_final",
               "inverse_ray.merge_area._refine_final")
    ck.ranges.update({"q": (0.1, 0.9), "q3": (0.1, 0.9), "s": (0.5, 1.5), "rho": (0.05, 0.9), "*": (-1, 1)})
    ck.bound("2 limb images with 2-3 radial and 3-4 angular bins, selected patterns of 3-4 images with 3-5 radial bins" + ("" if ck.quick else "; 3 images with 3 radial and 3 angular bins"))
    ck.assume("images not exactly on a bin edge or on the positive x axis; rho > 0; exact reals; image solver as an uninterpreted function")
    limb(ck, ma, ps)
    for nl in (2, 3):
        for mask in ((1, 1), (1, 0)):
            for br, bt in [(2, 4), (3, 3)]:
                if nl == 2 or bt == 4 or not ck.quick:
                    regions(ck, ma, nl, mask, br, bt)
    # several rings, each crossing theta = 0
    id4 = (0, 1, 2, 3)
    regions(ck, ma, 2, (1, 1, 1), 3, 4, [(b, (0, 1, 2), (m,)) for b in ((0, 3, 0), (0, 3, 3), (0, 0, 0), (0, 2, 3)) for m in range(3)])
    regions(ck, ma, 2, (1, 1, 1, 1), 3, 4, [(b, id4, m) for b in ((0, 3, 0, 3), (3, 0, 0, 3), (0, 3, 0, 2)) for m in ((0, 1), (0, 2), (1, 1))])
    # three separate radial ranges, joined by their margins
    regions(ck, ma, 2, (1, 1, 1), 5, 4, [(b, (0, 1, 2), (2,)) for b in ((1, 1, 1), (1, 0, 1))])
    # six images far apart from each other: more than the rectangles a binary lens provides
    regions(ck, ma, 2, (1,) * 6, 11, 12, [((0, 2, 4, 6, 8, 10), tuple(range(6)), (2, 4, 6, 8))], far=True, name="regions/2-lens_budget")
    if not ck.quick:
        regions(ck, ma, 2, (1, 1, 1), 3, 3)
        regions(ck, ma, 3, (1, 1, 1, 1), 4, 4, [(b, id4, m) for b in itertools.product((0, 2, 3), repeat=4) for m in ((0, 1), (0, 3), (1, 2), (2, 2))])


def limb(ck, ma, ps):
    N = 5
    w, rho = sym_cplx("w"), sym_real("rho")
    for nl in (2, 3):
        names = ("s", "q") if nl == 2 else ("s", "q", "q3", "r3", "psi")
        prm = {k: sym_real(k) for k in names}
        nim = {2: 5, 3: 10}[nl]
        lens = ("a", "e1") if nl == 2 else ("a", "e1", "e2", "r3", "psi")
        P = UF(ps._images_point_source, "P", ("w", "nlenses") + lens,
               [(lambda d: (nim,) + d["w"].shape, np.complex128), (lambda d: (nim,) + d["w"].shape, np.bool_)], static=("nlenses",))
        P.tol = 1e-13
        call = lambda w, rho, *p: ma.calc_source_limb(w, rho, Nlimb=N, nlenses=nl, **dict(zip(names, p)))

        def model(sym, w, rho, p):
            r_ = R if sym else float
            c_ = (lambda x: tm.const(F(x))) if sym else (lambda x: float(F(x)))
            div = tm.div if sym else (lambda x, y: x / y)
            wr = scal if sym else (lambda x: x)
            s, q = r_(p["s"]), r_(p["q"])
            a = s * c_("1/2")
            tot = c_(1) + q + (r_(p["q3"]) if nl == 3 else c_(0))
            k = {"a": wr(a), "e1": wr(div(q, tot))}
            if nl == 3:
                k.update(e2=wr(div(c_(1), tot)), r3=p["r3"], psi=p["psi"])
            xc = a * div(c_(1) - q, c_(1) + q)
            ws = []
            for i in range(N):
                if sym:
                    t = tm.PI * tm.const(F(2 * i, N - 1))
                    ws.append(w.a[()] + Cx(R(rho) * tm.fn("cos", t) - xc, R(rho) * tm.fn("sin", t)))
                else:
                    ws.append(w + rho * np.exp(2j * np.pi * i / (N - 1)) - xc)
            ws = mk(ws, (N,), np.complex128) if sym else np.array(ws)
            z, m = (P.value if sym else P.num)(ws, nlenses=nl, **k)
            if sym:
                return mk([x + Cx(xc, ZERO) for x in z.a.reshape(-1)], z.shape, np.complex128), m
            return np.asarray(z) + xc, np.asarray(m)

        def rep(env):
            fv = tm.free_vars(flat_terms((w, rho, prm)))
            with patched([P], "conc"):
                for e in [dict(ck.rand_env(fv), **env)] + [dict(ck.rand_env(fv)) for _ in range(12)]:
                    c = [concretize(v, e) for v in (w, rho)]
                    p = {k: float(concretize(prm[k], e)) for k in names}
                    if min(p["q"], p.get("q3", 1)) <= 0:
                        continue
                    got = call(complex(c[0]), float(c[1]), *[p[k] for k in names])
                    want = model(False, complex(c[0]), float(c[1]), p)
                    if not close(got, want, 1e-6, 1e-7):
                        return True, {"w": c[0], "rho": c[1], "params": p, "got": jsonable(got), "expected": jsonable(want)}
            return False, {}
        tag = "limb/%d-lens" % nl
        got = run_sym(call, w, rho, *[prm[k] for k in names], stubs=[P])
        want = model(True, w, rho, prm)
        asm = [tm.gt(R(prm[k]), ZERO) for k in names if k in ("q", "q3")]
        try:
            pairs = eq_list(got, want)
        except ShapeMismatch:
            ck.prove(tag, FALSE, (), rep)
            continue
        ck.prove(tag, tm.band(*[tm.iff(a, b) if tm.is_bool(a) else tm.eq(a, b) for a, b in pairs]), asm, rep)
        bad, d = rep({})
        if bad:
            ck.report(tag + "/validate", {}, d)
            raise Stop()
        ck.validated += 13


EPS = tm.const(F(1, 10 ** 6))
TWO_PI = tm.scale(tm.PI, F(2))


def regions(ck, ma, nl, mask, br, bt, pick=None, far=False, name=None):
    N = len(mask)
    mr, mt = F(1, 2), F(1, 2)
    z, rho = sym_cplx("z", (1, N)), sym_real("rho")
    vis = [i for i in range(N) if mask[i]]
    rs = [tm.var("r%d" % i) for i in range(N)]
    ts = [tm.var("t%d" % i) for i in range(N)]
    cuts = {}
    for i in range(N):
        c = z.a[0, i]
        cuts[tm.sqrt(c.norm2())] = rs[i]
        cuts[tm.fn("atan2", c.im, c.re)] = ts[i]
    mk_ = np.array([mask], bool)
    call = lambda z, rho: ma.define_regions(z, jnp.asarray(mk_), rho, bins_r=br, bins_th=bt, margin_r=float(mr), margin_th=float(mt), nlenses=nl)
    m_r, m_t = tm.scale(R(rho), mr), tm.scale(tm.PI, mt / 180)
    tag0 = "regions/%d-lens %s %dx%d" % (nl, "".join(map(str, mask)), br, bt)

    def holds(rr, tt, r, t, mr_, mt_):
        """the property on numbers; None or a description of what fails"""
        eps = 1e-7
        K = len(rr)
        live = [k for k in range(K) if rr[k][1] > eps]
        for k in range(K):
            if k not in live and (abs(rr[k][0]) > eps or abs(rr[k][1]) > eps):
                return "rectangle %d is not empty" % k
        own = {k: False for k in live}
        for i in vis:
            ok = False
            for k in live:
                if rr[k][0] <= max(0.0, r[i] - mr_) + eps and rr[k][1] >= r[i] + mr_ - eps:
                    for s in (-2 * np.pi, 0, 2 * np.pi):
                        if tt[k][0] <= t[i] + s - mt_ + eps and tt[k][1] >= t[i] + s + mt_ - eps:
                            ok = own[k] = True
            if not ok:
                return "image %d is in no rectangle" % i
        if not all(own.values()):
            return "a rectangle holds no image"
        for k, l in itertools.combinations(live, 2):
            for s in (-2 * np.pi, 0, 2 * np.pi):
                o = min(rr[k][1], rr[l][1]) - max(rr[k][0], rr[l][0])
                p = min(tt[k][1] + s, tt[l][1]) - max(tt[k][0] + s, tt[l][0])
                if o > eps and p > eps:
                    return "rectangles %d and %d overlap" % (k, l)
        return None

    def rep(env):
        r = [float(env["r%d" % i]) for i in range(N)]
        t = [float(env["t%d" % i]) for i in range(N)]
        h = float(env["rho"])
        for k in range(6):
            # also nearby points
            f = 0 if k == 0 else 10.0 ** -(8 - k)
            r_ = [abs(x) * (1 + f * ck.rng.uniform(-1, 1)) for x in r]
            t_ = [x + f * ck.rng.uniform(-1, 1) for x in t]
            zz = np.array([[x * np.exp(1j * y) for x, y in zip(r_, t_)]])
            rr, tt = call(jnp.asarray(zz), h)
            why = holds(np.asarray(rr), np.asarray(tt), r_, [y % (2 * np.pi) for y in t_], float(mr) * h, float(np.deg2rad(float(mt))))
            if why:
                return True, {"image_limb": jsonable(zz), "visible": list(mask), "rho": h, "bins_r": br, "bins_th": bt, "what": why,
                              "r_scan": jsonable(rr), "th_scan": jsonable(tt)}
        return False, {}
    # paths: the angular bin of every visible image, the radial order, the radial bin of the inner ones
    base = [tm.gt(R(rho), tm.const(F(1, 1000))), tm.lt(R(rho), tm.const(10)), tm.lt(tm.const(F("3.1415926535897")), tm.PI), tm.lt(tm.PI, tm.const(F("3.1415926535898")))]
    traced = {}
    if pick is None:
        pick = [(b, o, m) for b in itertools.product(range(bt), repeat=len(vis)) for o in itertools.permutations(vis)
                for m in itertools.combinations_with_replacement(range(br), max(0, len(vis) - 2))]
    for bins, order, mid in pick:
        # an angular bin that contains pi: either sign of the argument
        split = [(False, True) if 2 * b < bt < 2 * b + 2 and 2 * b + 1 == bt else (2 * b >= bt,) for b in bins]
        for ups in itertools.product(*split):
            asm = list(base)
            th = {}
            for i, b, up in zip(vis, bins, ups):
                lo, hi = tm.scale(TWO_PI, F(b, bt)), tm.scale(TWO_PI, F(b + 1, bt))
                th[i] = ts[i] + TWO_PI if up else ts[i]
                asm += [tm.gt(th[i], lo + EPS), tm.lt(th[i], hi - EPS), tm.gt(ts[i], tm.scale(tm.PI, F(-1))), tm.lt(ts[i], tm.PI), tm.lt(ts[i], ZERO) if up else tm.gt(ts[i], ZERO)]
            if far:
                for k, i in enumerate(order):
                    c = tm.scale(TWO_PI, F(2 * bins[k] + 1, 2 * bt))
                    asm += [tm.gt(rs[i], tm.const(1 + k)), tm.lt(rs[i], tm.const(F(101 + 100 * k, 100))),
                            tm.lt(th[i], c + tm.const(F(1, 100))), tm.gt(th[i], c - tm.const(F(1, 100)))]
                asm += [tm.gt(R(rho), tm.const(F(1, 10))), tm.lt(R(rho), tm.const(F(1, 9)))]
            asm.append(tm.gt(rs[order[0]], tm.const(F(1, 100))))
            asm.append(tm.lt(rs[order[-1]], tm.const(100)))
            for a, b in zip(order, order[1:]):
                asm.append(tm.lt(rs[a] + EPS, rs[b]))
            r0, r1 = tm.scale(rs[order[0]], 1 - F(1, 10 ** 9)), tm.scale(rs[order[-1]], 1 + F(1, 10 ** 9))
            for i, b in zip(order[1:-1], mid):
                d = r1 - r0
                asm += [tm.gt(rs[i], r0 + tm.scale(d, F(b, br)) + EPS), tm.lt(rs[i], r0 + tm.scale(d, F(b + 1, br)) - EPS)]
            # whether neighbouring images are within two margins of each other, whether the margin reaches the origin
            forks = [(tm.lt(rs[b] - rs[a], tm.scale(m_r, 2) - EPS), tm.lt(tm.scale(m_r, 2) + EPS, rs[b] - rs[a])) for a, b in zip(order, order[1:])]
            forks += [(tm.lt(rs[i], m_r - EPS), tm.lt(m_r + EPS, rs[i])) for i in order]
            for ch in itertools.product((False,) if far else (True, False), repeat=len(forks)):
                fk = [c[not v] for c, v in zip(forks, ch)]
                tag = "%s theta=%s r=%s%s %s" % (tag0, "".join("%d%s" % (b, "-" if u else "") for b, u in zip(bins, ups)), "".join(map(str, order)), "".join(":%d" % b for b in mid),
                                                 "".join("ny"[v] for v in ch))
                case(ck, name or tag, call, z, rho, cuts, asm + fk, rep, vis, rs, th, m_r, m_t, traced)


def case(ck, tag, call, z, rho, cuts, asm, rep, vis, rs, th, m_r, m_t, traced):
    if ck.only is not None:
        ck.prove(tag, TRUE, (), rep)
        return
    dec = Decider(asm)
    if not dec.envs:
        return
    it = Interp(cuts=cuts)
    it.traced = traced
    with tm.deciding(dec):
        rr, tt = run_sym(call, z, rho, interp=it)
    K = rr.shape[0]
    lo, hi = [rr.a[k, 0] for k in range(K)], [rr.a[k, 1] for k in range(K)]
    tl, th_ = [tt.a[k, 0] for k in range(K)], [tt.a[k, 1] for k in range(K)]
    live = [tm.gt(h, ZERO) for h in hi]
    turns = [tm.scale(TWO_PI, F(s)) for s in (-1, 0, 1)]
    inside = {}
    for i in vis:
        for k in range(K):
            inner = tm.bor(tm.le(lo[k], ZERO), tm.le(lo[k], rs[i] - m_r))
            inside[i, k] = tm.band(live[k], inner, tm.ge(hi[k], rs[i] + m_r),
                                   tm.bor(*[tm.band(tm.le(tl[k], th[i] + s - m_t), tm.ge(th_[k], th[i] + s + m_t)) for s in turns]))
    goal = [tm.bor(*[inside[i, k] for k in range(K)]) for i in vis]
    for k in range(K):
        goal.append(tm.bor(live[k], tm.band(tm.eq(lo[k], ZERO), tm.eq(hi[k], ZERO))))
        goal.append(tm.bor(tm.bnot(live[k]), *[inside[i, k] for i in vis]))
        for l in range(k):
            apart = tm.bor(tm.le(hi[k], lo[l]), tm.le(hi[l], lo[k]),
                           tm.band(*[tm.bor(tm.le(th_[k] + s, tl[l]), tm.le(th_[l], tl[k] + s)) for s in turns]))
            goal.append(tm.bor(tm.bnot(live[k]), tm.bnot(live[l]), apart))
    ck.prove(tag, tm.band(*goal), asm, rep, tactics=[], slices=1)
