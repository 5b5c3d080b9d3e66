"""C18: polar cell sums of mag_uniform and mag_limb_dark."""

PROP = {
    "title": "Inverse-ray magnification is the polar cell sum over the image regions",
    "statement": "mag_uniform and mag_limb_dark trace the source limb and build the polar regions with the caller's lens, source and resolution, "
                 "and return the sum over the regions and over the r-theta grid between the region bounds (r_resolution x th_resolution nodes, "
                 "ends included; in a region of a full turn or more the angles are spaced so that the counted cells make up exactly one turn) "
                 "of r dr dtheta times the cell weight, divided by pi rho^2 (uniform) or rho^2 (limb-darkened with the normalised profile). "
                 "Uniform cells weigh 1 when both ends map into the source, the interpolated fraction (clipped to 0..1) when one does, 0 "
                 "otherwise; limb-darkened nodes weigh the profile there, times the boundary factor of the interpolated fraction next to an edge.",
    "over": ["inputs", "configurations"],
    "text": "all region bounds, all distances of the grid nodes from the source centre, all lens parameters, 2 and 3 lenses",
    "why": "tests compare a few magnifications at 1e-2..1e-3; off-by-one cells, dropped edge terms or a wrong frame can hide below that",
    "files": ["src/microjax/inverse_ray/extended_source.py"],
    "mech": [("uniform", "inverse_ray.extended_source.mag_uniform"), ("limb darkened", "inverse_ray.extended_source.mag_limb_dark")],
    "technique": "symbolic execution with limb, regions, node distances and edge interpolation as uninterpreted functions",
    "note": "2 regions, 2-3 radii, 5-6 angles (4 x 8 thorough); exact reals; the helpers are decided by C19, C20, C01-C07",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm

EPS = tm.const(F(1, 10 ** 10))


def run(ck):
    from microjax.inverse_ray import extended_source as es, merge_area as ma, boundary as bd, limb_darkening as li
    ck.encodes("inverse_ray.extended_source.mag_uniform", "inverse_ray.extended_source.mag_limb_dark", "inverse_ray.boundary.in_source")
    ck.ranges.update({"q": (0.1, 0.9), "q3": (0.1, 0.9), "s": (0.5, 1.5), "rho": (0.3, 0.9), "u1": (0.1, 0.9), "delta_c": (0.05, 0.9),
                      "D*": (0, 1), "R*": (-3, 6), "C*": (-0.5, 3.5), "*": (-1, 1)})
    ck.bound("2 regions; grids of 2-3 radii x 5-6 angles" + ("" if ck.quick else " (up to 4 x 8)"))
    ck.assume("limb tracing, region building, node distances, edge interpolation and profile enter as uninterpreted functions; masses positive, rho > 0")
    cfg = [(2, 5), (3, 6)] if ck.quick else [(2, 5), (3, 6), (2, 7), (4, 8)]
    for nl in (2, 3):
        for ld in (False, True):
            for nr, nth in cfg:
                case(ck, es, ma, bd, li, nl, ld, nr, nth)


def case(ck, es, ma, bd, li, nl, ld, nr, nth):
    M, N = 2, 3
    names = ("s", "q") if nl == 2 else ("s", "q", "q3", "r3", "psi")
    lens = ("a", "e1") if nl == 2 else ("a", "e1", "e2", "r3", "psi")
    nim = {2: 5, 3: 10}[nl]
    L = UF(ma.calc_source_limb, "L", ("w_center", "rho", "Nlimb", "nlenses") + names,
           [(lambda d: (nim, N), np.complex128), (lambda d: (nim, N), np.bool_)], static=("nlenses", "Nlimb"))
    Rg = UF(ma.define_regions, "R", ("image_limb", "mask_limb", "rho", "bins_r", "bins_th", "margin_r", "margin_th", "nlenses"),
            [(lambda d: (M, 2), np.float64), (lambda d: (M, 2), np.float64)], static=("nlenses", "bins_r", "bins_th"))
    Rg.mid, Rg.half = 1.0, 5.0
    D = EUF(bd.distance_from_source, "D", ("r0", "th_values", "w_center_shifted", "shifted", "nlenses") + lens, static=("nlenses",), freq=90.0, mid=0.6, half=0.6)
    C = EUF(es.cubic_interp, "C", ("x", "x0", "x1", "x2", "x3", "y0", "y1", "y2", "y3"), freq=40.0, mid=1.5, half=1.6)
    FB = EUF(bd.calc_facB, "F", ("delta_B", "delta_c"))
    IS = EUF(li.Is_limb_1st, "I", ("d", "u1"))
    stubs = [L, Rg, D, C] + ([FB, IS] if ld else [])
    w, rho, u1, dc = sym_cplx("w"), sym_real("rho"), sym_real("u1"), sym_real("delta_c")
    prm = {k: sym_real(k) for k in names}
    opt = dict(r_resolution=nr, th_resolution=nth, Nlimb=N, bins_r=7, bins_th=9, margin_r=0.25, margin_th=0.75)

    def call(w, rho, u1, dc, *p):
        kw = dict(zip(names, p))
        if ld:
            return es.mag_limb_dark(w, rho, nlenses=nl, u1=u1, delta_c=dc, **opt, **kw)
        return es.mag_uniform(w, rho, nlenses=nl, **opt, **kw)

    def model(sym, w, rho, u1, dc, p):
        """the cell sum, written over either terms or floats"""
        V = (lambda s: s.value) if sym else (lambda s: s.num)
        c_ = (lambda x: tm.const(F(x))) if sym else (lambda x: float(F(x)))
        r_ = R if sym else float
        wr = scal if sym else (lambda x: x)
        div = tm.div if sym else (lambda x, y: x / y)
        ite = tm.ite if sym else (lambda c, x, y: x if c else y)
        lt = tm.lt if sym else (lambda x, y: x < y)
        band = tm.band if sym else (lambda *c: all(c))
        bnot = tm.bnot if sym else (lambda c: not c)
        mn, mx = (tm.tmin, tm.tmax) if sym else (min, max)
        s, q = r_(p["s"]), r_(p["q"])
        q3 = r_(p["q3"]) if nl == 3 else c_(0)
        a, one = s * c_("1/2"), c_(1)
        tot = one + q + q3
        ln = {"a": wr(a), "e1": wr(div(q, tot))}
        if nl == 3:
            ln.update(e2=wr(div(one, tot)), r3=p["r3"], psi=p["psi"])
        sh = a * div(one - q, one + q)
        ws = scal(w.a[()] - Cx(sh, ZERO)) if sym else w - sh
        z, m = V(L)(w, rho, Nlimb=N, nlenses=nl, **p)
        rs, ths = V(Rg)(z, m, rho, bins_r=7, bins_th=9, margin_r=0.25, margin_th=0.75, nlenses=nl)
        g = lambda x, i, j: x.a[i, j] if sym else float(x[i, j])
        rho_ = r_(rho)
        turn = tm.scale(tm.var("pi"), F(2)) if sym else 2 * np.pi
        clip = lambda x: mn(mx(x, c_(0)), one)
        eps = c_(F(1, 10 ** 10))

        def interp(ds):
            v = V(C)(**dict(zip(("x", "x0", "x1", "x2", "x3"), [wr(x) for x in [rho_] + ds])), **{"y%d" % i: wr(c_(i)) for i in range(4)})
            return R(v) if sym else float(v)
        tot_ = c_(0)
        for k in range(M):
            r0, r1, t0, t1 = g(rs, k, 0), g(rs, k, 1), g(ths, k, 0), g(ths, k, 1)
            # a full turn: the counted cells (nodes) share 2 pi
            full, step = bnot(lt(t1 - t0, turn)), turn * c_(F(1, nth - (4 if ld else 3)))
            dr, dt = (r1 - r0) * c_(F(1, nr - 1)), ite(full, step, (t1 - t0) * c_(F(1, nth - 1)))
            for i in range(nr):
                r = r0 * c_(1 - F(i, nr - 1)) + r1 * c_(F(i, nr - 1))
                d = []
                for j in range(nth):
                    th = ite(full, t0 + step * c_(j), t0 * c_(1 - F(j, nth - 1)) + t1 * c_(F(j, nth - 1)))
                    v = V(D)(r0=wr(r), th_values=wr(th), w_center_shifted=ws, shifted=wr(sh), nlenses=nl, **ln)
                    d.append(R(v) if sym else float(v))
                ins = [lt(x, rho_) for x in d]
                row = c_(0)
                if not ld:
                    for j in range(1, nth - 2):
                        e = interp(d[j - 1:j + 3])
                        x, y = ins[j], ins[j + 1]
                        wgt = ite(x, ite(y, one, clip(e - one)), ite(y, clip(c_(2) - e), c_(0)))
                        row = row + wgt
                else:
                    for j in range(2, nth - 2):
                        b1, b2 = clip(c_(2) - interp(d[j - 2:j + 2])) + eps, clip(interp(d[j - 1:j + 3]) - one) + eps
                        f1, f2 = [V(FB)(delta_B=wr(b), delta_c=dc) for b in (b1, b2)]
                        I = V(IS)(d=wr(div(d[j], rho_)), u1=u1)
                        f1, f2, I = (R(f1), R(f2), R(I)) if sym else (float(f1), float(f2), float(I))
                        pr, me, nx = ins[j - 1], ins[j], ins[j + 1]
                        wgt = ite(me, ite(pr, ite(nx, one, f2), ite(nx, f1, c_(0))), c_(0))
                        row = row + I * wgt
                tot_ = tot_ + row * r * dt * dr
        return div(tot_, rho_ * rho_) if ld else div(tot_, rho_ * rho_ * (tm.var("pi") if sym else np.pi))

    def rep(env):
        fv = tm.free_vars(flat_terms((w, rho, u1, dc, prm)))
        with patched(stubs, "conc"):
            for e in [dict(ck.rand_env(fv), **env)] + [dict(ck.rand_env(fv)) for _ in range(12)]:
                c = [concretize(v, e) for v in (w, rho, u1, dc)]
                p = {k: float(concretize(prm[k], e)) for k in names}
                if min(p["q"], p.get("q3", 1)) <= 0 or float(c[1]) <= 0:
                    continue
                got = float(call(complex(c[0]), float(c[1]), float(c[2]), float(c[3]), *[p[k] for k in names]))
                want = model(False, complex(c[0]), float(c[1]), float(c[2]), float(c[3]), p)
                if abs(got - want) > 1e-6 * (abs(want) + 0.01):
                    return True, {"w": c[0], "rho": c[1], "u1": c[2], "delta_c": c[3], "params": p, "got": got, "expected": want}
        return False, {}
    tag = "%s %d-lens %dx%d" % ("limb-dark" if ld else "uniform", nl, nr, nth)
    got = run_sym(call, w, rho, u1, dc, *[prm[k] for k in names], stubs=stubs)
    want = model(True, w, rho, u1, dc, prm)
    asm = [tm.gt(R(rho), ZERO)] + [tm.gt(R(prm[k]), ZERO) for k in names if k in ("q", "q3")]
    if got.shape != ():
        ck.prove(tag + "/shape", FALSE, (), rep)
    ck.prove(tag, tm.eq(got.a[()], want), asm, rep, sides=([got.a[()]], [want]))
    bad, d = rep({})
    if bad:
        ck.report(tag + "/validate", {}, d)
        raise Stop()
    ck.validated += 13
