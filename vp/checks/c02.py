"""C02: every point image is a root of the polynomial the image solver hands to the root finder."""

PROP = {
    "title": "No image is lost: the image polynomial vanishes at every true image",
    "statement": "For every binary and triple lens and every source position, the polynomial given to the root finder has full "
                 "degree (5 or 10) and every solution of the lens equation is one of its roots after the frame shift that is "
                 "added back to the roots. The polynomial of each element of a batch of sources is that of the source alone.",
    "over": ["inputs", "configurations"],
    "text": "all binary lens parameters and image positions; for triples exact lens configurations with all sources, and lines in "
            "parameter space; batches of two",
    "why": "tests compare magnifications at a few configurations; a coefficient wrong in a small term loses an image only in rare geometries",
    "files": ["src/microjax/coeffs.py", "src/microjax/point_source.py"],
    "mech": [("binary coefficients", "coeffs._poly_coeffs_binary"), ("triple coefficients", "coeffs._poly_coeffs_triple_CM"),
             ("frame shift", "point_source._images_point_source")],
    "technique": "root-finder replaced by arbitrary numbers; polynomial identities in nonlinear real arithmetic",
    "note": "binary: all parameters and images; triple: six exact lens configurations x all sources plus one-parameter lines; exact reals",
}

from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, mk
from .. import term as tm

RANGES = {"z*": (-1.7, 1.7), "a": (0.2, 1.2), "e1": (0.05, 0.6), "e2": (0.05, 0.35), "r3": (0.2, 1.5), "psi": (-3, 3),
          "w*": (-1.5, 1.5), "y*": (-1.5, 1.5)}


def pmul(p, q):
    r = [Cx(ZERO, ZERO)] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q):
            r[i + j] = r[i + j] + x * y
    return r


def padd(p, q):
    n = max(len(p), len(q))
    p = [Cx(ZERO, ZERO)] * (n - len(p)) + p
    q = [Cx(ZERO, ZERO)] * (n - len(q)) + q
    return [x + y for x, y in zip(p, q)]


def pscale(k, p):
    return [k * y for y in p]


def ref_poly3(W, r, ms):
    """Image polynomial (highest first) of three lenses with masses ms (sum 1) at r, centre of mass at 0:
    (z-W) prod_i(D Wb_i + N) - D sum_i m_i prod_{j!=i}(D Wb_j + N),  N/D = sum_i m_i/(z-r_i)."""
    one = Cx(ONE, ZERO)
    s1 = (-(r[0] + r[1] + r[2]))
    s2 = (r[0] * r[1] + r[0] * r[2] + r[1] * r[2])
    s3 = (-(r[0] * r[1] * r[2]))
    m = [Cx(x, ZERO) for x in ms]
    d = (m[0] * r[1] * r[2] + m[1] * r[0] * r[2] + m[2] * r[0] * r[1])
    D, N = [one, s1, s2, s3], [one, s1, d]
    Wb = [(W - p).conj() for p in r]
    A = (Wb[0] + Wb[1] + Wb[2])
    B = (Wb[0] * Wb[1] + Wb[1] * Wb[2] + Wb[0] * Wb[2])
    C = (Wb[0] * Wb[1] * Wb[2])
    E = (m[0] * Wb[1] * Wb[2] + m[1] * Wb[0] * Wb[2] + m[2] * Wb[0] * Wb[1])
    D2 = pmul(D, D)
    D3 = pmul(D2, D)
    N2 = pmul(N, N)
    N3 = pmul(N2, N)
    prod = padd(padd(pscale(C, D3), pscale(B, pmul(D2, N))), padd(pscale(A, pmul(D, N2)), N3))
    rhs = padd(padd(pscale(E, D3), pscale(A - W.conj(), pmul(D2, N))), pmul(D, N2))
    return padd(pmul([one, -W], prod), [-x for x in rhs])


def capture(ck, w, nl, P, deg, cuts=None, name="y"):
    """Run _images_point_source with poly_roots replaced by 'returns arbitrary numbers'."""
    from microjax.point_source import _images_point_source
    from microjax.poly_solver import poly_roots
    seen = []

    def out(coeffs, *a, **k):
        return jax.ShapeDtypeStruct(coeffs.shape[:-1] + (coeffs.shape[-1] - 1,), np.complex128)

    def sym(coeffs, *a, **k):
        seen.append(coeffs)
        return sym_cplx(name, coeffs.shape[:-1] + (coeffs.shape[-1] - 1,))
    st = Stub(poly_roots, out, sym, static=("custom_init",))
    it = Interp(hooks=StubHooks([st]), cuts=cuts)
    with patched([st]):
        z, mask = it.call(lambda w, P: _images_point_source(w, nlenses=nl, **P), w, P)
    ck.note_encoding(None, it)
    if len(seen) != 1:
        raise Inconclusive("poly_roots called %d times" % len(seen))
    assert seen[0].shape[-1] == deg + 1, seen[0].shape
    return seen[0], z, mask, it


def real_poly(w, nl, P):
    """Coefficients the real code hands to poly_roots and the shift it adds to the roots."""
    from microjax.point_source import _images_point_source
    from microjax.poly_solver import poly_roots
    got = {}

    def conc(c, *a, **k):
        got["c"] = np.asarray(c)
        return np.zeros(c.shape[:-1] + (c.shape[-1] - 1,), complex)
    st = Stub(poly_roots, lambda c, *a, **k: jax.ShapeDtypeStruct(c.shape[:-1] + (c.shape[-1] - 1,), np.complex128), None, conc,
              static=("custom_init",))
    with patched([st], "conc"):
        z, m = _images_point_source(jnp.asarray(w), nlenses=nl, **P)
        z = np.asarray(z)
    return got["c"], np.moveaxis(z, 0, -1)


def replay_root(nl, P):
    """concrete check: is the true image a root?"""
    from microjax.point_source import lens_eq

    def rep(env):
        p = {k: float(v) for k, v in concretize(P, env).items()}
        pos = [p["a"], -p["a"]] + ([p["r3"] * np.exp(1j * p["psi"])] if nl == 3 else [])
        ms = [p["e1"], 1 - p["e1"]] if nl == 2 else [p["e1"], p["e2"], 1 - p["e1"] - p["e2"]]
        z = complex(env["z.re"], env["z.im"])
        w = z - sum(m / (z.conjugate() - np.conj(q)) for m, q in zip(ms, pos))
        c, sh = real_poly(w, nl, p)
        if not np.all(np.isfinite(c)):
            return True, {"coeffs": c}
        y = z - sh.ravel()[0]
        v = abs(np.polyval(c, y))
        scale = float(np.polyval(np.abs(c), abs(y)))
        bad = v > 1e-7 * scale or np.ptp(np.abs(sh - sh.ravel()[0])) > 1e-9 or scale == 0 or c.shape[-1] != nl * nl + 2
        return bool(bad), {"z": z, "w": w, "params": p, "residual": v / scale, "coeffs": c, "shift": sh.ravel()[0]}
    return rep


def run(ck):
    import microjax.point_source  # noqa
    ck.encodes("point_source._images_point_source", "coeffs._poly_coeffs_binary", "coeffs._poly_coeffs_triple_CM")
    ck.ranges.update(RANGES)
    ck.assume("poly_roots is replaced by a stub returning arbitrary complex numbers; floats are exact reals; images off the lenses")
    ck.bound("2 and 3 lenses, any real lens parameters and any image position; scalar source and a batch of 2 sources")

    # ------------------------------------------------ binary: P(z; w=lens(z)) == 0
    P, L = lens_params(2)
    z = sym_cplx("z")
    zz = z.a[()]
    wsym = sym_cplx("w")
    w = lens_map(zz, L)
    asm = off_lens(zz, L)
    c, zo, mask, _ = capture(ck, wsym, 2, P, 5)
    y = sym_cplx("y", (5,))
    rep = replay_root(2, P)
    at = {wsym.a[()].re: w.re, wsym.a[()].im: w.im}
    sh = zo.a[0] - y.a[0]
    for k in range(1, 5):
        d = zo.a[k] - y.a[k] - sh
        ck.prove("binary/shift[%d]" % k, tm.band(tm.eq(d.re, ZERO), tm.eq(d.im, ZERO)), (), rep)
    x = zz - sh
    v = c.a[0]
    for k in c.a[1:]:
        v = v * x + k
    re, im = tm.subst([v.re, v.im], at)
    ck.prove("binary/root.re", tm.eq(re, ZERO), asm, rep)
    ck.prove("binary/root.im", tm.eq(im, ZERO), asm, rep)
    lead = c.a[0]
    ck.prove("binary/leading", tm.ne(lead.norm2(), ZERO), off_lens(wsym.a[()], L),
             lambda env: (abs(real_poly(complex(env["w.re"], env["w.im"]), 2, {"a": env["a"], "e1": env["e1"]})[0][..., 0]) < 1e-12, {}))
    ck.reachable("binary", asm)
    batch(ck, 2, P, 5, c, wsym)

    # ------------------------------------------------ triple
    P, L = lens_params(3)
    rep3 = replay_root(3, P)
    e3 = ONE - R(P["e1"]) - R(P["e2"])
    triple_points(ck, P, L, rep3)
    ck.reachable("triple", [tm.ne(e3, ZERO)] + off_lens(zz, L))
    c, zo, mask, _ = capture(ck, wsym, 3, P, 10)
    batch(ck, 3, P, 10, c, wsym)
    # numeric validation of the encoding and of the reference
    for k in range(3):
        env = ck.rand_env(tm.free_vars(flat_terms(P)) + [tm.var("w.re"), tm.var("w.im"), tm.var("z.re"), tm.var("z.im")])
        p = {k: float(v) for k, v in concretize(P, env).items()}
        cr, _ = real_poly(complex(env["w.re"], env["w.im"]), 3, p)
        if not close(cr, concretize(c, env), 1e-8, 1e-9):
            raise Inconclusive("triple coefficient encoding")
        ck.validated += 1
        bad, d = rep3(env)
        if bad:
            ck.report("triple/validate", env, d)
            raise Stop()


def batch(ck, nl, P, deg, c, wsym):
    """coefficients of a batch are the coefficients of its members"""
    wv = sym_cplx("w", (2,))
    cv, zv, mv, _ = capture(ck, wv, nl, P, deg)
    if cv.shape != (2, deg + 1):
        ck.prove("n%d/batch-shape" % nl, tm.FALSE, (), lambda env: (True, {"shape": cv.shape}))
    terms = []
    for x in c.a:
        terms += [x.re, x.im]
    w0 = wsym.a[()]
    for i in range(2):
        s = tm.subst(terms, {w0.re: wv.a[i].re, w0.im: wv.a[i].im})

        def rep(env, i=i):
            p = {k: float(v) for k, v in concretize(P, env).items()}
            w = np.array([complex(env["w_%d.re" % k], env["w_%d.im" % k]) for k in range(2)])
            cv = real_poly(w, nl, p)[0]
            c1 = real_poly(w[i], nl, p)[0]
            return not close(cv[i], c1, 1e-8, 1e-10), {"batch": cv[i], "single": c1}
        g = []
        for k in range(deg + 1):
            e = cv.a[i, k]
            g += [tm.eq(e.re, s[2 * k]), tm.eq(e.im, s[2 * k + 1])]
        ck.prove("n%d/batch[%d]" % (nl, i), tm.band(*g), (), rep)


CONFIGS = [(F(1, 2), F(3, 5), F(4, 5), F(7, 10), F(1, 4), F(1, 3)), (F(3, 4), F(-5, 13), F(12, 13), F(11, 10), F(1, 10), F(4, 5)),
           (F(2, 5), F(8, 17), F(-15, 17), F(2, 5), F(1, 3), F(1, 2)), (F(1), F(-3, 5), F(-4, 5), F(9, 5), F(2, 5), F(1, 5)),
           (F(5, 4), F(1), F(0), F(3, 10), F(3, 10), F(3, 5)), (F(1, 3), F(0), F(1), F(5, 2), F(1, 50), F(9, 10))]
WS = [(F(1, 3), F(2, 7)), (F(-4, 5), F(1, 9)), (F(3, 11), F(-6, 5)), (F(0), F(1, 2)), (F(-7, 10), F(-1, 6)), (F(5, 6), F(0))]


def triple_points(ck, P, L, rep):
    """The coefficients are proportional to those of the reference polynomial: (i) exact lens configurations and every
    source position, (ii) lines through parameter space: one lens parameter takes every value, the rest are exact."""
    ck.bound("triple coefficients: %d exact lens configurations x every source position; %d x 4 lines on which one of "
             "a, r3, e1, e2 takes every real value" % (len(CONFIGS), 2 if ck.quick else len(CONFIGS)))
    wsym = sym_cplx("w")
    c, zo, mask, _ = capture(ck, wsym, 3, P, 10)
    y = sym_cplx("y", (10,))
    s0 = zo.a[0] - y.a[0]
    for k in range(1, 10):
        d = zo.a[k] - y.a[k] - s0
        ck.prove("triple/shift[%d]" % k, tm.band(tm.eq(d.re, ZERO), tm.eq(d.im, ZERO)), (), rep)
    lead = None
    for n, cfg in enumerate(CONFIGS):
        modes = ["w"] + (["a", "r3", "e1", "e2"] if (n < 2 or not ck.quick) else [])
        for mode in modes:
            a, cs, sn, r3s, e1, e2 = cfg
            val = {"a": a, "r3": r3s, "e1": e1, "e2": e2}
            fixed = {k: (tm.var(k) if k == mode else tm.const(v)) for k, v in val.items()}
            sub = {tm.var(k): v for k, v in fixed.items() if k != mode}
            sub[tm.fn("cos", tm.var("psi"))] = tm.const(cs)
            sub[tm.fn("sin", tm.var("psi"))] = tm.const(sn)
            # replay needs the full point
            base = {k: float(v) for k, v in val.items()}
            base["psi"] = math.atan2(float(sn), float(cs))
            w = wsym.a[()]
            if mode != "w":
                wr, wi = WS[n]
                sub[w.re], sub[w.im] = tm.const(wr), tm.const(wi)
                w = Cx(tm.const(wr), tm.const(wi))
                base["w.re"], base["w.im"] = float(wr), float(wi)

            def rep_(env, base=base):
                env = dict(base, **env)
                for k in ("a", "r3"):
                    if not 0.05 < env[k] < 5:
                        env[k] = base[k]
                for t in range(4):
                    e = dict(env)
                    e.setdefault("z.re", ck.rng.uniform(-2, 2))
                    e.setdefault("z.im", ck.rng.uniform(-2, 2))
                    r_ = rep(e)
                    if r_[0]:
                        env.update(e)
                        return r_
                return r_
            pos = [Cx(fixed["a"], ZERO), Cx(-fixed["a"], ZERO), Cx(tm.scale(fixed["r3"], cs), tm.scale(fixed["r3"], sn))]
            ms = [fixed["e1"], fixed["e2"], ONE - fixed["e1"] - fixed["e2"]]
            sre, sim = tm.subst([s0.re, s0.im], sub)
            cmx = Cx(ZERO, ZERO)
            for m, p in zip(ms, pos):
                cmx = cmx + Cx(m, ZERO) * p
            nm = "triple/cfg%d-%s" % (n, mode)
            ck.prove(nm + "/shift", tm.band(tm.eq(sre, cmx.re), tm.eq(sim, cmx.im)), (), rep_)
            ref = ref_poly3(w - cmx, [p - cmx for p in pos], ms)
            got = []
            for x in c.a:
                re, im = tm.subst([x.re, x.im], sub)
                got.append(Cx(re, im))
            for k in range(1, 11):
                d = got[k] * ref[0] - ref[k] * got[0]
                ck.prove(nm + "/ratio%d" % k, tm.band(tm.eq(d.re, ZERO), tm.eq(d.im, ZERO)), (), rep_, slices=2)
            # not the zero polynomial while the true one has full degree
            ck.prove(nm + "/leading", tm.bor(tm.ne(got[0].norm2(), ZERO), tm.eq(ref[0].norm2(), ZERO)), (), rep_, slices=2)
