"""C08: multipole (hexadecapole) approximation is the exact Taylor expansion of the finite-source magnification."""

PROP = {
    "title": "Multipole magnification is the exact 4th-order expansion of the disk average",
    "statement": "For each valid image the finite-source multipole value is |mu + mu_quad + mu_hex|, where mu = 1/det J and the two "
                 "corrections are the exact rho^2 and rho^4 Taylor terms of the average of 1/det J over a source disk with linear limb "
                 "darkening u1 (1/8 and 1/192 of Laplacian and bi-Laplacian in the source plane for u1 = 0). Images marked invalid "
                 "contribute nothing, images are summed, and the second output is the sum of the absolute corrections.",
    "over": ["inputs", "configurations"],
    "text": "all image positions, lens parameters (1-3 lenses), radii, limb-darkening coefficients and image masks",
    "why": "tests compare a few configurations at loose tolerance; one wrong factor among the ~60 terms hides in the truncation error",
    "files": ["src/microjax/multipole.py"],
    "mech": [("derivatives of the deflection", "multipole.mag_hexadecapole"), ("expansion", "multipole._mag_hexadecapole_cassan")],
    "technique": "polynomial identity between the real code and a mechanically derived Laplacian of 1/det J, nonlinear real arithmetic",
    "note": "all real parameters, off the lenses and off the critical curve; 2 images, sources of shape () and (2,); exact reals",
}

from collections import defaultdict
from ..check import *
from ..ref import *
from ..interp import Interp, sym_cplx, sym_real, sym_bool, mk
from .. import term as tm
from ..term import const

# Polynomials over (mu, W2..W6, conj W2..W6), W_k = S^(k-1)(z) with w = z - conj(S(z)): dict exponent tuple -> rational.


def _add(a, b):
    r = defaultdict(F, a)
    for k, v in b.items():
        r[k] += v
    return r


def _times(p, idx):
    r = defaultdict(F)
    for e, c in p.items():
        n = list(e)
        for i in idx:
            n[i] += 1
        r[tuple(n)] += c
    return r


def _dz(p, bar):
    """d/dz (or d/dconj z): W_k -> W_(k+1), mu -> mu^2 W3 conj(W2)."""
    out = defaultdict(F)
    o, other = (6, 1) if bar else (1, 6)
    for e, c in p.items():
        if e[0]:
            n = list(e)
            n[0] += 1
            n[o + 1] += 1
            n[other] += 1
            out[tuple(n)] += c * e[0]
        for k in range(4):
            if e[o + k]:
                n = list(e)
                n[o + k] -= 1
                n[o + k + 1] += 1
                out[tuple(n)] += c * e[o + k]
    return out


def _dw(p, bar):
    """derivative along the source plane: d/dw = mu (d/dz + W2 d/dzbar), and its conjugate"""
    a, b = _dz(p, False), _dz(p, True)
    return _times(_add(_times(a, [6]), b), [0]) if bar else _times(_add(a, _times(b, [1])), [0])


def laplacians():
    m = {tuple([1] + [0] * 10): F(1)}
    t1 = _dw(_dw(m, False), True)
    return t1, _dw(_dw(t1, False), True)


def ev(p, mu, w):
    s = Cx(ZERO, ZERO)
    for e, c in p.items():
        if not c:
            continue
        t = Cx(tm.scale(tm.powi(mu, e[0]), c), ZERO)
        for k in range(5):
            for _ in range(e[1 + k]):
                t = t * w[k]
            for _ in range(e[6 + k]):
                t = t * w[k].conj()
        s = s + t
    return s.re


def cpow(z, k):
    """z^k by squaring"""
    if k == 1:
        return z
    h = cpow(z, k // 2)
    return h * h * z if k % 2 else h * h


def deflection_derivs(z, lenses):
    """[S', S'', ..., S^(5)](z) for S = sum m/(z-p)"""
    out = []
    f = 1
    for k in range(2, 7):
        f *= (k - 1)
        s = Cx(ZERO, ZERO)
        for m, p in lenses:
            s = s + Cx(m, ZERO) / cpow(z - p, k)
        out.append(Cx(tm.scale(s.re, f * (-1) ** (k - 1)), tm.scale(s.im, f * (-1) ** (k - 1))))
    return out


def run(ck):
    from microjax.multipole import mag_hexadecapole
    ck.encodes("multipole.mag_hexadecapole", "multipole._mag_hexadecapole_cassan")
    ck.ranges.update({"z*": (-1.5, 1.5), "a": (0.3, 0.9), "e1": (0.1, 0.6), "e2": (0.1, 0.35), "r3": (0.3, 1.2), "psi": (-3, 3),
                      "rho": (0.01, 0.3), "u1": (0.0, 0.9), "W*": (-0.6, 0.6), "V*": (-1, 1)})
    ck.bound("1-3 lenses; two images; source shapes () and (2,)")
    ck.assume("the five derivatives of the deflection at an image are taken as independent complex numbers once proved equal to the "
              "code's (a generalisation); exact reals; images off the lenses and off the critical curve")
    t1, t2 = laplacians()
    rho, u1 = sym_real("rho"), sym_real("u1")
    G = tm.div(tm.scale(R(u1), 2), const(3) - R(u1))
    r2 = tm.powi(R(rho), 2)

    for nl in (1, 2, 3):
        P, lenses = lens_params(nl)
        for shape in ((2,), (2, 2)):
            z = sym_cplx("z", shape)
            zm = sym_bool("on", shape)
            tag = "%d-lens/%s" % (nl, "scalar" if len(shape) == 1 else "batch")
            f = lambda z, zm, rho, u1, P, nl=nl: mag_hexadecapole(z, zm, rho, u1=u1, nlenses=nl, **P)
            cuts, W = {}, {}
            for ix in np.ndindex(*shape):
                ws = deflection_derivs(z.a[ix], lenses)
                W[ix] = []
                for k, d in enumerate(ws):
                    nm = "W%d_%s" % (k + 2, "_".join(map(str, ix)))
                    v = Cx(tm.var(nm + ".re"), tm.var(nm + ".im"))
                    cuts[d.re], cuts[d.im] = v.re, v.im
                    W[ix].append(v)

            def rep(env, shape=shape, nl=nl, P=P, f=f, z=z, zm=zm):
                """independent numerical value: Taylor terms from the same derivatives, in floats"""
                za, ma, r, u = concretize(z, env), concretize(zm, env), float(concretize(rho, env)), float(concretize(u1, env))
                p = {k: float(v) for k, v in concretize(P, env).items()}
                if nl == 1:
                    L = [(1.0, 0)]
                elif nl == 2:
                    L = [(p["e1"], p["a"]), (1 - p["e1"], -p["a"])]
                else:
                    L = [(p["e1"], p["a"]), (p["e2"], -p["a"]), (1 - p["e1"] - p["e2"], p["r3"] * np.exp(1j * p["psi"]))]
                got = run_real(f, za, ma, r, u, p)
                tot = corr = worst = 0
                for i in range(shape[0]):
                    zi = za[i]
                    w = [sum((-1) ** (k - 1) * math.factorial(k - 1) * m / (zi - q) ** k for m, q in L) for k in range(2, 7)]
                    mu = 1 / (1 - abs(w[0]) ** 2)
                    worst = max(worst, np.max(np.abs(mu)))

                    def evn(p_):
                        s = 0
                        for e, c in p_.items():
                            t = float(c) * mu ** e[0]
                            for k in range(5):
                                t = t * w[k] ** e[1 + k] * np.conj(w[k]) ** e[6 + k]
                            s = s + t
                        return np.real(s)
                    g = 2 * u / (3 - u)
                    dq, dh = evn(t1) / 2 * r ** 2 * (1 - g / 5), evn(t2) / 12 * r ** 4 * (1 - 11 * g / 35)
                    tot = tot + np.where(ma[i], abs(mu + dq + dh), 0)
                    corr = corr + np.where(ma[i], abs(dq) + abs(dh), 0)
                if not np.all(np.isfinite(np.append(tot, corr))) or worst > 50:
                    return False, {}
                bad = not (np.shape(got[0]) == np.shape(tot) and close(got[0], tot, 1e-6, 1e-9) and close(got[1], corr, 1e-6, 1e-9))
                return bad, {"z": za, "mask": ma, "rho": r, "u1": u, "params": p, "got": got, "expected": [tot, corr]}

            envs = [ck.rand_env(tm.free_vars(list(cuts))) for _ in range(2)]
            it = Interp(cuts=dict(cuts), cut_envs=envs)
            got = run_sym(f, z, zm, rho, u1, P, interp=it)
            if got[0].shape != shape[1:] or got[1].shape != shape[1:]:
                ck.prove(tag + "/shape", FALSE, (), rep)
            if len(shape) == 2:
                # each source of a batch is treated as if alone
                for j in range(shape[1]):
                    cj = {k: v for k, v in cuts.items()}
                    g1 = run_sym(f, mk(list(z.a[:, j]), (2,), np.complex128), mk(list(zm.a[:, j]), (2,), np.bool_), rho, u1, P,
                                 interp=Interp(cuts=cj, cut_envs=envs))
                    for k, what in enumerate(("mag", "correction")):
                        ck.prove_eq("%s/source%d/%s" % (tag, j, what), [(got[k].a[j], g1[k].a[()])], (), rep)
            for cix in (np.ndindex(*shape[1:]) if len(shape) == 1 else ()):
                T, C = [], []
                for i in range(shape[0]):
                    ix = (i,) + cix
                    w = W[ix]
                    mu = tm.div(ONE, ONE - w[0].norm2())
                    dq = tm.scale(ev(t1, mu, w), F(1, 2)) * r2 * (ONE - tm.scale(G, F(1, 5)))
                    dh = tm.scale(ev(t2, mu, w), F(1, 12)) * r2 * r2 * (ONE - tm.scale(G, F(11, 35)))
                    T.append(mu + dq + dh)
                    C.append((dq, dh))
                # one image at a time (the others masked out), then all together with the single-image values as atoms
                nm = "" if not cix else "[%d]" % cix[0]
                regular = [tm.ne(w[0].norm2(), ONE) for ix, w in W.items() if ix[1:] == cix]
                for i in range(shape[0]):
                    one = {zm.a[(j,) + cix]: (TRUE if j == i else FALSE) for j in range(shape[0])}
                    g0, g1 = tm.subst([got[0].a[cix], got[1].a[cix]], one)
                    fix = lambda env, i=i, cix=cix, shape=shape, zm=zm: rep(dict(env, **{zm.a[(j,) + cix].val: j == i for j in range(shape[0])}))
                    ck.prove_eq("%s%s/image%d/mag" % (tag, nm, i), [(g0, tm.tabs(T[i]))], regular, fix)
                    ck.prove_eq("%s%s/image%d/correction" % (tag, nm, i), [(g1, tm.tabs(C[i][0]) + tm.tabs(C[i][1]))], regular, fix)
                S0 = S1 = ZERO
                for i in range(shape[0]):
                    one = {zm.a[(j,) + cix]: (TRUE if j == i else FALSE) for j in range(shape[0])}
                    g0, g1 = tm.subst([got[0].a[cix], got[1].a[cix]], one)
                    S0 = S0 + tm.ite(zm.a[(i,) + cix], g0, ZERO)
                    S1 = S1 + tm.ite(zm.a[(i,) + cix], g1, ZERO)
                ck.prove_eq("%s%s/sum/mag" % (tag, nm), [(got[0].a[cix], S0)], (), rep)
                ck.prove_eq("%s%s/sum/correction" % (tag, nm), [(got[1].a[cix], S1)], (), rep)
            for _ in range(2):
                env = ck.rand_env(tm.free_vars(flat_terms((z, zm, rho, u1, P))))
                bad, d = rep(env)
                if bad:
                    ck.report(tag + "/validate", env, d)
                    raise Stop()
                ck.validated += 1
