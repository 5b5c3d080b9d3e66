"""C13: Kepler's equation and the epoch tables."""

PROP = {
    "title": "Kepler's equation solved for every phase; epochs are those of the season",
    "statement": "getpsi returns an eccentric anomaly with |psi - e sin psi - phi| <= 1e-8 for every mean anomaly and eccentricity up to 0.2 "
                 "(1e-10 up to 0.4, deeper bound), element-wise; peri_vernal returns the tabulated perihelion nearest to the reference time and the "
                 "vernal equinox of the same season, the same for JD and JD-2450000 input.",
    "over": ["inputs"],
    "text": "all mean anomalies (any real) and eccentricities in [0, 0.4]; all reference times",
    "why": "tests sample a few phases at Earth's tiny eccentricity, where even two iterations are exact",
    "files": ["src/microjax/trajectory/parallax.py"],
    "mech": [("Kepler", "trajectory.parallax.getpsi"), ("epochs", "trajectory.parallax.peri_vernal")],
    "technique": "inductive residual bounds over the traced Newton iterates with a Taylor lemma for sine, nonlinear real arithmetic",
    "note": "the lemma |sin b - sin a - (b-a) cos a| <= (b-a)^2/2 is assumed; eccentricity <= 0.2 (0.4 deeper); exact reals",
}

from ..check import *
from ..ref import *
from ..interp import Interp, sym_real, mk
from .. import term as tm
from ..term import const


def kepler(ck, E, tol, tag):
    from microjax.trajectory.parallax import getpsi
    phi, e = sym_real("phi"), sym_real("e")
    it = Interp()
    it.trig_cut = []
    out = R(it.call(getpsi, phi, e))
    ck.note_encoding(getpsi, it)
    fi, ec = R(phi), R(e)
    box = [tm.ge(ec, ZERO), tm.le(ec, const(E))]

    def rep(env):
        bad = False
        for p, q in [(float(env.get("phi", 0)), float(env.get("e", 0)))] + [(x, float(E)) for x in np.linspace(-3.3, 9.5, 65)]:
            q = min(max(q, 0.0), float(E))
            s = float(run_real(getpsi, p, q))
            r = abs(s - q * math.sin(s) - p)
            if r > 2 * float(tol) + 1e-14 * abs(p):
                bad = True
                break
        return bad, {"phi": p, "e": q, "psi": s, "residual": r}
    chain = [(v, d) for v, d in it.trig_cut] + [(tm.var("psi_out"), out)]
    bound = None
    prev = None
    E_ = F(E)
    for k, (v, d) in enumerate(chain):
        f = lambda x: x - ec * tm.fn("sin", x) - fi
        asm = list(box) + [tm.eq(v, d)]
        if prev is None:
            B = 2 * E_
        else:
            # quadratic convergence from the previous bound (rounded up)
            B = E_ * bound * bound / (2 * (1 - E_) ** 2)
            B = max(B, F(tol) / 1000)
            B = F(math.ceil(B * 10 ** 20), 10 ** 20)
            D = v - prev
            T = tm.fn("sin", v) - tm.fn("sin", prev) - D * tm.fn("cos", prev)
            half = tm.scale(D * D, F(1, 2))
            fp = f(prev)
            asm += [tm.le(fp, const(bound)), tm.ge(fp, const(-bound)), tm.le(T, half), tm.ge(T, -half),
                    tm.le(tm.fn("cos", prev), ONE), tm.ge(tm.fn("cos", prev), -ONE)]
        fv = f(v)
        goal = tm.band(tm.le(fv, const(B)), tm.ge(fv, const(-B)))
        if not ck.prove("%s/iterate%d" % (tag, k), goal, asm, rep):
            return
        prev, bound = v, B
    ck.prove("%s/residual" % tag, TRUE if bound <= F(tol) else FALSE, (), rep)


def run(ck):
    from microjax.trajectory import parallax as P
    ck.encodes("trajectory.parallax.getpsi", "trajectory.parallax.peri_vernal")
    ck.ranges.update({"phi*": (-7, 7), "e": (0, 0.2), "tref": (1000, 9500), "*": (-2, 2)})
    ck.bound("eccentricity <= 0.2 (residual 1e-8); <= 0.4 (1e-10)")
    ck.assume("Taylor bound of sine; exact reals")
    kepler(ck, F(1, 5), F(1, 10 ** 8), "e<=0.2")
    with ck.deeper("eccentricity up to 0.4"):
        kepler(ck, F(2, 5), F(1, 10 ** 10), "e<=0.4")
    phi, e = sym_real("phi", (2,)), sym_real("e")
    got = run_sym(P.getpsi, phi, e)
    one = [R(run_sym(P.getpsi, scal(x), e)) for x in phi.a]
    ck.prove_equal("element-wise", got, mk(one, (2,), np.float64), (phi, e), P.getpsi, rtol=1e-9)
    ck.validate("getpsi", P.getpsi, (phi, e), got, rtol=1e-9)

    # --- epochs
    t = sym_real("tref")
    pair = run_sym(P.peri_vernal, t)
    T = R(t)
    # the table entries, read off the code at the entries of the tables it returns
    seen = set()
    for x in np.arange(0, 11000, 20.0):
        seen.add(float(P.peri_vernal(x)[0]))
    tab = sorted(seen)
    per, ver = R(pair[0]), R(pair[1])

    def rep(env):
        x = float(env["tref"])
        p, v = (float(y) for y in run_real(P.peri_vernal, x))
        r = x - 2450000.0 if x > 2450000.0 else x
        best = min(abs(r - q) for q in tab)
        bad = abs(abs(r - p) - best) > 1e-6 or not (40 < v - p < 120)
        return bad, {"tref": x, "tperi": p, "tvernal": v, "nearest": best}
    near = tm.band(*[tm.le(tm.tabs(per - T), tm.tabs(R(symify(np.float64(q))) - T)) for q in tab])
    asm = [tm.le(T, const(2450000))]
    ck.prove("nearest-perihelion", near, asm, rep)
    ck.prove("same-season", tm.band(tm.gt(ver - per, const(40)), tm.lt(ver - per, const(120))), asm, rep)
    from fractions import Fraction
    gaps = [b - a for a, b in zip(tab, tab[1:])]
    ok = len(tab) >= 15 and all(358 < g < 372 for g in gaps) and tab[0] < 2000 and tab[-1] > 8500
    ck.prove("yearly-table", TRUE if ok else FALSE, (), lambda env: (not ok, {"table": tab}))
    jd = run_sym(P.peri_vernal, scal(T + const(2450000)))
    sub = [tm.gt(T, ZERO), tm.lt(T, const(100000))]

    def rep2(env):
        x = float(env["tref"])
        a, b = run_real(P.peri_vernal, x), run_real(P.peri_vernal, x + 2450000.0)
        mids = [abs(x - (p + q) / 2) for p, q in zip(tab, tab[1:])]
        return (min(mids) > 1e-6 and not close(a, b, 1e-12, 1e-6)), {"tref": x, "got": [a, b]}
    ck.prove_eq("julian-date", [(ck.resolve(R(a), sub), ck.resolve(R(b), sub)) for a, b in zip(jd, pair)], sub, rep2)
    ck.reachable("epochs", asm)
