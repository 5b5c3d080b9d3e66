"""C21: composition of caustics.extended_source.mag_extended_source."""

PROP = {
    "title": "Contour magnification is the parity-weighted sum of the image contours",
    "statement": "mag_extended_source traces the limb of the caller's source in the caller's lens (positions shifted to the frame of the image "
                 "solver, masses of all lenses) and returns the absolute value of the sum over the image contours of parity times the contour "
                 "integral (area, or limb-darkened brightness with the caller's u1 and quadrature), divided by pi rho^2. Every track that is "
                 "an image all the way round contributes once, as the closed polygon through all its samples; samples that are not images "
                 "contribute nothing.",
    "over": ["inputs", "configurations"],
    "text": "all image tracks of the limb with up to 5 samples, all parities, all lens parameters, 1-3 lenses, with and without limb darkening",
    "why": "tests compare a handful of magnifications at loose tolerance; a wrong frame, mass, sign or closing segment can hide in them",
    "files": ["src/microjax/caustics/extended_source/mag.py", "src/microjax/caustics/extended_source/contours.py",
              "src/microjax/caustics/extended_source/segments.py"],
    "mech": [("composition", "caustics.extended_source.mag.mag_extended_source")],
    "technique": "symbolic execution with the limb tracer and the contour integrals as uninterpreted functions",
    "note": "3-5 limb samples, tracks closed or ghost as a whole (crossings are C22); the tracer is an uninterpreted function",
}

import jax
import jax.numpy as jnp

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm


class Limb(UF):
    """the limb tracer: an uninterpreted function of its arguments, with a fixed pattern of closed and ghost tracks"""

    def setup(self, closed, n):
        self.closed, self.n = closed, n
        return self

    def _sym(self, *a, **k):
        z, m, p = super()._sym(*a, **k)
        zz = z.a.copy()
        for i in range(len(self.closed)):
            zz[i, -1] = zz[i, 0]
        mask = mk([TRUE if c else FALSE for c in self.closed for _ in range(self.n)], (len(self.closed), self.n), np.bool_)
        return mk(list(zz.reshape(-1)), z.shape, np.complex128), mask, p

    def _conc(self, *a, **k):
        z, m, p = super()._conc(*a, **k)
        z = np.array(z)
        z[:, -1] = z[:, 0]
        return z, np.repeat(np.array(self.closed, bool)[:, None], self.n, 1), p


def run(ck):
    from microjax.caustics.extended_source import mag as mg
    from microjax.caustics.extended_source.limb import _images_of_source_limb
    from microjax.caustics.integrate import _integrate_ld, _integrate_unif
    ck.encodes("caustics.extended_source.mag.mag_extended_source", "caustics.extended_source.segments._get_segments",
               "caustics.extended_source.contours._contours_from_closed_segments")
    ck.ranges.update({"q": (0.1, 0.9), "q3": (0.1, 0.9), "s": (0.5, 1.5), "rho": (0.05, 0.9), "u1": (0.1, 0.9), "*": (-1, 1)})
    ck.bound("3-4 limb samples (3-5 thorough), tracks closed or ghost as a whole")
    ck.assume("limb tracer and contour integrals (C17) as uninterpreted functions; rho > 0; parity constant along a track")
    ck.outside.append("contours joined at caustic crossings (see C22)")
    pats = {1: [(1, 1)], 2: [(1, 1, 1, 1, 1), (1, 0, 1, 1, 0), (0, 1, 0, 1, 1)], 3: [(1,) * 10, (1, 0, 1, 0, 0, 1, 1, 0, 0, 0)]}
    for nl in (1, 2, 3):
        for closed in pats[nl]:
            for ld in (False, True):
                for n in ((4,) if nl == 1 else (3,)) if ck.quick else (3, 4, 5):
                    case(ck, mg.mag_extended_source, _images_of_source_limb, (_integrate_unif, _integrate_ld), nl, closed, ld, n)


def case(ck, f, tracer, integral, nl, closed, ld, n):
    nim = len(closed)
    lens = {1: (), 2: ("a", "e1"), 3: ("a", "e1", "e2", "r3", "psi")}[nl]
    names = {1: (), 2: ("s", "q"), 3: ("s", "q", "q3", "r3", "psi")}[nl]
    sh = lambda d: (nim, n)
    L = Limb(tracer, "L", ("w0", "rho", "nlenses", "npts") + lens, [(sh, np.complex128), (sh, np.bool_), (sh, np.float64)], static=("nlenses", "npts")).setup(closed, n)
    # a single lens hands over the index before the closing point: the closing segment has no length
    # a single lens hands over the index before the closing point: the closing segment has no length
    keys = ("z",) + (("tidx",) if nl > 1 else ())
    out = [(lambda d: (), np.float64)]
    V = UF(integral[ld], "V", keys + (("w0", "rho", "u1", "nlenses", "npts") + lens if ld else ()), out, static=("nlenses", "npts"))
    stubs = [L, V]
    w, rho, u1 = sym_cplx("w"), sym_real("rho"), sym_real("u1")
    prm = {k: sym_real(k) for k in names}
    opts = dict(npts_limb=37, limb_darkening=ld, npts_ld=24)
    call = lambda w, rho, u1, *p: f(w, rho, nlenses=nl, u1=u1, **opts, **dict(zip(names, p)))

    def model(sym, w, rho, u1, p):
        div = tm.div if sym else (lambda x, y: x / y)
        one = ONE if sym else 1.0
        ln, ws = {}, w
        if nl > 1:
            s, q = (R(p["s"]), R(p["q"])) if sym else (p["s"], p["q"])
            q3 = (R(p["q3"]) if sym else p["q3"]) if nl == 3 else (ZERO if sym else 0.0)
            a, tot = tm.scale(s, F(1, 2)) if sym else s / 2, one + q + q3
            wrap = scal if sym else float
            ln = {"a": wrap(a), "e1": wrap(div(q, tot))}
            if nl == 3:
                ln.update(e2=wrap(div(one, tot)), r3=p["r3"], psi=p["psi"])
            xcm = a * div(one - q, one + q)
            ws = mk([w.a[()] - Cx(xcm, ZERO)], (), np.complex128) if sym else w - xcm
        z, m, par = (L.value if sym else L.num)(ws, rho, nlenses=nl, npts=37, **ln)
        za, pa = (z.a, par.a) if sym else (z, par)
        tot = ZERO if sym else 0.0
        for i in range(nim):
            if not closed[i]:
                continue
            pts = list(za[i]) + [za[i][0]]
            arr = mk(pts, (n + 1,), np.complex128) if sym else np.array(pts)
            I = (V.value if sym else V.num)(arr, n, **(dict(w0=ws, rho=rho, u1=u1, nlenses=nl, npts=24, **ln) if ld else {}))
            I = R(I) if sym else float(I)
            tot = tot + I * pa[i][0]
        if sym:
            return tm.div(tm.tabs(tot), tm.PI * R(rho) * R(rho))
        return abs(tot) / (np.pi * rho ** 2)

    def rep(env):
        fv = tm.free_vars(flat_terms((w, rho, u1, prm)))
        with patched(stubs, "conc"):
            for e in [dict(ck.rand_env(fv), **{k: v for k, v in env.items() if k in {x.val for x in fv}})] + [dict(ck.rand_env(fv)) for _ in range(20)]:
                c = complex(np.asarray(concretize(w, e)))
                r, u = float(concretize(rho, e)), float(concretize(u1, e))
                p = {k: float(concretize(prm[k], e)) for k in names}
                if r <= 1e-6 or min(p.get("q", 1), p.get("q3", 1)) <= 0:
                    continue
                got, want = float(call(c, r, u, *[p[k] for k in names])), model(False, c, r, u, p)
                if not close(got, want, 1e-7, 1e-8):
                    return True, {"w": c, "rho": r, "u1": u, "params": p, "limb_darkening": ld, "got": got, "expected": want}
        return False, {}
    tag = "%d-lens %s ld=%s n=%d" % (nl, "".join(map(str, closed)), ld, n)
    got = run_sym(call, w, rho, u1, *[prm[k] for k in names], stubs=stubs)
    if got.shape != ():
        ck.prove(tag, FALSE, (), rep)
        return
    want = model(True, w, rho, u1, prm)
    asm = [tm.gt(R(rho), ZERO)] + [tm.gt(R(prm[k]), ZERO) for k in names if k in ("q", "q3")]
    ck.prove(tag, tm.eq(R(got), want), asm, rep, sides=([R(got)], [want]))
    bad, d = rep({})
    if bad:
        ck.report(tag + "/validate", {}, d)
        raise Stop()
    ck.validated += 21
