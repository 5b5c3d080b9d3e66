"""Independent reference models (written from the physics, not from the code under test)."""
import numpy as np
from . import term as tm
from .term import T, Cx, ZERO, ONE, const
from .interp import Sym, sym_real, sym_cplx, mk, objarr


def R(s):
    """scalar real term of a Sym"""
    return s.a[()]


def scal(t, dtype=np.float64):
    return mk([t], (), np.complex128 if isinstance(t, Cx) else dtype)


def lens_params(nl):
    """Symbolic mid-point-frame parameters and the masses/positions they denote."""
    if nl == 1:
        return {}, [(ONE, Cx(ZERO, ZERO))]
    if nl == 2:
        P = {"a": sym_real("a"), "e1": sym_real("e1")}
        a, e1 = R(P["a"]), R(P["e1"])
        return P, [(e1, Cx(a, ZERO)), (ONE - e1, Cx(-a, ZERO))]
    P = {k: sym_real(k) for k in ("a", "r3", "psi", "e1", "e2")}
    a, r3, psi, e1, e2 = (R(P[k]) for k in ("a", "r3", "psi", "e1", "e2"))
    z3 = Cx(tm.mul(r3, tm.fn("cos", psi)), tm.mul(r3, tm.fn("sin", psi)))
    return P, [(e1, Cx(a, ZERO)), (e2, Cx(-a, ZERO)), (ONE - e1 - e2, z3)]


def lens_map(z, lenses):
    w = z
    for m, p in lenses:
        w = w - Cx(m, ZERO) / (z - p).conj()
    return w


def kappa(z, lenses):
    """sum m/(z-p)^2  (conjugate shear)"""
    s = Cx(ZERO, ZERO)
    for m, p in lenses:
        s = s + Cx(m, ZERO) / ((z - p) * (z - p))
    return s


def off_lens(z, lenses):
    """the image is not on top of a lens"""
    return [tm.ne((z - p).norm2(), ZERO) for _, p in lenses]
