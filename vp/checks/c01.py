"""C01: lens map is the n-point-mass map, lens_eq_det_jac is its Jacobian determinant."""
import jax
import jax.numpy as jnp
import numpy as np

PROP = {
    "title": "Lens equation and its Jacobian describe the same N-point-mass lens",
    "statement": "For one, two or three point lenses the lens equation maps every image-plane position z to z - sum of "
                 "m_k / conj(z - r_k) with masses summing to one (mass e1 at +a, the second at -a, the third at r3 exp(i psi)), "
                 "and the Jacobian determinant is the exact determinant of the derivative of that map. "
                 "Both act element-wise on arrays and keep their shape.",
    "over": ["inputs", "configurations"],
    "text": "all real lens parameters and complex positions off the lenses; 1-3 lenses; scalar and array inputs",
    "why": "the tests evaluate a handful of positions; a wrong sign or factor on a rarely dominant term passes them",
    "files": ["src/microjax/point_source.py"],
    "mech": [("lens_eq", "point_source.lens_eq"), ("lens_eq_det_jac", "point_source.lens_eq_det_jac")],
    "technique": "nonlinear real arithmetic identities, forward-mode derivative of the real code",
    "note": "all real parameters and positions (exact real arithmetic, rounding ignored); arrays bounded to the listed small shapes",
}

from ..check import *
from ..ref import *
from ..interp import sym_cplx, sym_real, mk
from .. import term as tm

RANGES = {"z*": (-1.7, 1.7), "a": (0.2, 1.2), "e1": (0.05, 0.9), "e2": (0.05, 0.9), "r3": (0.2, 1.5), "psi": (-3, 3)}


def run(ck):
    from microjax.point_source import lens_eq, lens_eq_det_jac
    ck.encodes("point_source.lens_eq", "point_source.lens_eq_det_jac")
    ck.ranges.update(RANGES)
    ck.bound("1, 2 and 3 lenses; scalar z and a batch of 3; every z off the lenses, every real parameter value (no box)")
    ck.assume("floats are exact reals; z is not on a lens (pole)")
    for nl in (1, 2, 3):
        P, L = lens_params(nl)
        for shape in ((), (3,)):
            if shape and nl == 3 and ck.quick:
                pass
            z = sym_cplx("z", shape)
            f = lambda z, P, nl=nl: lens_eq(z, nlenses=nl, **P)
            g = lambda z, P, nl=nl: lens_eq_det_jac(z, nlenses=nl, **P)
            els = z.a.reshape(-1)
            asm = [c for e in els for c in off_lens(e, L)]
            got = run_sym(f, z, P)
            want = mk([lens_map(e, L) for e in els], shape, np.complex128)
            tag = "n%d%s" % (nl, "v" if shape else "")
            ck.prove_equal("lens_eq/" + tag, got, want, (z, P), f, asm)
            ck.validate("lens_eq/" + tag, f, (z, P), got, assume=asm, want=want)
            got = run_sym(g, z, P)
            want = mk([ONE - kappa(e, L).norm2() for e in els], shape, np.float64)
            ck.prove_equal("det/" + tag, got, want, (z, P), g, asm)
            ck.validate("det/" + tag, g, (z, P), got, assume=asm, want=want)
            ck.reachable(tag, asm)
            if shape:
                continue
            # the determinant agrees with the derivative JAX itself takes of the coded map

            def J(x, y, P, nl=nl):
                h = lambda x, y: (lambda w: (w.real, w.imag))(lens_eq(x + 1j * y, nlenses=nl, **P))
                _, t1 = jax.jvp(lambda x: h(x, y), (x,), (jnp.ones_like(x),))
                _, t2 = jax.jvp(lambda y: h(x, y), (y,), (jnp.ones_like(y),))
                return t1[0] * t2[1] - t1[1] * t2[0]
            zz = els[0]
            x, y = scal(zz.re), scal(zz.im)
            d2 = run_sym(J, x, y, P)
            gg = lambda x, y, P: g(x + 1j * y, P)
            ck.prove_equal("det=AD/" + tag, got, d2, (x, y, P), gg, asm)
