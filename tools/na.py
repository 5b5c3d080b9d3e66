NA = {
 "N01": dict(
  title="The polynomial root finder converges to every root from its default start",
  statement="For every non-degenerate complex polynomial the root finder returns all its roots, each once, to working precision.",
  text="all coefficient vectors; unbounded iteration counts in floating point", why="tests compare a few polynomials with numpy.roots",
  files=["src/microjax/poly_solver.py"], mech=[("Ehrlich-Aberth iteration", "poly_solver.poly_roots")],
  reason="global convergence of Ehrlich-Aberth within a bounded number of iterations is an open analytic statement about a data-dependent floating-point iteration; no finite symbolic unrolling decides it (the per-step fixed-point, stopping and start-radius facts are decided in C07 instead)"),
 "N02": dict(
  title="End-to-end finite-source magnifications are accurate to the documented tolerance",
  statement="For every lens, source and source radius the inverse-ray-shooting magnification agrees with the exact finite-source magnification to the requested accuracy.",
  text="all lens configurations and trajectories", why="tests sample a few light curves against VBBinaryLensing",
  files=["src/microjax/inverse_ray/extended_source.py"], mech=[("polar inverse ray shooting", "inverse_ray.extended_source")],
  reason="a quantitative discretisation-error bound for a quadrature over numerically found regions; not expressible as a decidable bounded formula (region coverage and the quadrature rule itself are decided in C17-C21)"),
 "N03": dict(
  title="FFT-based single-lens light curves are accurate",
  statement="The FFT-based extended-source magnification of a single lens agrees with the exact one to the requested accuracy for every source radius and separation.",
  text="all u, rho", why="tests sample a few values", files=["src/microjax/fastlens/mag_fft_jax.py"], mech=[("FFTLog", "fastlens.fftlog_jax")],
  reason="accuracy of a truncated, windowed 1024-point FFTLog of transcendental functions; the error bound is analytic, not a bounded decidable formula"),
}
