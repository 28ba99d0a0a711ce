"""C28 linear_cg solves the linear system, B-spline bases evaluate the basis, pivoted Cholesky factors the matrix."""
from ..table import E, run_table

C, P, S = "pymc_extras.utils.linear_cg.", "pymc_extras.utils.pivoted_cholesky.", "pymc_extras.utils.spline."

RULES = {
    "cg": "the conjugate gradient recursion, its safeguards, stopping rule, normalisation and tridiagonal matrix are the stated ones",
    "spline": "knots, basis, types, shapes and interpolation are the stated ones",
    "pivot": "pivots, rows, updates and stopping rule are the stated ones",
}
ASSUMPTIONS = ['numpy and scipy.interpolate.BSpline compute what they document', 'convergence in floating point is not decided']


def check(ctx):
    run_table(ctx, "numerics", "cg", [E(C + f, "spec_" + f) for f in ("masked_fill", "column_dot", "column_norm", "linear_cg_updates", "linear_cg")])
    run_table(ctx, "numerics", "pivot", [E(P + f, "spec_" + f) for f in ("pp", "pivoted_cholesky")])
    run_table(ctx, "numerics", "spline", [E(S + f, "spec_" + f) for f in ("numpy_bspline_basis", "bspline_basis", "bspline_interpolation")] +
              [E(S + "BSplineBasis." + m, "BSplineBasis__" + m) for m in ("__init__", "make_node", "perform", "infer_shape")])
