"""C12 Kalman recursions: update, prediction, log-likelihood and smoothing denote the textbook formulas in every filter."""
from ..table import E, const_exprs, run_table

F = "pymc_extras.statespace.filters."
K = F + "kalman_filter."
S = F + "kalman_smoother.KalmanSmoother."
RULES = {
    "recursion": "the update, prediction, likelihood and smoothing expressions equal the textbook ones (real arithmetic), term for term",
    "correlated-H": "sequential scalar updates are applied to observations with uncorrelated measurement errors",
}
ASSUMPTIONS = ["pt.linalg.solve, cholesky, qr, pinv and det denote the exact operations", "equality of formulas is decided in exact real arithmetic"]
TABLE = [
    E(K + "BaseFilter.predict", "BaseFilter__predict"),
    E(K + "BaseFilter.update", "BaseFilter__update"),
    E(K + "StandardFilter.update", "StandardFilter__update"),
    E(K + "SquareRootFilter.predict", "SquareRootFilter__predict"),
    E(K + "SquareRootFilter.update", "SquareRootFilter__update"),
    E(K + "UnivariateFilter._univariate_inner_filter_step", "UnivariateFilter___univariate_inner_filter_step"),
    E(K + "UnivariateFilter.kalman_step", "UnivariateFilter__kalman_step"),
    E(S + "__init__", "KalmanSmoother____init__"),
    E(S + "unpack_args", "KalmanSmoother__unpack_args"),
    E(S + "build_graph", "KalmanSmoother__build_graph"),
    E(S + "smoother_step", "KalmanSmoother__smoother_step"),
    E(S + "predict", "KalmanSmoother__predict"),
    E(F + "utilities.stabilize", "spec_stabilize"),
    E(F + "utilities.quad_form_sym", "spec_quad_form_sym"),
]


def check(ctx):
    run_table(ctx, "filters", "recursion", TABLE)
    const_exprs(ctx, "recursion", K[:-1], {"MVN_CONST": "pt.log(2 * pt.constant(np.pi, dtype='float64'))"})
    run_table(ctx, "filters", "correlated-H", [E(K + "UnivariateFilter.kalman_step", "univariate_correlated", "v")])
    # the step of the specification itself, which feeds the observations unrotated, is a different one for certain
    step = K + "UnivariateFilter.kalman_step"
    if all(o[0] == "ok" for o in ctx.obs if o[1] == "recursion" and o[2].split(":")[0] == step):
        ctx.obs = [("bad", *o[1:]) if o[:3] == ("open", "correlated-H", step) else o for o in ctx.obs]
