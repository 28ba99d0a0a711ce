"""C11 Kalman filter interface: masking of missing data, time-varying matrices, forecasts of observations and the roles of the outputs."""
from ..table import E, const_exprs, consts, run_table

F = "pymc_extras.statespace.filters."
B = F + "kalman_filter.BaseFilter."
S = F + "kalman_filter.SquareRootFilter."
K = "pymc_extras.statespace.utils.constants"
RULES = {
    "filter": "construction, argument unpacking, masking, the step's order of operations and the outputs' order, alignment, shape and name are the stated ones",
    "constant": "the sentinel, the jitter and the sets of vector-valued and never-time-varying parameters are the stated ones",
}
ASSUMPTIONS = ["pytensor.scan passes sequences, then recurrent outputs, then non-sequences", "constant_fold returns the static shape"]
TABLE = [E(B + m, "BaseFilter__" + m) for m in ("__init__", "check_params", "add_check_on_time_varying_shapes", "unpack_args", "build_graph", "_postprocess_scan_results", "handle_missing_values", "forecast_observed", "kalman_step")] + [
    E(S + "_postprocess_scan_results", "SquareRootFilter___postprocess_scan_results"),
    E(S + "forecast_observed", "SquareRootFilter__forecast_observed"),
    E(S + "_cholesky_H", "SquareRootFilter___cholesky_H"),
    E(F + "utilities.decide_if_x_time_varies", "spec_decide_if_x_time_varies"),
    E(F + "utilities.split_vars_into_seq_and_nonseq", "spec_split_vars_into_seq_and_nonseq"),
]


def check(ctx):
    run_table(ctx, "filters", "filter", TABLE)
    consts(ctx, "constant", K, {
        "NEVER_TIME_VARYING": ["initial_state", "initial_state_cov", "a0", "P0"],
        "VECTOR_VALUED": ["initial_state", "state_intercept", "obs_intercept", "a0", "c", "d"],
        "MISSING_FILL": -9999.0,
    })
    const_exprs(ctx, "constant", K, {"JITTER_DEFAULT": "1e-8 if pytensor.config.floatX.endswith('64') else 1e-6"})
