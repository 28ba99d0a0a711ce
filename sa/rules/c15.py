"""C15 Building a PyMC model from a state space model: parameters, data, filter, smoother and likelihood put together."""
from ..table import E, const_exprs, consts, run_table

S = "pymc_extras.statespace.core.statespace."
C = S + "PyMCStateSpace."
D = "pymc_extras.statespace.utils.data_tools."
K = "pymc_extras.statespace.utils.constants"
RULES = {
    "build": "which variable of the PyMC model replaces which placeholder, what reaches the filter and smoother, and what is registered under which name and dims are the stated ones",
    "data": "accepted data kinds and shapes, time index, sentinel for missing values and registration are the stated ones",
    "names": "the tables of matrix names, filter outputs and their dims are the stated ones",
}
ASSUMPTIONS = ["pytensor.graph_replace replaces exactly the keys it is given", "numpy.ma.masked_invalid masks nan and inf"]
TABLE = [E(C + m, "PyMCStateSpace__" + m) for m in (
    "__init__", "_unpack_statespace_with_placeholders", "unpack_statespace", "make_and_register_variable", "make_and_register_data",
    "_save_exogenous_data_info", "_insert_random_variables", "_insert_data_variables",
    "_register_kalman_filter_outputs_with_pymc_model", "build_statespace_graph", "_filter_matrices", "_build_smoother_graph")]
DATA = [E(D + f, "spec_" + f) for f in (
    "get_data_dims", "_validate_data_shape", "preprocess_tensor_data", "preprocess_numpy_data", "preprocess_pandas_data",
    "add_data_to_active_model", "mask_missing_values_in_data", "register_data_with_pymc")]
SHORT = ["x0", "P0", "c", "d", "T", "Z", "R", "H", "Q"]
LONG = ["initial_state", "initial_state_cov", "state_intercept", "obs_intercept", "transition", "design", "selection", "obs_cov", "state_cov"]


def tables():
    t, s, a, o, oa, k, ka = "time", "state", "state_aux", "observed_state", "observed_state_aux", "shock", "shock_aux"
    return {
        "ALL_STATE_DIM": s, "ALL_STATE_AUX_DIM": a, "OBS_STATE_DIM": o, "OBS_STATE_AUX_DIM": oa, "SHOCK_DIM": k, "SHOCK_AUX_DIM": ka, "TIME_DIM": t,
        "MATRIX_NAMES": SHORT, "LONG_MATRIX_NAMES": LONG, "SHORT_NAME_TO_LONG": dict(zip(SHORT, LONG)), "LONG_NAME_TO_SHORT": dict(zip(LONG, SHORT)),
        "FILTER_OUTPUT_TYPES": ["filtered", "predicted", "smoothed"],
        "FILTER_OUTPUT_NAMES": ["filtered_state", "predicted_state", "filtered_covariance", "predicted_covariance"],
        "SMOOTHER_OUTPUT_NAMES": ["smoothed_state", "smoothed_covariance"],
        "OBSERVED_OUTPUT_NAMES": ["predicted_observed_state", "predicted_observed_covariance"],
        "MISSING_FILL": -9999.0,
        "MATRIX_DIMS": {"x0": (s,), "P0": (s, a), "c": (s,), "d": (o,), "T": (s, a), "Z": (o, s), "R": (s, k), "H": (o, oa), "Q": (k, ka)},
        "FILTER_OUTPUT_DIMS": {
            "filtered_state": (t, s), "smoothed_state": (t, s), "predicted_state": (t, s),
            "filtered_covariance": (t, s, a), "smoothed_covariance": (t, s, a), "predicted_covariance": (t, s, a),
            "predicted_observed_state": (t, o), "predicted_observed_covariance": (t, o, oa)},
    }


def check(ctx):
    run_table(ctx, "statespace", "build", TABLE)
    run_table(ctx, "datatools", "data", DATA)
    consts(ctx, "names", K, tables())
    const_exprs(ctx, "names", S[:-1], {"FILTER_FACTORY": "{'standard': StandardFilter, 'univariate': UnivariateFilter, 'cholesky': SquareRootFilter}"})
