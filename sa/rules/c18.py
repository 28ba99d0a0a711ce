"""C18 ARMA models in state space form: the matrices, names, dims and order checks of BayesianVARMAX and BayesianSARIMA."""
from ..table import E, consts, run_table

M = "pymc_extras.statespace.models."
V, S, U = M + "VARMAX.BayesianVARMAX.", M + "SARIMAX.BayesianSARIMA.", M + "utilities."
RULES = {
    "varmax": "every block of every VARMAX matrix, and the name, shape and dims of every parameter and state, are the stated ones",
    "sarima": "every block of every SARIMA matrix in both state structures, the accepted orders, and the name, shape and dims of every parameter and state are the stated ones",
    "names": "the names of the dims and state structures are the stated ones",
}
ASSUMPTIONS = ["solve_discrete_lyapunov(A, Q) solves X = A X A' + Q", "numpy index helpers (diag_indices, triu_indices, tile, repeat, r_) do what they document"]
VARMAX = [E(V + m, "BayesianVARMAX__" + m) for m in (
    "__init__", "param_names", "param_info", "state_names", "observed_states", "shock_names", "coords", "param_dims", "make_symbolic_graph")]
SARIMA = [E(M + "SARIMAX._verify_order", "spec__verify_order")] + [E(S + m, "BayesianSARIMA__" + m) for m in (
    "__init__", "param_names", "param_info", "state_names", "observed_states", "shock_names", "param_dims", "coords", "_stationary_initialization",
    "make_symbolic_graph")] + [E(U + f, "spec_" + f) for f in (
        "make_default_coords", "cleanup_states", "make_harvey_state_names", "make_SARIMA_transition_matrix")]


def check(ctx):
    run_table(ctx, "varmodels", "varmax", VARMAX)
    run_table(ctx, "varmodels", "sarima", SARIMA)
    consts(ctx, "names", "pymc_extras.statespace.utils.constants", {
        "AR_PARAM_DIM": "ar_lag", "MA_PARAM_DIM": "ma_lag", "SEASONAL_AR_PARAM_DIM": "seasonal_ar_lag", "SEASONAL_MA_PARAM_DIM": "seasonal_ma_lag",
        "SARIMAX_STATE_STRUCTURES": ["fast", "interpretable"]})
