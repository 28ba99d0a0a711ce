"""C19 Exponential smoothing in state space form: the matrices, names, dims and refusals of BayesianETS."""
from ..table import E, consts, run_table

C = "pymc_extras.statespace.models.ETS.BayesianETS."
RULES = {
    "ets": "which model an order string means, every entry of every matrix in both parameterizations, and the name, shape and dims of every parameter and state are the stated ones",
    "names": "the name of the seasonal dim is the stated one",
}
ASSUMPTIONS = ["solve_discrete_lyapunov(A, Q) solves X = A X A' + Q", "pytensor.graph_replace replaces exactly the keys it is given"]
TABLE = [E(C + m, "BayesianETS__" + m) for m in (
    "__init__", "param_names", "param_info", "state_names", "observed_states", "shock_names", "param_dims", "coords", "_stationary_initialization",
    "make_symbolic_graph")]


def check(ctx):
    run_table(ctx, "ets", "ets", TABLE)
    consts(ctx, "names", "pymc_extras.statespace.utils.constants", {"ETS_SEASONAL_DIM": "seasonal_lag"})
