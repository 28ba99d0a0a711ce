"""C14 PytensorRepresentation: reading and writing named state space matrices."""
from ..table import E, consts, run_table

M = "pymc_extras.statespace.core.representation."
K = "pymc_extras.statespace.utils.constants"
RULES = {
    "representation": "what a key or slice reads, what it writes, which keys and shapes are refused, the shapes kept and what a copy shares are the stated ones",
    "names": "the sets of vector-valued and never-time-varying matrices are the stated ones",
}
ASSUMPTIONS = ["pytensor's set_subtensor and numpy indexing are correct"]
TABLE = [E(M + "PytensorRepresentation." + m, "PytensorRepresentation__" + m) for m in (
    "__init__", "_validate_key", "_update_shape", "_add_time_dim_to_slice", "_validate_key_and_get_type", "_validate_matrix_shape",
    "_check_provided_tensor", "_numpy_to_pytensor", "__getitem__", "__setitem__", "copy")]


def check(ctx):
    run_table(ctx, "representation", "representation", TABLE)
    consts(ctx, "names", K, {
        "NEVER_TIME_VARYING": ["initial_state", "initial_state_cov", "a0", "P0"],
        "VECTOR_VALUED": ["initial_state", "state_intercept", "obs_intercept", "a0", "c", "d"],
    })
