"""C22 A prior taken from a posterior: which variables, in which order, shape, transform, mean and covariance."""
from ..table import E, run_table

M = "pymc_extras.utils.prior."
RULES = {"prior": "the reading of each argument, the layout of the flattened posterior, its mean and Cholesky factor, and what is built from each slice are the stated ones"}
ASSUMPTIONS = ["numpy.cov with rowvar=False takes rows as observations", "a transform's backward inverts its forward"]
TABLE = [E(M + f, "spec_" + f) for f in ("_arg_to_param_cfg", "_parse_args", "_flatten", "_mean_chol", "_mvn_prior_from_flat_info", "prior_from_idata")]


def check(ctx):
    run_table(ctx, "transforms", "prior", TABLE)
