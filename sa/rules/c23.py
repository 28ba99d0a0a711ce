"""C23 The MAP estimate and the Laplace approximation are those of the model."""
from ..table import E, run_table

F, L = "pymc_extras.inference.find_map.", "pymc_extras.inference.laplace."
RULES = {
    "map": "the loss, its derivatives, the order of the raveled variables, the start, the optimiser's arguments and what is returned are the stated ones",
    "laplace": "the Hessian, its inverse and repair, the draws, the names they are stored under and every argument passed on are the stated ones",
    "fit": "each method name reaches its algorithm with every argument, other names are refused",
}
ASSUMPTIONS = ["join_nonshared_inputs ravels its inputs in the order given, DictToArrayBijection.map in the order of the dict",
               "better_optimize, scipy and numpy.linalg compute what they document"]


def check(ctx):
    run_table(ctx, "inference", "fit", [E("pymc_extras.inference.fit.fit", "spec_fit")])
    run_table(ctx, "inference", "map", [E(F + f, "spec_" + f) for f in (
        "set_optimizer_function_defaults", "get_nearest_psd", "_unconstrained_vector_to_constrained_rvs", "_create_transformed_draws",
        "_compile_jax_gradients", "_compile_functions", "scipy_optimize_funcs_from_loss", "find_MAP")])
    run_table(ctx, "inference", "laplace", [E(L + f, "spec_" + f) for f in (
        "laplace_draws_to_inferencedata", "add_fit_to_inferencedata", "add_data_to_inferencedata", "fit_mvn_to_MAP",
        "sample_laplace_posterior", "fit_laplace")])
