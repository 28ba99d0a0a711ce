"""C16 Trajectories, matrices and impulse responses sampled from a fitted state space model."""
from ..table import E, run_table

S = "pymc_extras.statespace.core.statespace."
C = S + "PyMCStateSpace."
RULES = {
    "sampling": "the graph built for each sampled quantity, the group and names sampled, dims, coords, the fit's settings and the refusals are the stated ones",
}
ASSUMPTIONS = ["pymc.sample_posterior_predictive replaces the parameters by the draws of the given group"]
TABLE = [E(C + m, "PyMCStateSpace__" + m) for m in (
    "_build_dummy_graph", "_kalman_filter_outputs_from_dummy_graph", "_sample_conditional", "_sample_unconditional",
    "sample_conditional_prior", "sample_conditional_posterior", "sample_unconditional_prior", "sample_unconditional_posterior",
    "sample_statespace_matrices", "impulse_response_function")] + [
    E(S + "_verify_group", "spec__verify_group"),
    E("pymc_extras.statespace.core.compile.compile_statespace", "spec_compile_statespace"),
]


def check(ctx):
    run_table(ctx, "statespace", "sampling", TABLE)
