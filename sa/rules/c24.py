"""C24 SMC and pathfinder draw from the model's posterior and report it under the right names."""
from ..table import E, run_table

S, P = "pymc_extras.inference.smc.sampling.", "pymc_extras.inference.pathfinder."
RULES = {
    "smc": "densities, particles and their layout, the tempering loop, diagnostics, the kernel's parameters and the InferenceData are the stated ones",
    "pathfinder": "the density, the start, the seeds, the unraveling and transforming of draws and the arguments passed on are the stated ones",
}
ASSUMPTIONS = ["blackjax's adaptive tempered SMC and pathfinder compute what they document", "get_jaxified_graph computes the graph it is given"]


def check(ctx):
    run_table(ctx, "smcpf", "smc", [E(S + f, "spec_" + f) for f in (
        "sample_smc_blackjax", "arviz_from_particles", "flatten_single_particle", "inference_loop", "blackjax_particles_from_pymc_population",
        "add_to_inference_data", "get_jaxified_logprior", "get_jaxified_loglikelihood", "get_jaxified_particles_fn",
        "initialize_population", "var_map_from_model", "build_smc_with_kernel")] +
        [E(S + "SMCDiagnostics." + m, "SMCDiagnostics__" + m) for m in ("update_diagnosis", "initial_diagnosis")])
    run_table(ctx, "smcpf", "pathfinder", [E(P + f, "spec_" + f) for f in ("convert_flat_trace_to_idata", "fit_pathfinder")])
