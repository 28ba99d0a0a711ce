"""C06 the marginal log-probability sums over every value and counts every term once; recovery normalises the same joint."""
from ..table import E, run_table

M = "pymc_extras.model.marginal.marginal_model."
D = "pymc_extras.model.marginal.distributions."
RULES = {
    "marginal-logp": "the registered log-probabilities equal log sum_x p(x) prod_j p(y_j | x) (finite variables) and the forward algorithm (Markov chains), term for term",
    "domain": "the enumerated domain is the distribution's full support",
    "recovery": "recovered log-probabilities are the log-softmax, over the whole domain, of the same joint; draws come from it",
}
ASSUMPTIONS = ["pymc's conditional_logp returns one log-probability per given value variable", "pytensor's vectorize_graph/scan/map denote element-wise application and recurrence"]
LOGP = [
    E(D + "finite_discrete_marginal_rv_logp", "finite_logp", "v", extra=("moveaxis",)),
    E(D + "marginal_hmm_logp", "hmm_logp", "v"),
    E(D + "inline_ofg_outputs", "inline", "v"),
    E(D + "align_logp_dims", "align", "v"),
    E(D + "reduce_batch_dependent_logps", "total", "v"),
]
DOM = [E(D + "get_domain_of_finite_discrete_rv", "domain", "vr")]
REC = [E(M + "MarginalModel.recover_marginals", "recover_marginals", "ve")]


def check(ctx):
    run_table(ctx, "marginal", "marginal-logp", LOGP)
    run_table(ctx, "marginal", "domain", DOM)
    run_table(ctx, "marginal", "recovery", REC)
