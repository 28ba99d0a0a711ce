"""C08 Discrete Markov chain: one transition law in draws, log-probability, resizing and start values."""
from ..table import E, class_attrs, run_table

M = "pymc_extras.distributions.timeseries."
RULES = {
    "chain": "construction, transition step, log-probability, resizing, support point and sampler of DiscreteMarkovChain denote the stated ones, and stay registered for its type",
    "signature": "declared outputs of the chain",
}
ASSUMPTIONS = ["pytensor.scan, Categorical and pymc's shape helpers behave as documented"]
TABLE = [
    E(M + "_make_outputs_info", "spec__make_outputs_info"),
    E(M + "DiscreteMarkovChainRV.__init__", "DiscreteMarkovChainRV____init__"),
    E(M + "DiscreteMarkovChainRV.update", "DiscreteMarkovChainRV__update"),
    E(M + "DiscreteMarkovChain.__new__", "DiscreteMarkovChain____new__"),
    E(M + "DiscreteMarkovChain.dist", "DiscreteMarkovChain__dist"),
    E(M + "DiscreteMarkovChain.rv_op", "DiscreteMarkovChain__rv_op"),
    E(M + "change_mc_size", "spec_change_mc_size"),
    E(M + "discrete_mc_moment", "spec_discrete_mc_moment"),
    E(M + "discrete_mc_logp", "spec_discrete_mc_logp"),
    E(M + "DiscreteMarkovChainGibbsMetropolis.__init__", "DiscreteMarkovChainGibbsMetropolis____init__"),
    E(M + "DiscreteMarkovChainGibbsMetropolis.competence", "DiscreteMarkovChainGibbsMetropolis__competence"),
]


def check(ctx):
    run_table(ctx, "timeseries", "chain", TABLE)
    class_attrs(ctx, "signature", {M + "DiscreteMarkovChainRV": {"default_output": "1"}, M + "DiscreteMarkovChain": {"rv_type": "DiscreteMarkovChainRV"}})
