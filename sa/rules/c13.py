"""C13 Distributions of the state space package: draws, axes, names and registered log-probability."""
from ..table import E, class_attrs, run_table

M = "pymc_extras.statespace.filters.distributions."
RULES = {
    "distribution": "the simulated recursion, the split of states and observations, names, dims, refusals and the registered log-probability are the stated ones",
    "signature": "declared outputs",
}
ASSUMPTIONS = ["pytensor.scan passes sequences, then recurrent outputs, then non-sequences, and names inner variables after outer ones"]
TABLE = [
    E(M + "make_signature", "spec_make_signature"),
    E(M + "LinearGaussianStateSpaceRV.update", "LinearGaussianStateSpaceRV__update"),
    E(M + "_LinearGaussianStateSpace.__new__", "_LinearGaussianStateSpace____new__"),
    E(M + "_LinearGaussianStateSpace.dist", "_LinearGaussianStateSpace__dist"),
    E(M + "_LinearGaussianStateSpace.rv_op", "_LinearGaussianStateSpace__rv_op"),
    E(M + "LinearGaussianStateSpace.__new__", "LinearGaussianStateSpace____new__"),
    E(M + "LinearGaussianStateSpace.dist", "LinearGaussianStateSpace__dist"),
    E(M + "LinearGaussianStateSpace._get_k_states", "LinearGaussianStateSpace___get_k_states"),
    E(M + "LinearGaussianStateSpace._get_k_endog", "LinearGaussianStateSpace___get_k_endog"),
    E(M + "KalmanFilterRV.update", "KalmanFilterRV__update"),
    E(M + "SequenceMvNormal.__new__", "SequenceMvNormal____new__"),
    E(M + "SequenceMvNormal.dist", "SequenceMvNormal__dist"),
    E(M + "SequenceMvNormal.rv_op", "SequenceMvNormal__rv_op"),
    E(M + "sequence_mvnormal_logp", "spec_sequence_mvnormal_logp"),
]


def check(ctx):
    run_table(ctx, "filterdist", "distribution", TABLE)
    class_attrs(ctx, "signature", {M + "LinearGaussianStateSpaceRV": {"default_output": "1"}, M + "KalmanFilterRV": {"default_output": "1"}, M + "MvNormalSVD": {"rv_op": "MvNormalSVDRV()"}})
