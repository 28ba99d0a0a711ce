"""C09 R2D2M2CP prior: variance split, sign probabilities, limit cases and refusals."""
from ..table import E, run_table

M = "pymc_extras.distributions.multivariate.r2d2m2cp."
RULES = {"prior": "every piece of the prior (mean and scale from sign probability, masks for certain signs, importance weights, residual scale) denotes the stated formula, under the stated names, dims and refusals"}
ASSUMPTIONS = ["pymc's Normal, Beta, Dirichlet and Deterministic behave as documented", "equality of formulas is decided in exact real arithmetic"]
TABLE = [E(M + f, "spec_" + f) for f in ("_psivar2musigma", "_R2D2M2CP_beta", "_broadcast_as_dims", "_psi_masked", "_psi", "_phi", "R2D2M2CP")]


def check(ctx):
    run_table(ctx, "r2d2m2cp", "prior", TABLE)
