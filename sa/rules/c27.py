"""C27 Approximate Gaussian processes have the prior and the conditional of their approximation."""
from ..table import E, const_exprs, run_table

P = "pymc_extras.gp.latent_approx."

RULES = {
    "gp": "means, covariances, factors, solves and arguments of the prior and conditional are the stated ones",
    "solve": "solve_lower and solve_upper solve with the triangle they are named after",
}
ASSUMPTIONS = ["pymc's covariance and mean functions, pytensor's eigh, cholesky and solve_triangular compute what they document"]


def check(ctx):
    run_table(ctx, "gp", "gp", [E(P + c + m, c.replace(".", "__") + m) for c, ms in (
        ("ProjectedProcess.", ("__init__", "_build_prior", "prior", "_build_conditional", "conditional")),
        ("KarhunenLoeveExpansion.", ("__init__", "_build_prior", "prior", "_build_conditional", "conditional"))) for m in ms])
    const_exprs(ctx, "solve", "pymc_extras.gp.latent_approx", {
        "solve_lower": "partial(solve_triangular, lower=True)", "solve_upper": "partial(solve_triangular, lower=False)"})
