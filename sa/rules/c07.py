"""C07 scalar distributions: log-density, log-cdf, support, parameter checks, random draws and start values."""
from .. import nf
from ..table import E, class_attrs, run_table
from ..terms import T

M = "pymc_extras.distributions.continuous."
N = "pymc_extras.distributions.discrete."
RULES = {
    "continuous": "GenExtreme, Chi and Maxwell: value graphs of density, cdf, start value, sampler and construction equal the stated formulas, with the stated support and parameter checks",
    "discrete": "GeneralizedPoisson, BetaNegativeBinomial and Skellam: the same",
    "signature": "the core shapes, dtypes and sampler classes declared for each distribution",
    "upper-tail": "the log-cdf above a finite upper end of the support is 0",
}
ASSUMPTIONS = ["scipy.stats.genextreme, numpy's Generator and pymc's primitive distributions are correct", "equality of formulas is decided in exact real arithmetic"]
CONT = [
    E(M + "GenExtremeRV.__call__", "GenExtremeRV____call__"),
    E(M + "GenExtremeRV.rng_fn", "GenExtremeRV__rng_fn"),
    E(M + "GenExtreme.dist", "GenExtreme__dist"),
    E(M + "GenExtreme.logp", "GenExtreme__logp"),
    E(M + "GenExtreme.logcdf", "GenExtreme__logcdf"),
    E(M + "GenExtreme.support_point", "GenExtreme__support_point"),
    E(M + "Chi.chi_dist", "Chi__chi_dist"),
    E(M + "Chi.__new__", "Chi____new__"),
    E(M + "Chi.dist", "Chi__dist"),
    E(M + "Maxwell.maxwell_dist", "Maxwell__maxwell_dist"),
    E(M + "Maxwell.__new__", "Maxwell____new__"),
    E(M + "Maxwell.dist", "Maxwell__dist"),
]
DISC = [
    E(N + "log1mexp", "spec_log1mexp"),
    E(N + "GeneralizedPoissonRV.rng_fn", "GeneralizedPoissonRV__rng_fn"),
    E(N + "GeneralizedPoissonRV._inverse_rng_fn", "GeneralizedPoissonRV___inverse_rng_fn"),
    E(N + "GeneralizedPoissonRV._branching_rng_fn", "GeneralizedPoissonRV___branching_rng_fn"),
    E(N + "GeneralizedPoisson.dist", "GeneralizedPoisson__dist"),
    E(N + "GeneralizedPoisson.support_point", "GeneralizedPoisson__support_point"),
    E(N + "GeneralizedPoisson.logp", "GeneralizedPoisson__logp"),
    E(N + "BetaNegativeBinomial.beta_negative_binomial_dist", "BetaNegativeBinomial__beta_negative_binomial_dist"),
    E(N + "BetaNegativeBinomial.beta_negative_binomial_logp", "BetaNegativeBinomial__beta_negative_binomial_logp"),
    E(N + "BetaNegativeBinomial.__new__", "BetaNegativeBinomial____new__"),
    E(N + "BetaNegativeBinomial.dist", "BetaNegativeBinomial__dist"),
    E(N + "Skellam.skellam_dist", "Skellam__skellam_dist"),
    E(N + "Skellam.skellam_logp", "Skellam__skellam_logp"),
    E(N + "Skellam.__new__", "Skellam____new__"),
    E(N + "Skellam.dist", "Skellam__dist"),
]
ATTRS = {
    M + "GenExtremeRV": {"signature": "'(),(),()->()'", "dtype": "'floatX'"},
    N + "GeneralizedPoissonRV": {"signature": "'(),()->()'", "dtype": "'int64'"},
}


def check(ctx):
    run_table(ctx, "continuous", "continuous", CONT)
    run_table(ctx, "discrete", "discrete", DISC)
    run_table(ctx, "continuous", "upper-tail", [E(M + "GenExtreme.logcdf", "logcdf_full", "v")])
    class_attrs(ctx, "signature", ATTRS)
