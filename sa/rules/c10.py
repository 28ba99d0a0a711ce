"""C10 Histogram approximation: every kept observation is counted once, in the bin whose mid-point is scored."""
from ..table import E, run_table

M = "pymc_extras.distributions.histogram_utils."
RULES = {"histogram": "bins, counts, zero inflation, the min_count filter, dask handling and the potential denote the stated ones"}
ASSUMPTIONS = ["xhistogram counts values into half-open bins with a closed last bin", "dask.compute returns the value of its argument"]
TABLE = [E(M + f, "spec_" + f) for f in ("quantile_histogram", "discrete_histogram", "histogram_approximation")]


def check(ctx):
    run_table(ctx, "histogram", "histogram", TABLE)
