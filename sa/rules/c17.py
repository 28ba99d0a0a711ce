"""C17 Forecasts start from the right state, cover the requested dates and use the scenario as given."""
from ..table import E, run_table

S = "pymc_extras.statespace.core.statespace."
C = S + "PyMCStateSpace."
RULES = {
    "forecast": "the initial state, the forecast dates, the scenario data put in place of the fit's and every refusal are the stated ones",
}
ASSUMPTIONS = ["pandas date_range and RangeIndex are correct"]
TABLE = [E(C + m, "PyMCStateSpace__" + m) for m in (
    "_validate_forecast_args", "_get_fit_time_index", "_validate_scenario_data", "_build_forecast_index",
    "_finalize_scenario_initialization", "forecast")] + [E(S + "_validate_filter_arg", "spec__validate_filter_arg")]


def check(ctx):
    run_table(ctx, "statespace", "forecast", TABLE)
