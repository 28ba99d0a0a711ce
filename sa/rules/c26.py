"""C26 The table of a model lists every variable once with its expression, dimensions and the number of parameters."""
from ..table import E, run_table

P = "pymc_extras.printing."

RULES = {
    "table": "groups, rows, expressions, dimensions and counts are the stated ones",
}
ASSUMPTIONS = ['rich renders the rows it is given', 'pymc.printing gives the expression of a variable']


def check(ctx):
    run_table(ctx, "printing", "table", [E(P + f, "spec_" + f) for f in (
        "variable_expression", "_extract_dim_value", "dims_expression", "model_parameter_count", "model_table")])
