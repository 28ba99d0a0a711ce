"""C21 Models that are reparametrised, or declared by a function, are the models written down."""
from ..table import E, run_table

V = "pymc_extras.model.transforms.autoreparam."
RULES = {
    "vip": "what is drawn, what replaces the variable, which variables may be replaced, and how lambda is read and set are the stated ones",
    "as_model": "the model is built from all arguments given, on every call",
}
ASSUMPTIONS = ["toposort_replace replaces exactly the pairs it is given", "a RandomVariable keeps the parameter order of its distribution"]
TABLE = [E(V + "VIP." + m, "VIP__" + m) for m in (
    "variational_parameters", "truncate_lambda", "truncate_all_lambda", "get_lambda", "set_lambda", "set_all_lambda", "fit")]
TABLE += [E(V + f, "spec_" + f.replace("@", "_for_")) for f in ("vip_reparam_node", "_vip_reparam_node@Normal", "_vip_reparam_node@Exponential", "vip_reparametrize")]


def check(ctx):
    run_table(ctx, "transforms", "vip", TABLE)
    run_table(ctx, "transforms", "as_model", [E("pymc_extras.model.model_api.as_model", "spec_as_model")])
