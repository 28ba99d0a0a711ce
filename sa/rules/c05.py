"""C05 what cannot be marginalised exactly is refused."""
from ..table import E, run_table

M = "pymc_extras.model.marginal.marginal_model."
G = "pymc_extras.model.marginal.graph_analysis."
D = "pymc_extras.model.marginal.distributions."
RULES = {
    "refusals": "marginalize and _marginalize refuse under exactly the conditions of the specification, in the same order relative to their changes",
    "dependence": "dependence on a marginalised variable is decided by reachability that stops at other random variables and at statically known shapes",
    "axes": "every graph operation maps axes of the marginalised variable as specified, and refuses when it would mix, reduce or partially index them",
}
ASSUMPTIONS = ["pytensor's ancestors/io_toposort/get_idx_list and the attributes of its Ops behave as documented"]
REFUSE = [
    E(M + "MarginalModel.marginalize", "marginalize_method", "e", calls=("_marginalize", "_delete_rv_mappings")),
    E(M + "MarginalModel._marginalize", "marginalize_all", "ve", calls=("_transfer_rv_mappings", "replace_finite_discrete_marginal_subgraph")),
    E(M + "replace_finite_discrete_marginal_subgraph", "subgraph", "ve", calls=("replace_all",)),
]
DEP = [
    E(G + "find_conditional_input_rvs", "conditional_inputs", "v"),
    E(G + "static_shape_ancestors", "static_shapes", "v"),
    E(G + "is_conditional_dependent", "depends", "v"),
    E(G + "find_conditional_dependent_rvs", "dependents", "v"),
    E(M + "collect_shared_vars", "shared_vars", "v"),
]
AXES = [
    E(G + "get_support_axes", "get_support_axes", "v"),
    E(G + "_advanced_indexing_axis_and_ndim", "advanced_indexing", "v"),
    E(G + "_broadcast_dims", "broadcast", "ve"),
    E(G + "_subgraph_batch_dim_connection", "dim_connection", "e"),
    E(G + "subgraph_batch_dim_connection", "connections", "ve"),
    E(D + "MarginalRV.support_axes", "collapsed_axes", "v"),
]


def check(ctx):
    run_table(ctx, "marginal", "refusals", REFUSE)
    run_table(ctx, "marginal", "dependence", DEP)
    run_table(ctx, "marginal", "axes", AXES)
