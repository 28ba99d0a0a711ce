"""C04 a marginalised clone shares nothing with its source and keeps every table in step."""
from ..table import E, run_table
from ..core import origin
from ..terms import T
from ..q import dotted

M = "pymc_extras.model.marginal.marginal_model."
RULES = {
    "tables": "from_model, clone, marginalize, unmarginalize, _delete_rv_mappings, _transfer_rv_mappings and logp do exactly the table operations of their specification, under the same conditions",
    "alias": "no table stored on the new model by from_model is the source model's own container",
}
ASSUMPTIONS = ["pymc.Model, treedict and clone_replace behave as documented", "dict.copy()/list comprehensions create new containers"]
TABLE = [
    E(M + "MarginalModel.from_model", "from_model", "av"),
    E(M + "MarginalModel.__init__", "model_init"),
    E(M + "MarginalModel._logp", "plain_logp"),
    E("pymc_extras.model.marginal.distributions.MarginalRV.__init__", "rv_init"),
    E(M + "MarginalModel.clone", "clone", "v"),
    E(M + "MarginalModel._delete_rv_mappings", "delete_rv_mappings", "e"),
    E(M + "MarginalModel._transfer_rv_mappings", "transfer_rv_mappings", "e"),
    E(M + "MarginalModel.unmarginalize", "unmarginalize", "e", calls=("register_rv",)),
    E(M + "marginalize", "marginalize_function", "ve", calls=("marginalize",)),
    E(M + "MarginalModel.logp", "logp_method", "v"),
    E(M + "MarginalModel._to_transformed", "to_transformed", "v"),
]


def check(ctx):
    run_table(ctx, "marginal", "tables", TABLE)
    r = ctx.run(M + "MarginalModel.from_model")
    src = r.params["model"]
    for k, v in sorted(((k, v) for k, v in r.state.store.items() if isinstance(k, tuple) and k[0] == "attr" and k[1] is r.value), key=lambda x: str(x[0][2])):
        bad = own_leaves(r.i.freeze(v, r.state), src)
        where = r.func.where()
        ctx.require(not bad, "alias", f"{M}MarginalModel.from_model.{k[2]}", f"the clone's `{k[2]}` is the source model's own container {', '.join(dotted(b) for b in bad)}", where)


def own_leaves(t, src, out=None):
    """Attribute chains of `src` that `t` may be (not merely be computed from)."""
    out = [] if out is None else out
    if t.kind == "phi":
        own_leaves(t.kids[1], src, out)
        own_leaves(t.kids[2], src, out)
    elif t.kind == "mut":
        own_leaves(t.kids[0], src, out)
    elif t.kind == "attr" and t.data not in ("name",):
        x = t
        while x.kind == "attr":
            x = x.kids[0]
        if x is src:
            out.append(t)
    return out
