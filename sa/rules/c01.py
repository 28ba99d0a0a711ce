"""C01 seed -> draw provenance: every random draw reached from an entry point that accepts a seed takes its
randomness from that seed, and no code in the package draws from numpy's (or Python's) process-global generator."""
import re

from ..q import assume, callee_name, dotted, facts_of, is_call, leaves, short, tied, value_contains
from ..terms import NONE, compare, sym
from ..loader import AnalysisBroken

ASSUMPTIONS = [
    "pymc's samplers and compile step are deterministic given random_seed; jax/blackjax given their key",
    "a shared default_rng() created while building a graph is reseeded by pymc when the graph is compiled with random_seed",
]
RULES = {
    "seed-flow": "every draw call reachable from an entry point with a seed parameter has its seed/key/rng argument computed from that parameter on every path on which a seed was given",
    "seed-used": "an entry point with a seed parameter reaches at least one draw, i.e. the parameter is not dropped",
    "global-rng": "no call into numpy.random's or random's module-level generator; no unseeded default_rng() outside the shared variable of a graph under construction",
}

SEED = re.compile(r"^(random_seed|seed|random_state|rng|rng_key)$")

# callee name -> keyword holding the seed (pymc level)
PYMC_DRAWS = {
    "pymc.sample": "random_seed",
    "pymc.sample_posterior_predictive": "random_seed",
    "pymc.sample_prior_predictive": "random_seed",
    "pymc.draw": "random_seed",
    "pymc.sampling.forward.draw": "random_seed",
    "pymc.fit": "random_seed",
    "pymc.sample_smc": "random_seed",
    "pymc.pytensorf.compile_pymc": "random_seed",
    "pymc.pytensorf.compile": "random_seed",
    "pymc.compile_pymc": "random_seed",
}
GRAPH_DRAWS_ONLY = {"pymc.pytensorf.compile_pymc", "pymc.pytensorf.compile", "pymc.compile_pymc"}
NP_OK = {"Generator", "RandomState", "SeedSequence", "BitGenerator", "PCG64", "default_rng"}
RVS = {"rvs"}
RNG_METHODS = {"uniform", "normal", "poisson", "integers", "standard_normal", "choice", "multivariate_normal", "random",
               "gamma", "exponential", "binomial", "permutation", "shuffle", "beta"}
JAX_KEYS = {"jax.random.PRNGKey", "jax.random.key"}

EXPECTED = [
    "pymc_extras.inference.find_map.find_MAP",
    "pymc_extras.inference.laplace.fit_laplace",
    "pymc_extras.inference.laplace.sample_laplace_posterior",
    "pymc_extras.inference.pathfinder.fit_pathfinder",
    "pymc_extras.inference.smc.sampling.sample_smc_blackjax",
    "pymc_extras.model.marginal.marginal_model.MarginalModel.recover_marginals",
    "pymc_extras.model_builder.ModelBuilder.fit",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.sample_conditional_prior",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.sample_conditional_posterior",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.sample_unconditional_prior",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.sample_unconditional_posterior",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.forecast",
    "pymc_extras.statespace.core.statespace.PyMCStateSpace.impulse_response_function",
]


def draw_arg(e):
    """(description, seed-carrying term or None) when the call event draws random numbers, else None."""
    d = dotted(e.fn)
    nm = e.name
    if e.fn is not None and e.fn.kind == "glob":
        if d in PYMC_DRAWS:
            v = e.kw.get(PYMC_DRAWS[d])
            if v is None:
                for x in e.extra or []:
                    v = x  # **kwargs: may carry the seed
            return d, v
        if d in JAX_KEYS:
            return d, e.arg(0, "seed")
        if d == "numpy.random.default_rng":
            return d, e.arg(0, "seed")
        if d.startswith("numpy.random.") and d.split(".")[2] in ("RandomState", "SeedSequence"):
            return d, e.arg(0, "seed")
    if nm == "rvs":
        return d, e.kw.get("random_state") or (e.fn.kids[0] if e.fn.kind == "attr" else None)
    if nm == "initial_point" or (e.fn is not None and e.fn.kind == "call" and callee_name(e.fn.kids[0]) == "make_initial_point_fn"):
        return nm or "make_initial_point_fn()", e.arg(0, "random_seed") or e.arg(0, "seed")
    if "rng_key" in e.kw and (e.fn.kind != "func"):
        return d, e.kw["rng_key"]
    return None


def shared_rng_nodes(events):
    """default_rng() results that are wrapped in pytensor.shared (graph construction)."""
    out = set()
    for e in events:
        if e.kind == "call" and e.name == "shared":
            for a in list(e.args) + list(e.kw.values()):
                for x in a.walk():
                    if x.kind == "call" and dotted(x.kids[0]) == "numpy.random.default_rng":
                        out.add(x)
    return out


def check(ctx):
    p = ctx.p
    entries = []
    for fd in p.all_functions():
        if fd.cls is not None and not ("Model" in fd.cls.name or "Space" in fd.cls.name or fd.name in ("rng_fn",) or fd.is_classmethod or True):
            continue
        if any(SEED.match(x) for x in fd.params()):
            entries.append(fd)
    quals = {f.qual for f in entries}
    for q in EXPECTED:
        p.func(q)  # anchor must exist
        if q not in quals:
            ctx.bad("seed-used", q, "the public entry point no longer accepts a seed", p.func(q).where())
    n_draws = 0
    for fd in entries:
        public = not fd.name.startswith("_")
        seedp = [x for x in fd.params() if SEED.match(x)]
        try:
            res = ctx.run(fd, callbacks=True, opaque_fn=heavy)
        except RecursionError:
            ctx.open("seed-flow", fd.qual, "value graph too deep")
            continue
        roots = [sym(x) for x in seedp]
        shared = shared_rng_nodes(res.events)
        reached = 0
        used = False
        for e in res.events:
            if e.kind != "call":
                continue
            if any(value_contains(a, r) for r in roots for a in list(e.args) + list(e.kw.values()) + list(e.extra or []) + ([e.fn] if e.fn is not None else [])):
                used = used or not e.inlined
            da = draw_arg(e)
            if da is None:
                continue
            d, v = da
            if d == "numpy.random.default_rng" and e.result in shared:
                continue
            if d == "numpy.random.default_rng" and any(e.result is x for x in shared):
                continue
            con = f"{fd.qual}->{d}"
            facts = facts_of(e)
            if any(facts.get(compare("is", r, NONE)) is True for r in roots):
                continue  # only reached when no seed was given
            if d in GRAPH_DRAWS_ONLY and not draws_graph(e, facts):
                continue
            if e.name == "initial_point" and template_only(e, res):
                continue
            if v is None:
                ctx.bad("seed-flow", con, f"{d} draws without the seed given to {fd.qual}", e.where())
                n_draws += 1
                continue
            okk = any(tied(v, r, facts) for r in roots) or cb_tied(v, res, roots)
            if not okk and any(x.kind == "sym" and str(x.data).startswith("cb:") for x in v.walk()):
                ctx.open("seed-flow", con, "key comes from an opaque loop carry", e.where())
                continue
            reached += 1
            n_draws += 1
            ctx.require(okk, "seed-flow", con,
                        f"randomness of {d} is {short(v)}, not computed from `{'/'.join(seedp)}` on every path", e.where())
        if public and fd.qual in EXPECTED:
            ctx.require(reached > 0 or used, "seed-used", fd.qual, f"`{'/'.join(seedp)}` reaches no draw", fd.where())
        elif public and fd.cls is None and not any("_logprob" in d or "register" in d for d in fd.decos):
            ctx.require(used or reached > 0 or uses_param(fd, seedp), "seed-used", fd.qual, f"`{'/'.join(seedp)}` is never used", fd.where())
    if n_draws < 10:
        raise AnalysisBroken(f"only {n_draws} draw sites found from seed-taking entry points (expected at least 10)")
    ctx.notes.append(f"{len(entries)} functions with a seed parameter, {n_draws} draw obligations")
    # package-wide: no global generator
    import ast

    n = 0
    for m in p.modules.values():
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call):
                d = resolve_dotted(m, node.func)
                if d is None:
                    continue
                if d.startswith("numpy.random.") or d.startswith("random."):
                    last = d.split(".")[-1]
                    n += 1
                    where = f"{m.relpath}:{node.lineno}"
                    if d.startswith("random.") or last not in NP_OK:
                        ctx.bad("global-rng", f"{m.name}:{d}", f"{d} draws from the process-global generator", where)
                    elif last in ("default_rng", "RandomState") and not node.args and not node.keywords and not in_shared(m, node):
                        ctx.bad("global-rng", f"{m.name}:{d}()", f"unseeded {d}() used for drawing", where)
                    else:
                        ctx.ok("global-rng", f"{m.name}:{d}", where)


def template_only(e, res):
    """The initial point is only used as a shape/name template (first argument of join_nonshared_inputs, shapes)."""
    r = e.result

    def leaks(t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is r:
                return True
            if x.kind == "attr" and x.data in ("shape", "size", "dtype", "ndim", "point_map_info"):
                continue
            if x.kind == "call" and callee_name(x.kids[0]) == "rmap":
                st.extend(x.kids[1:2])
                continue
            if x.kind == "call" and callee_name(x.kids[0]) in ("join_nonshared_inputs", "keys", "len"):
                st.extend(x.kids[2:])
                continue
            st.extend(x.kids)
        return False

    for ev in res.events:
        if ev is e or ev.kind != "call" or ev.inlined:
            continue
        args = list(ev.args) + list(ev.kw.values()) + list(ev.extra or [])
        if ev.name in ("join_nonshared_inputs",):
            args = args[1:] if ev.args else args
        if ev.name in ("keys", "map"):
            continue  # pass-through: judged where its result is used
        if ev.name == "rmap":
            args = args[:1]  # the second argument only names the variables
        if any(leaks(a) for a in args):
            return False
    return True


def uses_param(fd, seedp):
    import ast

    return any(isinstance(n, ast.Name) and n.id in seedp and isinstance(n.ctx, ast.Load) for n in ast.walk(fd.node))


def draws_graph(e, facts):
    """Does a compile call compile random draws (an RV `.dist(...)`), as opposed to a logp/gradient?"""
    for a in list(e.args) + list(e.kw.values()):
        for x in assume(a, facts).walk():
            if x.kind == "call" and callee_name(x.kids[0]) == "dist":
                return True
    return False


def cb_tied(v, res, roots):
    return False


def heavy(fd):
    return fd.name in ("build_graph", "stabilize", "quad_form_sym", "split_vars_into_seq_and_nonseq")


def resolve_dotted(m, node):
    from ..loader import dotted_of

    d = dotted_of(node)
    if d is None:
        return None
    head, *rest = d.split(".")
    if head in m.imports:
        return ".".join([m.imports[head], *rest])
    return None


def in_shared(m, node):
    import ast

    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if nm == "shared" and any(x is node for a in n.args for x in ast.walk(a)):
                return True
            if nm == "shared":
                # shared(rng) with rng = default_rng() bound just before
                for a in n.args:
                    if isinstance(a, ast.Name):
                        for s in ast.walk(m.tree):
                            if isinstance(s, ast.Assign) and s.value is node and any(isinstance(t, ast.Name) and t.id == a.id for t in s.targets):
                                return True
    return False
