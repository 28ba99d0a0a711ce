"""C03 caller-owned arguments are not changed in place."""
import ast

from ..interp import MUTATORS
from ..loader import AnalysisBroken
from ..q import callee_name, cname, dotted, facts_of, assume, short
from ..terms import NONE, T, compare, const, sym

ASSUMPTIONS = [
    "numpy/pandas views: .values/.to_numpy()/.T/reshape/ravel/squeeze/asarray share memory with their argument; .copy()/deepcopy/array/astype do not",
    "external callees do not modify their arguments, except the in-place operations enumerated in the rule",
]
RULES = {
    "arg-effect": "no in-place operation (container method, item/attribute store or delete, augmented assignment, inplace=True, ufunc out=) reaches an object that the caller passed in, or something reachable from it, in any public entry point or the helpers it calls",
}

VIEWS = {"asarray", "atleast_1d", "atleast_2d", "atleast_3d", "to_numpy", "reshape", "ravel", "squeeze", "view", "transpose",
         "swapaxes", "moveaxis", "expand_dims", "broadcast_to", "cast", "to_frame", "as_tensor", "as_tensor_variable", "diagonal", "asanyarray"}
SHALLOW = {"copy", "dict", "list", "tuple", "set", "sorted", "__copy__", "reversed", "zip", "enumerate", "items", "values", "keys", "iter"}
# in-place functions: callee -> index of the changed argument
INPLACE_FN = {"numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.copyto": 0, "numpy.place": 0, "numpy.putmask": 0,
              "builtins.setattr": 0, "setattr": 0, "delattr": 0, "numpy.random.shuffle": 0, "random.shuffle": 0, "numpy.nan_to_num": None}
PARAM_OK = {
    # parameters whose purpose is to be changed, or that are registries/graph objects rather than caller data
    "self", "cls",
}
# (entry, parameter): reason
ACCEPTED = {
    ("fgraph", "replace_finite_discrete_marginal_subgraph"): "the function graph is the object being rewritten",
}


def roots(t, deep=False, depth=0):
    """Parameters whose object (deep=False: the object itself; True: it or something inside it) `t` may denote."""
    out = set()
    if depth > 60:
        return out
    k = t.kind
    if k == "sym":
        out.add(t)
    elif k == "attr":
        if t.data in ("values", "T", "array", "index", "columns", "data", "flat", "loc", "iloc", "at", "iat", "attrs", "coords"):
            out |= roots(t.kids[0], True, depth + 1)
        else:
            out |= roots(t.kids[0], True, depth + 1)
    elif k in ("sub", "elem"):
        out |= roots(t.kids[0], True, depth + 1)
    elif k == "phi":
        out |= roots(t.kids[1], deep, depth + 1) | roots(t.kids[2], deep, depth + 1)
    elif k == "mu":
        for x in t.kids:
            out |= roots(x, deep, depth + 1)
    elif k == "mut":
        out |= roots(t.kids[0], deep, depth + 1)
    elif k == "op" and t.data in ("or", "and", "ifexp"):
        for x in t.kids:
            out |= roots(x, deep, depth + 1)
    elif k == "op" and t.data == "kwget":
        out |= roots(t.kids[0], True, depth + 1)
    elif k == "call":
        n = callee_name(t.kids[0])
        fn = t.kids[0]
        if n in ("get", "pop", "setdefault", "__getitem__") and fn.kind == "attr":
            out |= roots(fn.kids[0], True, depth + 1)
            na = t.data[0]
            for x in t.kids[2 : 1 + na]:
                out |= roots(x, deep, depth + 1)
        elif n in VIEWS:
            src = fn.kids[0] if fn.kind == "attr" and not dotted(fn).startswith(("numpy.", "pytensor.")) else (t.kids[1] if len(t.kids) > 1 else None)
            if src is not None:
                out |= roots(src, deep, depth + 1)
        elif n in SHALLOW:
            if deep:
                if fn.kind == "attr":
                    # DataFrame/ndarray .copy() is deep; dict/list .copy() is shallow -> only nested containers matter
                    out |= set() if n == "copy" else roots(fn.kids[0], True, depth + 1)
                elif len(t.kids) > 1:
                    out |= roots(t.kids[1], True, depth + 1)
    elif k in ("list", "tuple", "dict", "set") and deep:
        pass
    return out


def effect_events(res):
    """(event, term of the changed object, description)"""
    for e in res.events:
        if e.kind == "mutate":
            yield e, e.fn.kids[0], f".{e.fn.data}()"
        elif e.kind == "setitem":
            yield e, e.fn.kids[0], "[...] ="
        elif e.kind == "setattr":
            b = e.fn.kids[0]
            yield e, res.i.freeze(b, res.state) if False else b, f".{e.fn.data} ="
        elif e.kind == "aug":
            o, tgt, cur = e.extra
            if tgt in ("Name", "Attribute", "Subscript"):
                yield e, e.args[0], f"{o}="
        elif e.kind == "call":
            d = dotted(e.fn)
            if d in INPLACE_FN:
                i = INPLACE_FN[d]
                if i is not None and len(e.args) > i:
                    yield e, e.args[i], f"{d}()"
                elif i is None and e.kw.get("copy") is const(False) and e.args:
                    yield e, e.args[0], f"{d}(copy=False)"
            if e.kw.get("inplace") is const(True) and e.fn.kind == "attr":
                yield e, e.fn.kids[0], f".{e.fn.data}(inplace=True)"
            if "out" in e.kw and e.kw["out"] is not NONE and d.startswith("numpy."):
                yield e, e.kw["out"], f"{d}(out=)"
            if e.fn is not None and e.fn.kind == "attr" and e.fn.data in ("__setitem__", "__delitem__", "__setattr__", "append", "extend", "sort", "fill", "update", "insert", "remove", "clear", "popitem", "setdefault") and not d.startswith(("numpy", "pytensor", "pymc", "jax", "pandas")):
                yield e, e.fn.kids[0], f".{e.fn.data}()"
            if e.name == "setattr" and e.args:
                yield e, e.args[0], "setattr()"


def is_immutable_aug(e, t):
    """`x += y` on a name is only an in-place change for arrays/lists; scalars and tensors rebind."""
    rhs = e.args[1]
    for x in (t, rhs):
        if x.kind == "const" or x.kind == "fstr" or x.kind == "tuple":
            return True
        if x.kind == "op":
            return True
        if x.kind == "call" and (cname(x) or "") in ("len", "int", "float", "sum", "normalize_size_param"):
            return True
        if x.kind == "call" and dotted(x.kids[0]).startswith(("pytensor.tensor.", "jax.")):
            return True
    return False


def scalar_like(root, fd):
    a = fd.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == root and x.annotation is not None:
            s = ast.unparse(x.annotation)
            if s in ("int", "float", "str", "bool") or s.startswith(("int |", "str |", "float |")):
                return True
    return False


def entries(p):
    for fd in p.all_functions():
        n = fd.name
        if n.startswith("_") and n not in ("__init__", "__call__", "__new__", "__add__", "__setitem__", "__getitem__", "__exit__"):
            continue
        if fd.cls is not None and fd.cls.name.startswith("_") and n not in ("dist",):
            continue
        yield fd


# parameters that may be changed only when the caller asked for it through another parameter
ON_REQUEST = {
    "pymc_extras.model.marginal.marginal_model.MarginalModel.recover_marginals:idata": "extend_inferencedata",
}
# classes/functions whose argument is, by its documented role, the object to be filled in or rewritten
OUTPUT_PARAMS = {
    "pymc_extras.model_builder.ModelBuilder.set_idata_attrs:idata": "documented to set attributes on the given InferenceData",
    "pymc_extras.inference.smc.sampling.add_to_inference_data:inference_data": "documented to add diagnostics to the given InferenceData",
    "pymc_extras.statespace.core.representation.PytensorRepresentation.__setitem__:value": "a symbolic variable is labelled with the matrix slot it fills",
    "pymc_extras.utils.spline.BSplineBasis.perform:output_storage": "pytensor's Op protocol: perform fills output_storage",
    "pymc_extras.inference.laplace.add_fit_to_inferencedata:idata": "documented to add the fit group to the given InferenceData",
    "pymc_extras.inference.laplace.add_data_to_inferencedata:idata": "documented to add groups to the given InferenceData",
}


def check(ctx):
    p = ctx.p
    n = 0
    seen = set()
    for fd in entries(p):
        params = [x for x in fd.params() if x not in ("self", "cls")]
        a = fd.node.args
        if a.kwarg:
            params.append("**" + a.kwarg.arg)
        if a.vararg:
            params.append("*" + a.vararg.arg)
        if not params:
            continue
        res = ctx.run(fd, callbacks=True, max_depth=8, opaque_fn=lambda f: f.name in ("build_graph",))
        first = fd.params()[:1]
        allp = {sym(x): x for x in params}
        bad_params = {}
        for e, obj, how in effect_events(res):
            t = assume(obj, facts_of(e))
            if e.kind == "aug" and (is_immutable_aug(e, t)):
                continue
            for r in roots(t):
                if r not in allp:
                    continue
                nm = allp[r]
                if nm.startswith("**") or nm.startswith("*"):
                    if t is r or (t.kind == "mut"):
                        continue  # the keyword dict itself is built per call
                    if nm.startswith("*") and not nm.startswith("**") and t is r:
                        continue
                if t is r and e.kind == "setattr" and False:
                    continue
                if scalar_like(nm, fd) and e.kind == "aug":
                    continue
                key = f"{fd.qual}:{nm}"
                if key in OUTPUT_PARAMS:
                    continue
                if key in ON_REQUEST and facts_of(e).get(sym(ON_REQUEST[key])) is True:
                    continue
                bad_params.setdefault(nm, []).append((e, t, how))
        for x in params:
            n += 1
            con = f"{fd.qual}:{x}"
            if x in bad_params:
                for e, t, how in bad_params[x]:
                    how = how.strip()
                    if (e.where(), how) in seen:
                        continue
                    seen.add((e.where(), how))
                    ctx.bad("arg-effect", f"{fd.qual}:{x}: {how}",
                            f"{short(t, 60)}{how} changes the caller's `{x}` given to {fd.qual}", e.where())
            else:
                ctx.ok("arg-effect", con, fd.where())
    if n < 300:
        raise AnalysisBroken(f"only {n} parameters analysed")
