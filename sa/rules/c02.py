"""C02 linear use of randomness: a random-generator state or key is consumed by exactly one draw; the advanced
state is what gets carried forward, and every symbolic random variable's update pairs each rng input with the
rng output that its inner graph advanced."""
import ast

from ..loader import AnalysisBroken
from ..q import callee_name, dotted, short, value_contains
from ..terms import NONE, T, const, sym

ASSUMPTIONS = ["passing the same generator state/key to two draws makes them identical or correlated (jax, pytensor)"]
RULES = {
    "single-use": "within one analysed entry (callees and scan/while-loop bodies included) a given rng variable or jax key is the source of at most one draw, split or carry on each path, and a key is not reused by every iteration of a loop",
    "advance": "the rng returned by a step/updates dict/inner graph output is the advanced state, not one that a draw already consumed",
    "update-map": "SymbolicRandomVariable.update maps each rng input position to the rng output advanced from it",
    "seed-per-item": "draws repeated in a loop over variables or chains do not all receive the same fixed seed",
}

KEY_SRC = ("PRNGKey", "key", "split", "fold_in")


KEYS = set()  # terms the analysed run uses as keys: first argument of a jax.random function


def key_uses(res):
    KEYS.clear()
    for e in res.events:
        if e.kind == "call" and not e.inlined and dotted(e.fn).startswith("jax.random.") and dotted(e.fn) not in ("jax.random.PRNGKey", "jax.random.key") and e.args and e.args[0].kind != "const":
            KEYS.add(e.args[0])
    for ev, fd, bound, val in res.i.callback_results:  # what a jax loop carries from a key is a key in its body
        if dotted(ev.fn).startswith("jax.lax."):
            for a in ev.args:
                for i, x in enumerate(a.kids if a.kind == "tuple" else ()):
                    if is_key_term(x):
                        KEYS.update(T("sub", (b, const(i))) for b in bound.values() if b.kind == "sym")


def is_key_term(t):
    """A jax key: result of PRNGKey/key/split, an element of a split, what jax.random takes as one, or a parameter named like one."""
    if t in KEYS:
        return True
    if t.kind == "call" and dotted(t.kids[0]) in ("jax.random.PRNGKey", "jax.random.key", "jax.random.split", "jax.random.fold_in"):
        return True
    if t.kind == "sub":
        return is_key_term(t.kids[0]) or (t.kids[1] is const("jax_state"))
    if t.kind == "sym":
        n = str(t.data).split(":")[-1]
        return n in ("rng_key", "key", "sampling_key", "prng_key")
    return False


def excl(e1, e2):
    f1 = dict(e1.guards)
    return any(c in f1 and f1[c] != p for c, p in e2.guards)


def consumptions(res):
    """[(state term, kind, event)] for pytensor rngs and jax keys."""
    out = []
    for e in res.events:
        if e.kind == "call" and not e.inlined:
            args = list(e.args)
            d = dotted(e.fn)
            rng = e.kw.get("rng")
            if rng is not None and rng is not NONE and e.name in ("dist", "rv_op", "__call__", "make_node") or (rng is not None and rng is not NONE and e.fn.kind in ("attr", "call", "glob", "sub")):
                out.append((rng, "draw", e))
            if e.name == "scan" and "pytensor" in d:
                ns = e.kw.get("non_sequences")
                if ns is not None and ns.kind in ("list", "tuple"):
                    for x in ns.kids:
                        if is_rng(x):
                            out.append((x, "draw", e))
            if "dist" == e.name or d.startswith("numpy.random"):
                continue
            key_args = []
            for a in args + list(e.kw.values()):
                if is_key_term(a):
                    key_args.append(a)
                elif a.kind in ("tuple", "list"):
                    key_args += [x for x in a.kids if is_key_term(x)]
            if e.fn.kind == "glob" and d in ("jax.random.PRNGKey", "jax.random.key"):
                continue
            if e.fn.kind == "glob" and d.split(".")[0] in ("print", "len", "isinstance", "type", "zip", "str", "repr"):
                continue
            for k in key_args:
                out.append((k, "draw", e))
        elif e.kind == "setitem" and e.args and e.args[0] is const("jax_state"):
            out.append((e.args[1], "carry", e))
    # states returned by callbacks
    for ev, fd, bound, val in res.i.callback_results:
        for t in carried(val):
            fake = Carry(ev, t)
            out.append((t, "carry", fake))
    return out


class Carry:
    def __init__(self, ev, t):
        self.ev, self.t = ev, t
        self.guards, self.loops, self.name = ev.guards, ev.loops, "carry"
        self.args, self.kw = [], {}
        self.fn = None

    def where(self):
        return self.ev.where()

    def inside(self):
        return self.ev.inside()


def carried(val):
    """rng/key states a loop body hands to the next iteration: keys in a returned carry tuple, updates-dict values."""
    out = []
    if val.kind in ("tuple", "list"):
        for x in val.kids:
            if x.kind == "dict":
                out += [v for v in x.kids[1::2]]
            elif is_key_term(x):
                out.append(x)
    elif val.kind == "dict":
        out += [v for v in val.kids[1::2]]
    return out


def is_rng(t):
    if t.kind == "alloc":
        return any(x.kind == "call" and dotted(x.kids[0]) == "numpy.random.default_rng" for x in t.walk())
    if t.kind == "sub" and t.kids[1].kind == "const" and t.kids[1].data == 0:
        return contains_dist_outputs(t.kids[0])
    return False


def contains_dist_outputs(t):
    return t.kind == "attr" and t.data == "outputs"


def depends_on_loop(t, loop):
    return any((x.kind == "elem" and x.data == loop) or (x.kind == "mu" and isinstance(x.data, tuple) and x.data[0] == loop) for x in t.walk())


def check(ctx):
    p = ctx.p
    total = 0
    seen_bad = set()
    reported = set()
    for fd in p.all_functions():
        src = ast.dump(fd.node)
        if not any(w in src for w in ("'rng'", "rng_key", "PRNGKey", "default_rng", "jax_state", "'key'", "_get_seeds_per_chain", "'random_seed'")):
            continue
        res = ctx.run(fd, callbacks=True, max_depth=6, opaque_fn=lambda f: f.name in ("build_graph", "stabilize", "quad_form_sym"))
        key_uses(res)
        cons = consumptions(res)
        groups = {}
        for t, kind, e in cons:
            if t.kind == "const":
                continue
            groups.setdefault(t, []).append((kind, e))
        for t, uses in groups.items():
            total += 1
            uses = dedupe(uses)
            con = f"{fd.qual}:{short(t, 70)}"
            clash = None
            for i in range(len(uses)):
                for j in range(i + 1, len(uses)):
                    if not excl(uses[i][1], uses[j][1]):
                        clash = (uses[i], uses[j])
                        break
                if clash:
                    break
            if clash:
                (k1, e1), (k2, e2) = clash
                site = (e1.where(), e2.where())
                if site in reported:
                    continue
                reported.add(site)
                rule = "advance" if "carry" in (k1, k2) else "single-use"
                ctx.bad(rule, f"{e1.inside()}:{names(e1)}/{names(e2)}",
                        f"the same random state {short(t, 60)} feeds {names(e1)} at {e1.where()} and {names(e2)} at {e2.where()} (entry {fd.qual})", e2.where())
            else:
                ctx.ok("single-use", con, uses[0][1].where())
            for kind, e in uses:
                for lp in e.loops or ():
                    if kind == "draw" and is_key_term(t) and not depends_on_loop(t, lp) and not derived_in_loop(t, lp, res):
                        ctx.bad("single-use", f"{e.inside()}:{names(e)}:loop", f"every iteration of {lp} uses the same key {short(t, 60)}", e.where())
        # seeds in loops
        for e in res.events:
            if e.kind == "call" and e.loops and "random_seed" in (e.kw or {}) and e.name in ("compile_pymc", "compile", "draw", "sample_posterior_predictive", "sample_prior_predictive", "sample") and not e.inlined:
                s = e.kw["random_seed"]
                if s is NONE:
                    continue
                total += 1
                lp = e.loops[-1]
                stateful = any(x.kind == "call" and dotted(x.kids[0]) == "numpy.random.default_rng" for x in s.walk())
                ctx.require(depends_on_loop(s, lp) or stateful or not loop_varies(e, lp), "seed-per-item", f"{fd.qual}:{e.name}",
                            f"every iteration of {lp} draws with the same seed {short(s, 60)}", e.where())
    update_maps(ctx)
    if total < 8:
        raise AnalysisBroken(f"only {total} random states found (expected at least 8)")


def loop_varies(e, lp):
    return True


def derived_in_loop(t, lp, res):
    return False


def names(e):
    return e.name or (callee_name(e.fn) if e.fn is not None else "call") or "call"


def dedupe(uses):
    out, seen = [], set()
    for k, e in uses:
        key = (k, id(getattr(e, "node", None)) if not isinstance(e, Carry) else ("c", id(e.ev.node)), e.guards)
        if key in seen:
            continue
        seen.add(key)
        out.append((k, e))
    return out


def update_maps(ctx):
    """SymbolicRandomVariable subclasses built in rv_op: inputs/outputs lists vs update()."""
    p = ctx.p
    builds = {}
    for fd in p.all_functions():
        if fd.name != "rv_op":
            continue
        res = ctx.run(fd, callbacks=True, max_depth=5)
        for e in res.events:
            if e.kind == "call" and e.fn is not None and e.fn.kind == "cls" and "inputs" in e.kw and "outputs" in e.kw:
                ins, outs = e.kw["inputs"], e.kw["outputs"]
                if ins.kind in ("list", "tuple") and outs.kind in ("list", "tuple"):
                    builds.setdefault(e.fn.data, []).append((e, ins.kids, outs.kids, res))
    n = 0
    for q, bl in builds.items():
        cls = p.cls(q)
        up = p.lookup_method(cls, "update")
        if up is None:
            continue
        ur = ctx.run(up, max_depth=2)
        val = ur.frozen
        node = sym([a for a in up.params() if a != "self"][0])
        if val.kind != "dict":
            ctx.open("update-map", q, f"update() returns {short(val)}", up.where())
            continue
        pairs = list(zip(val.kids[::2], val.kids[1::2]))
        for e, ins, outs, res in bl:
            rng_in = [i for i, x in enumerate(ins) if is_rng(x)]
            if not rng_in:
                ctx.open("update-map", q, "no rng input found", e.where())
                continue
            n += 1
            mapped = {}
            good = True
            msg = ""
            for k, v in pairs:
                i = idx_of(k, node, "inputs", len(ins))
                o = idx_of(v, node, "outputs", len(outs))
                if i is None or o is None:
                    good = None
                    continue
                mapped[i] = o
            if good is not None:
                for i in rng_in:
                    if i not in mapped:
                        good, msg = False, f"rng input {i} has no update: successive draws would repeat it"
                    else:
                        o = outs[mapped[i]]
                        if o is ins[i]:
                            good, msg = False, f"output {mapped[i]} returns rng input {i} unadvanced"
                        elif not advanced_from(o, ins[i], res):
                            good, msg = False, f"output {mapped[i]} ({short(o, 60)}) is not advanced from rng input {i}"
                d = p.lookup_class_assign(cls, "default_output")
                if good and d is not None:
                    dv = ast.literal_eval(d[1])
                    if dv in mapped.values():
                        good, msg = False, f"default_output {dv} is an rng output"
            ctx.require(good, "update-map", q, msg, up.where())
    if n < 3:
        raise AnalysisBroken(f"only {n} symbolic random variables with update() found (expected 3)")


def idx_of(t, node, which, n):
    if t.kind == "sub" and t.kids[0].kind == "attr" and t.kids[0].data == which and t.kids[0].kids[0] is node and t.kids[1].kind == "const":
        i = t.kids[1].data
        return i + n if i < 0 else i
    return None


def advanced_from(o, r, res):
    """`o` is computed from rng `r`: next_rng of a draw chain started at r, or an updates value of a scan over r."""
    return value_contains(o, r)
