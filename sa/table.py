"""Obligations "this function denotes what its specification denotes", listed as tables.

`E(func, spec, what, ...)`: `func` is a dotted name in the package, `spec` a function of sa/spec/<module>.py taking the
same parameters. `what` selects what must agree:
  v  the returned value                     e  refusals, stores and in-place operations (with their conditions)
  r  refusals only                          a  attributes of the returned object
  s  attributes of `self` afterwards        c  the calls listed in `calls` (with their conditions)
  *  all that applies: v if the specification returns something, s if it assigns to attributes of its object, and e
     including every call the specification makes as a statement
Functions of the package known to the specification are compared call by call (each has an entry of its own or is
outside the property); functions that are new are looked into. If that comparison fails it is repeated with every
function looked into, so moving code between functions is not a difference.
"""
import ast
import multiprocessing as mp
import os
import signal
import time

from .core import Ctx
from .loader import AnalysisBroken
from .terms import T

_KNOWN = None
SERIAL = False
ENTRY_S = 90    # an obligation that takes longer is left open
TOTAL_S = 700   # all obligations of one check
_T0 = time.time()


_DECOS = None


class TooSlow(BaseException):
    pass


def _alarm(*_):
    raise TooSlow()


def known():
    global _KNOWN
    if _KNOWN is None:
        with open(os.path.join(os.path.dirname(__file__), "spec", "known_functions.txt")) as f:
            _KNOWN = {x.strip() for x in f if x.strip()}
    return _KNOWN


class _Full(ast.NodeTransformer):
    """Names spelled by where they come from."""

    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        m = self.m
        if n.id in m.imports:
            return ast.Name(m.imports[n.id], ast.Load())
        if n.id in m.funcs or n.id in m.classes or n.id in m.assigns:
            return ast.Name(f"{m.name}.{n.id}", ast.Load())
        return n


def deco_keys(fd):
    """Decorators that decide how a function is reached: registration, binding."""
    out = []
    for d in fd.node.decorator_list:
        s = ast.unparse(_Full(fd.module).visit(ast.parse(ast.unparse(d), mode="eval").body))
        if ".register" in s or s in ("staticmethod", "classmethod", "property") or s.endswith(".setter"):
            out.append(s)
    return out


def decorators(sub, rule, con, fd):
    """A function registered for a type, or bound in some way, stays so."""
    global _DECOS
    if _DECOS is None:
        _DECOS = {}
        with open(os.path.join(os.path.dirname(__file__), "spec", "decorators.txt")) as f:
            for line in f:
                q, _, ks = line.strip().partition(": ")
                _DECOS[q] = ks.split(" ; ")
    want, have = _DECOS.get(fd.qual, []), deco_keys(fd)
    for k in want:
        if k in have:
            sub.ok(rule, f"{con} @{k}", fd.where())
        elif ".register" in k:
            head = k.split("(")[0].split(".")[-2]
            tree = ast.walk(fd.module.tree)
            other = any(isinstance(n, ast.Call) and "register" in ast.unparse(n.func) and fd.name in ast.unparse(n) for n in tree)
            if other or len(have) > len(want) or any(h not in want for h in have) and not all(ast.unparse(d).split("(")[0].split(".")[0] == head for d in fd.node.decorator_list if ".register" in ast.unparse(d)):
                sub.open(rule, f"{con} @{k}", "registered in another way", fd.where())
            else:
                sub.bad(rule, f"{con} @{k}", f"is no longer registered: `{k}`", fd.where())
        elif k == "classmethod" and "staticmethod" in have or k == "staticmethod" and not have and len(fd.params()) and fd.params()[0] == "self":
            sub.open(rule, f"{con} @{k}", "bound in another way", fd.where())
        elif k.endswith(".setter") or k == "property":
            sub.open(rule, f"{con} @{k}", "defined in another way", fd.where())
        else:
            sub.bad(rule, f"{con} @{k}", f"is no longer a {k}", fd.where())


def sig(fd):
    return f"{fd.qual}({','.join(fd.params())})"


class E:
    def __init__(self, func, spec=None, what="*", calls=(), names=None, inline=(), opaque=(), types=None, extra=(), canon=None, self_cls=None, label=None, drop=()):
        self.func, self.spec, self.what, self.calls, self.names = func, spec or func.split(".")[-1], what, calls, names
        self.inline, self.opaque, self.types, self.extra, self.canon, self.self_cls = inline, opaque, types, extra, canon, self_cls
        self.label, self.drop = label, drop


def dangling(p, module):
    """Names the specification uses that the package no longer has."""
    m = p.load_spec(module)
    out = set()
    for n, d in m.imports.items():
        if d.startswith("pymc_extras.") and p.resolve(d)[0] == "ext":
            out.add(n)
    have = {fd.name for fd in p.all_functions()}
    out |= {k.split("(")[0].rsplit(".", 1)[-1] for k in known()} - have
    return out


def uses(m, name, seen=None):
    seen = set() if seen is None else seen
    if name in seen or name not in m.funcs:
        return set()
    seen.add(name)
    out = set()
    for n in ast.walk(m.funcs[name].node):
        if isinstance(n, ast.Name):
            out.add(n.id)
            out |= uses(m, n.id, seen)
        elif isinstance(n, ast.Attribute):
            out.add(n.attr)
    return out


def run_table(ctx, module, rule, entries):
    """One forked worker per core; each obligation is independent."""
    ctx.p.load_spec(module)
    known()
    gone = dangling(ctx.p, module)
    jobs = [(ctx, module, rule, e, gone) for e in entries]
    if SERIAL or len(entries) < 4:
        res = [_entry(j) for j in jobs]
    else:
        _JOBS[:] = jobs
        with mp.get_context("fork").Pool(min(os.cpu_count() or 1, 8, len(jobs))) as pool:
            res = pool.map(_job, range(len(jobs)), chunksize=1)
    for obs, fns, ev in res:
        ctx.obs += obs
        ctx.functions |= fns
        ctx.events += ev


_JOBS: list = []


def _job(i):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, min(ENTRY_S * (8 if _JOBS[i][0].tier == "thorough" else 1), int(TOTAL_S - (time.time() - _T0)))))
    try:
        return _entry(_JOBS[i])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _entry(job):
    ctx, module, rule, e, gone = job
    con = e.label or e.func
    kn = known()
    try:
        fd = ctx.p.func(e.func)
    except AnalysisBroken as x:
        return [("open", rule, con, str(x), "")], set(), 0
    try:
        sub = compare(ctx, module, rule, e, fd, con, lambda f: (sig(f) in kn and f.name not in e.inline and f.qual not in e.inline) or f.name in e.opaque)
        if any(o[0] != "ok" for o in sub.obs):
            odd = {c[0] for c in sub.calls_differ}
            stays = lambda f: (sig(f) in kn and f.name not in e.inline and f.qual not in e.inline and f.name not in odd) or f.name in e.opaque or f.qual == fd.qual
            if any(k.split("(")[0].rsplit(".", 1)[-1] in odd for k in kn):
                # helpers called in another way: what they do counts
                sub3 = compare(ctx, module, rule, e, fd, con, stays)
                st1, st3 = ({o[0] for o in x.obs} for x in (sub, sub3))
                if st3 == {"ok"} or "bad" in st1 and "bad" not in st3:
                    sub = sub3
        if any(o[0] != "ok" for o in sub.obs):
            try:
                sub2 = compare(ctx, module, rule, e, fd, con, lambda f: f.name in e.opaque or f.qual == fd.qual)
                st1, st2 = ({o[0] for o in x.obs} for x in (sub, sub2))
                if st2 == {"ok"} or "bad" not in st1 and "bad" in st2:
                    sub = sub2
            except AnalysisBroken:
                pass
    except TooSlow:
        return [("open", rule, con, "not decided within the time limit", fd.where())], set(), 0
    except AnalysisBroken as x:
        return [("open", rule, con, str(x), fd.where())], set(), 0
    lost = gone & uses(ctx.p.load_spec(module), e.spec)
    obs = []
    for st, r, c, msg, w in sub.obs:
        if st == "bad" and lost:
            obs.append(("open", r, c, f"{sorted(lost)} no longer exist; {msg}", w))
        else:
            obs.append((st, r, c, msg, w))
    return obs, set(sub.functions), sub.events


def default_map(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    out = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def literal(n):
    try:
        v = ast.literal_eval(n)
        return (type(v).__name__ if isinstance(v, bool | str | bytes) or v is None else "", v)
    except (ValueError, TypeError, SyntaxError):
        return None


def defaults(sub, rule, con, cur, ref, where):
    """Options left out by the caller take the value the specification gives them."""
    a, b = default_map(cur), default_map(ref)
    names = {x.arg for x in cur.args.posonlyargs + cur.args.args + cur.args.kwonlyargs}
    for n in b:
        if n in a:
            x, y = literal(a[n]), literal(b[n])
            if (x is not None and x == y) or ast.dump(a[n]) == ast.dump(b[n]):
                sub.ok(rule, f"{con}({n}=)", where)
            elif x is not None and y is not None:
                sub.bad(rule, f"{con}({n}=)", f"`{n}` defaults to {ast.unparse(a[n])} where {ast.unparse(b[n])} is required", where)
            else:
                sub.open(rule, f"{con}({n}=)", f"default {ast.unparse(a[n])} not comparable with {ast.unparse(b[n])}", where)
        elif n in names:
            sub.bad(rule, f"{con}({n}=)", f"`{n}` has no default where {ast.unparse(b[n])} is required", where)


def class_attrs(ctx, rule, table):
    """Class-level constants: {"module.Class": {"attr": "expression"}}."""
    for q, attrs in table.items():
        try:
            cd = ctx.p.cls(q)
        except AnalysisBroken as x:
            ctx.open(rule, q, str(x))
            continue
        have = {}
        for n in cd.node.body:
            if isinstance(n, ast.Assign):
                have.update({t.id: n.value for t in n.targets if isinstance(t, ast.Name)})
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                have[n.target.id] = n.value
        for a, e in attrs.items():
            e = ast.parse(e, mode="eval").body
            where = f"{cd.module.relpath}:{cd.node.lineno}"
            if a not in have:
                ctx.open(rule, f"{q}.{a}", "not a plain class attribute", where)
            elif ast.dump(have[a]) == ast.dump(e):
                ctx.ok(rule, f"{q}.{a}", where)
            elif literal(have[a]) is not None and literal(e) is not None:
                ctx.bad(rule, f"{q}.{a}", f"is {ast.unparse(have[a])} where {ast.unparse(e)} is required", where)
            else:
                ctx.open(rule, f"{q}.{a}", "not comparable", where)


def const_value(p, m, n, depth=0):
    """Value of a constant expression over literals, names of the same module, and dict/list/tuple/zip/range of those."""
    if depth > 20:
        raise ValueError
    ev = lambda x: const_value(p, m, x, depth + 1)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        if n.id in m.assigns:
            return ev(m.assigns[n.id])
        if n.id in m.imports:
            d = m.imports[n.id]
            o = p.modules.get(d.rpartition(".")[0])
            if o is not None and d.rpartition(".")[2] in o.assigns:
                return const_value(p, o, o.assigns[d.rpartition(".")[2]], depth + 1)
        raise ValueError
    if isinstance(n, ast.List | ast.Tuple | ast.Set):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                out += list(ev(x.value))
            else:
                out.append(ev(x))
        return {ast.List: list, ast.Tuple: tuple, ast.Set: set}[type(n)](out)
    if isinstance(n, ast.Dict):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(ev(v))
            else:
                out[ev(k)] = ev(v)
        return out
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        return -ev(n.operand)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add | ast.BitOr):
        a, b = ev(n.left), ev(n.right)
        return a + b if isinstance(n.op, ast.Add) else a | b
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "tuple", "zip", "range", "set", "sorted", "reversed"):
        f = {"dict": dict, "list": list, "tuple": tuple, "zip": zip, "range": range, "set": set, "sorted": sorted, "reversed": reversed}[n.func.id]
        return f(*[ev(a) for a in n.args], **{k.arg: ev(k.value) for k in n.keywords})
    if isinstance(n, ast.DictComp | ast.ListComp | ast.GeneratorExp) and len(n.generators) == 1 and not n.generators[0].ifs:
        g = n.generators[0]
        names = [g.target.id] if isinstance(g.target, ast.Name) else [x.id for x in g.target.elts] if isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts) else None
        if names is None:
            raise ValueError
        out = []
        for item in ev(g.iter):
            vals = dict(zip(names, [item] if isinstance(g.target, ast.Name) else item))

            class Sub(ast.NodeTransformer):
                def visit_Name(self, x):
                    return ast.Constant(vals[x.id]) if x.id in vals else x

            sub = lambda x: ev(Sub().visit(ast.parse(ast.unparse(x), mode="eval").body))
            out.append((sub(n.key), sub(n.value)) if isinstance(n, ast.DictComp) else sub(n.elt))
        return dict(out) if isinstance(n, ast.DictComp) else out
    raise ValueError


def consts(ctx, rule, module, table):
    """Module-level constants: {"NAME": value}."""
    m = ctx.p.modules.get(module)
    for name, want in table.items():
        con = f"{module}.{name}"
        if m is None or name not in m.assigns:
            ctx.open(rule, con, "no such module constant")
            continue
        where = f"{m.relpath}:{m.assigns[name].lineno}"
        try:
            have = const_value(ctx.p, m, m.assigns[name])
        except (ValueError, TypeError, KeyError, AttributeError):
            ctx.open(rule, con, "not a constant expression the analysis can evaluate", where)
            continue
        norm = lambda v: {k: norm(x) for k, x in v.items()} if isinstance(v, dict) else [norm(x) for x in v] if isinstance(v, list | tuple) else v
        if norm(have) == norm(want):
            ctx.ok(rule, con, where)
        else:
            diff = f"{have!r} where {want!r} is required"
            ctx.bad(rule, con, f"is {diff[:300]}", where)


def const_exprs(ctx, rule, module, table):
    """Module-level constants that are expressions: {"NAME": "expression in the names of that module"}."""
    from .interp import Frame, Interp, State

    m = ctx.p.modules.get(module)
    for name, want in table.items():
        con = f"{module}.{name}"
        if m is None or name not in m.assigns:
            ctx.open(rule, con, "no such module constant")
            continue
        terms = []
        for e in (m.assigns[name], ast.parse(want, mode="eval").body):
            ast.fix_missing_locations(e)
            i, st = Interp(ctx.p, lam=True), State({}, {})
            i.frames.append(Frame(None, m, None, None))
            terms.append(i.freeze(i.ev(e, st), st))
        ctx.same(rule, con, terms[0], terms[1], f"{m.relpath}:{m.assigns[name].lineno}")


def own_nodes(fn):
    """Nodes of a function, without those of nested functions."""
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            st += ast.iter_child_nodes(n)


def auto(fn):
    """What can be observed of a function: its value, the state of its object, its other effects."""
    w = ""
    if any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None) for n in own_nodes(fn)):
        w += "v"
    first = fn.args.args[0].arg if fn.args.args else None
    if first in ("self", "cls") and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == first for n in own_nodes(fn)):
        w += "s"
    return w + "e"


def statement_calls(fn):
    """Names of the calls made for their effect alone."""
    out = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            out.add(f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", ""))
    return out - {""}


def calls_of(r):
    return {(e.name, tuple(e.args), tuple(sorted(e.kw.items(), key=str)), tuple(e.guards)) for e in r.events if e.kind == "call" and not e.inlined}


def compare(ctx, module, rule, e, fd, con, opq):
    sub = Ctx(ctx.pid, ctx.tier, ctx.p)
    k = dict(lam=True, opaque_fn=opq)
    r = sub.run(fd, self_cls=ctx.p.cls(e.self_cls) if e.self_cls else None, **k)
    s = sub.spec(module, e.spec, r.params, cls=fd.cls, **k)
    w = fd.where()
    C = (lambda: None) if e.canon is None else e.canon
    what, calls, kw = e.what, e.calls, {}
    if what == "*":
        node = ctx.p.load_spec(module).funcs[e.spec].node
        what = auto(node)
        calls = set(e.calls) | statement_calls(node)
        if "s" in what:
            kw["skip"] = next(iter(r.params.values()))
        kw["may_be_empty"] = True
        defaults(sub, rule, con, fd.node, node, w)
        decorators(sub, rule, con, fd)
    sub.calls_differ = calls_of(r) ^ calls_of(s)
    for x in what:
        if x == "v":
            sub.same(rule, con, r, s, w, C(), extra=e.extra)
        elif x == "r":
            sub.same_effects(rule, con, r, s, w, C(), types=e.types, extra=e.extra)
        elif x == "e":
            sub.same_effects(rule, con, r, s, w, C(), kinds=("raise", "setitem", "setattr", "mutate"), calls=calls, types=e.types, extra=e.extra, **kw)
        elif x == "c":
            sub.same_effects(rule, con, r, s, w, C(), kinds=(), calls=e.calls, extra=e.extra)
        elif x == "a":
            sub.same_attrs(rule, con, r, s, w, C(), names=e.names, extra=e.extra)
        elif x == "s":
            sub.same_attrs(rule, con, r, s, w, C(), names=e.names, extra=e.extra, obj=next(iter(r.params.values())))
    return sub
