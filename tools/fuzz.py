"""Development tool (no check uses it): measures a check on single-site changes of the functions it specifies.

  fuzz.py mutate C05 [pattern]    behaviour-changing edits: how many raise a violation
  fuzz.py refactor C05 [pattern]  behaviour-preserving edits: none may raise a violation
"""
import ast, copy, importlib, multiprocessing as mp, os, random, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sa.loader import Program, Module, AnalysisBroken
from sa.core import Ctx, load_known
from sa import table
table.SERIAL = True

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Add}


def is_msg(n):
    s = ast.unparse(n)
    return s.startswith(("_log.", "warnings.warn", "_logger.", "log.", "print(", "logging.", "console."))


def sites(fn, pred, skip_strings=True):
    """(node, parent, field, index) of nodes in executable positions"""
    out = []

    def go(n, par, f, i):
        if isinstance(n, ast.arg):
            return
        if isinstance(par, ast.ExceptHandler) and f == "type":
            return
        if isinstance(n, ast.AnnAssign):
            if n.value: go(n.value, n, "value", None)
            return
        if isinstance(n, ast.Raise) :
            return
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or is_msg(n)):
            return
        if pred(n):
            out.append((n, par, f, i))
        for fld, v in ast.iter_fields(n):
            if fld in ("returns", "annotation", "decorator_list"):
                continue
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if isinstance(x, ast.AST): go(x, n, fld, j)
            elif isinstance(v, ast.AST):
                go(v, n, fld, None)

    for fld in ("body",):
        for j, x in enumerate(fn.body): go(x, fn, "body", j)
    for d in fn.args.defaults + [x for x in fn.args.kw_defaults if x]:
        pass
    return out


def put(par, f, i, new):
    if i is None: setattr(par, f, new)
    else: getattr(par, f)[i] = new


def mutants(fn):
    """yield (description, mutate(fn_copy_sites)) as functions of the site index"""
    def gen(pred, edit, name):
        n = len(sites(fn, pred))
        for k in range(n):
            yield name, k, pred, edit

    def e_cmp(n, *a):
        n.ops[0] = CMP[type(n.ops[0])]()
    def e_bin(n, *a):
        n.op = BIN[type(n.op)]()
    def e_bool(n, *a):
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    def e_not(n, p, f, i):
        put(p, f, i, n.operand)
    def e_if(n, *a):
        n.test = ast.UnaryOp(ast.Not(), n.test)
    def e_int(n, *a):
        n.value = n.value + 1
    def e_neg(n, p, f, i):
        put(p, f, i, n.operand)
    def e_boolc(n, *a):
        n.value = not n.value
    def e_delkw(n, *a):
        n.keywords.pop()
    def e_swapargs(n, *a):
        n.args[0], n.args[1] = n.args[1], n.args[0]
    def e_delstmt(n, p, f, i):
        put(p, f, i, ast.Pass())
    def e_str(n, *a):
        n.value = n.value + "_x"
    def e_delconj(n, p, f, i):
        n.values.pop()
        if len(n.values) == 1: put(p, f, i, n.values[0])
    def e_slice(n, *a):
        n.lower, n.upper = n.upper, n.lower
    def e_T(n, p, f, i):
        put(p, f, i, n.value)
    def e_delelt(n, *a):
        n.elts.pop()
    def e_compif(n, *a):
        n.ifs.pop()
    yield from gen(lambda n: isinstance(n, ast.Compare) and type(n.ops[0]) in CMP, e_cmp, "cmp")
    yield from gen(lambda n: isinstance(n, ast.BinOp) and type(n.op) in BIN, e_bin, "bin")
    yield from gen(lambda n: isinstance(n, ast.BoolOp), e_bool, "andor")
    yield from gen(lambda n: isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not), e_not, "dropnot")
    yield from gen(lambda n: isinstance(n, ast.IfExp), e_if, "ifexp")
    yield from gen(lambda n: isinstance(n, ast.Constant) and type(n.value) is int, e_int, "int")
    yield from gen(lambda n: isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub), e_neg, "neg")
    yield from gen(lambda n: isinstance(n, ast.Constant) and type(n.value) is bool, e_boolc, "bool")
    yield from gen(lambda n: isinstance(n, ast.Call) and n.keywords and n.keywords[-1].arg, e_delkw, "delkw")
    yield from gen(lambda n: isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]), e_swapargs, "swapargs")
    yield from gen(lambda n: isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "targets", [None])[0], ast.Name) or isinstance(n, ast.Expr), e_delstmt, "delstmt")
    yield from gen(lambda n: isinstance(n, ast.AugAssign), e_delstmt, "delaug")
    yield from gen(lambda n: isinstance(n, ast.Constant) and type(n.value) is str, e_str, "str")
    yield from gen(lambda n: isinstance(n, ast.BoolOp), e_delconj, "delconj")
    yield from gen(lambda n: isinstance(n, ast.Attribute) and n.attr in ("T", "mT"), e_T, "dropT")
    yield from gen(lambda n: isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 1, e_delelt, "delelt")
    yield from gen(lambda n: isinstance(n, ast.comprehension) and n.ifs, e_compif, "compif")
    yield from gen(lambda n: isinstance(n, ast.If), e_if, "negif")


# ---------------------------------------------------------------- refactorings
def names_in(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def bound_in(n):
    """names bound inside an expression (comprehensions, lambdas)"""
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.comprehension): out |= names_in(x.target)
        if isinstance(x, ast.Lambda): out |= {a.arg for a in x.args.args}
        if isinstance(x, ast.NamedExpr): out.add(x.target.id)
    return out


def enclosing_bound(fn, node):
    """comprehension/lambda variables in scope at `node`"""
    out = set()

    def go(n, acc):
        if n is node:
            out.update(acc)
            return
        a2 = acc
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            a2 = acc | {x for g in n.generators for x in names_in(g.target)}
        if isinstance(n, ast.Lambda):
            a2 = acc | {a.arg for a in n.args.args}
        for c in ast.iter_child_nodes(n): go(c, a2)

    go(fn, frozenset())
    return out


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if a.vararg: out.add(a.vararg.arg)
    if a.kwarg: out.add(a.kwarg.arg)
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
        if isinstance(x, (ast.FunctionDef,)) and x is not fn: out.add(x.name)
        if isinstance(x, (ast.FunctionDef,)):
            b = x.args
            out |= {y.arg for y in (*b.posonlyargs, *b.args, *b.kwonlyargs, b.vararg, b.kwarg) if y}
        if isinstance(x, ast.ExceptHandler) and x.name: out.add(x.name)
    return out


HELP = [0]


def stmts_of(fn):
    """(list, index) of every statement position, nested functions included"""
    out = []
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            l = getattr(n, f, None)
            if isinstance(l, list) and l and isinstance(l[0], ast.stmt):
                out += [(l, i) for i in range(len(l))]
    return out


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant))


def exprs(fn):
    """(node,parent,field,idx) of load expressions not in nested functions' defaults"""
    return sites(fn, lambda n: isinstance(n, ast.expr) and not isinstance(getattr(n, "ctx", ast.Load()), (ast.Store, ast.Del)))


def stmt_containing(fn, node):
    best = None
    for l, i in stmts_of(fn):
        s = l[i]
        if any(x is node for x in ast.walk(s)):
            # innermost statement
            if best is None or any(x is s for x in ast.walk(best[0][best[1]])): best = (l, i)
    return best


def refactors(fn):
    """yield (name, k, apply(fn_copy, module_tree, k) -> bool)"""
    # rename every local
    def rename(fn, tree, k):
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        inner = set()
        for x in ast.walk(fn):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                inner |= {y.arg for y in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
                inner |= {y.arg for y in (x.args.vararg, x.args.kwarg) if y}
                if isinstance(x, ast.FunctionDef): inner.add(x.name)
            if isinstance(x, (ast.Global, ast.Nonlocal)): inner |= set(x.names)
            if isinstance(x, ast.ExceptHandler) and x.name: inner.add(x.name)
        ren = {n: n + "_zz" for n in local_names(fn) - params - inner}
        if not ren: return False
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in ren: x.id = ren[x.id]
        return True
    yield "rename", 0, rename

    # temporaries: replace the k-th non-simple sub-expression by a temporary assigned just before its statement
    ex = exprs(fn)

    def evaluated_first(fn, st, node):
        """node is evaluated unconditionally and before anything with effects could matter (approximation: pure tree)"""
        return True

    def temp(fn, tree, k):
        n, p, f, i = exprs(fn)[k]
        if simple(n) or isinstance(n, (ast.Starred, ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.Lambda, ast.GeneratorExp)): return False
        if isinstance(p, (ast.JoinedStr, ast.FormattedValue)): return False
        if enclosing_bound(fn, n) : return False
        pos = stmt_containing(fn, n)
        if pos is None: return False
        l, i0 = pos
        s = l[i0]
        if isinstance(s, (ast.FunctionDef, ast.While, ast.With, ast.Try, ast.Delete, ast.ClassDef)): return False
        if isinstance(s, ast.For) and not any(x is n for x in ast.walk(s.iter)): return False
        if isinstance(s, ast.If) and not any(x is n for x in ast.walk(s.test)): return False
        if isinstance(s, ast.Expr) and s.value is n: return False
        # conditional evaluation: only hoist when not under a short-circuit
        def under(x, acc=False):
            if x is n: return acc
            for fld, v in ast.iter_fields(x):
                for j, y in enumerate(v if isinstance(v, list) else [v]):
                    if isinstance(y, ast.AST) and any(z is n for z in ast.walk(y)):
                        c = acc or isinstance(x, ast.IfExp) and fld in ("body", "orelse") or isinstance(x, ast.BoolOp) and j > 0 or isinstance(x, (ast.Lambda, ast.Compare))
                        if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)): c = True
                        return under(y, c)
            return acc
        if under(s): return False
        # effects evaluated before n in the same statement: mutating calls
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "append", "remove", "update", "insert", "next", "extend") for x in ast.walk(s)): return False
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "next" for x in ast.walk(s)): return False
        if isinstance(p, ast.Call) and f == "func": return False
        if isinstance(n, ast.Attribute) and isinstance(p, ast.Call) and f == "func": return False
        if "ctx" in n._fields and not isinstance(n.ctx, ast.Load): return False
        if isinstance(s, ast.AugAssign) and any(x is n for x in ast.walk(s.target)): return False
        if isinstance(s, (ast.Assign,)) and any(any(x is n for x in ast.walk(t)) for t in s.targets): return False
        put(p, f, i, ast.Name("tmp_zz", ast.Load()))
        l.insert(i0, ast.Assign([ast.Name("tmp_zz", ast.Store())], n))
        return True
    for k in range(len(ex)):
        yield "temp", k, temp

    # helper: the k-th expression moves to a new module-level function of its free locals
    def helper(fn, tree, k):
        n, p, f, i = exprs(fn)[k]
        if simple(n) or isinstance(n, (ast.Starred, ast.Slice, ast.JoinedStr, ast.FormattedValue, ast.Lambda, ast.GeneratorExp, ast.Attribute, ast.UnaryOp)): return False
        if isinstance(p, (ast.JoinedStr, ast.FormattedValue)): return False
        if isinstance(p, ast.Call) and f == "func": return False
        if any(isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)) for x in ast.walk(n)): return False
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for x in ast.walk(n)): return False
        if "ctx" in n._fields and not isinstance(n.ctx, ast.Load): return False
        s = stmt_containing(fn, n)
        if s is None: return False
        s = s[0][s[1]]
        if isinstance(s, ast.AugAssign) and any(x is n for x in ast.walk(s.target)): return False
        loc = local_names(fn) | enclosing_bound(fn, n)
        # names local to nested functions count as locals too
        free = sorted((names_in(n, ast.Load) & loc) - (bound_in(n) - enclosing_bound(fn, n)))
        name = "_helper_zz"
        if name in names_in(tree): return False
        # module-level names only otherwise: local imports?
        h = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []), [ast.Return(n)], [])
        put(p, f, i, ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in free], []))
        tree.body.append(h)
        return True
    for k in range(len(ex)):
        yield "helper", k, helper

    # extract a run of 1-3 simple assignments to a helper returning what is used later
    st = stmts_of(fn)

    def block(fn, tree, k):
        l, i = stmts_of(fn)[k]
        m = 2
        run = l[i : i + m]
        if len(run) < 2 or not all(isinstance(s, (ast.Assign, ast.AugAssign)) for s in run): return False
        for s in run:
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in tg:
                for x in ast.walk(t):
                    if isinstance(x, (ast.Attribute, ast.Subscript)): return False
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals") for s in run for x in ast.walk(s)): return False
        outs = sorted(set().union(*(names_in(t) for s in run for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))))
        loc = local_names(fn)
        ins = sorted((set().union(*(names_in(s, ast.Load) for s in run)) | {s.target.id for s in run if isinstance(s, ast.AugAssign)}) & loc)
        # inputs not assigned before (defined inside the run first) must not be passed
        first = set()
        real = set()
        for s in run:
            v = names_in(s.value) - bound_in(s.value)
            if isinstance(s, ast.AugAssign): v = v | {s.target.id}
            real |= (v - first) & loc
            first |= set().union(*(names_in(t) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])))
        ins = sorted(real)
        if any(isinstance(x, ast.FunctionDef) and x is not fn and any(y is run[0] for y in ast.walk(x)) for x in ast.walk(fn)): return False
        h = ast.FunctionDef("_block_zz", ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []),
                            [*run, ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load()))], [])
        tree.body.append(h)
        l[i : i + m] = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store())],
                                   ast.Call(ast.Name("_block_zz", ast.Load()), [ast.Name(x, ast.Load()) for x in ins], []))]
        return True
    for k in range(len(st)):
        yield "block", k, block

    def invert(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.If) or not s.orelse: return False
        s.test = ast.UnaryOp(ast.Not(), s.test)
        s.body, s.orelse = s.orelse, s.body
        return True
    for k in range(len(st)):
        yield "invert", k, invert

    def early(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.If) or not isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)): return False
        if s.orelse:
            rest, s.orelse = s.orelse, []
            l[i + 1 : i + 1] = rest
        else:
            rest = l[i + 1 :]
            if not rest: return False
            s.orelse = rest
            del l[i + 1 :]
        return True
    for k in range(len(st)):
        yield "early", k, early

    def nestif(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.If) or s.orelse or not isinstance(s.test, ast.BoolOp) or not isinstance(s.test.op, ast.And): return False
        a, *rest = s.test.values
        s.test = a
        s.body = [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), s.body, [])]
        return True
    for k in range(len(st)):
        yield "nestif", k, nestif

    def swap(fn, tree, k):
        l, i = stmts_of(fn)[k]
        if i + 1 >= len(l): return False
        a, b = l[i], l[i + 1]
        if not (isinstance(a, ast.Assign) and isinstance(b, ast.Assign)): return False
        for s in (a, b):
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    nm = ast.unparse(x.func).split(".")[-1]
                    if nm in ("pop", "append", "remove", "update", "insert", "next", "extend", "split", "random", "dist", "Data", "Deterministic", "Potential"): return False
        wa, wb = (set().union(*(names_in(t) for t in s.targets)) for s in (a, b))
        if wa & names_in(b) or wb & names_in(a): return False
        if any(isinstance(x, (ast.Attribute, ast.Subscript)) for s in (a, b) for t in s.targets for x in ast.walk(t)): return False
        l[i], l[i + 1] = b, a
        return True
    for k in range(len(st)):
        yield "swap", k, swap

    def noop(fn, tree, k):
        l, i = stmts_of(fn)[k]
        l.insert(i, ast.parse("_unused_zz = None").body[0])
        return True
    for k in range(0, len(st), 4):
        yield "noop", k, noop

    def ifexp(fn, tree, k):
        """x = a if c else b  ->  if statement, and back"""
        l, i = stmts_of(fn)[k]
        s = l[i]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            v = s.value
            l[i] = ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])
            return True
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            v = s.value
            l[i] = ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
            return True
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
            l[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
            return True
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
            l[i] = ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
            return True
        return False
    for k in range(len(st)):
        yield "ifexp", k, ifexp

    def comp2loop(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, (ast.Assign, ast.Return)) or not isinstance(s.value, (ast.ListComp, ast.DictComp)): return False
        c = s.value
        if any(g.is_async for g in c.generators): return False
        if names_in(c) & {"acc_zz"}: return False
        # loop variables must not clash with locals
        lv = {x for g in c.generators for x in names_in(g.target)}
        ren = {x: x + "_lv" for x in lv}
        for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in ren: x.id = ren[x.id]
        if isinstance(c, ast.ListComp):
            inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name("acc_zz", ast.Load()), "append", ast.Load()), [c.elt], []))]
            init = ast.List([], ast.Load())
        else:
            inner = [ast.Assign([ast.Subscript(ast.Name("acc_zz", ast.Load()), c.key, ast.Store())], c.value)]
            init = ast.Dict([], [])
        for g in reversed(c.generators):
            for t in reversed(g.ifs):
                inner = [ast.If(t, inner, [])]
            inner = [ast.For(g.target, g.iter, inner, [])]
        l[i : i + 1] = [ast.Assign([ast.Name("acc_zz", ast.Store())], init), *inner,
                        ast.Assign(s.targets, ast.Name("acc_zz", ast.Load())) if isinstance(s, ast.Assign) else ast.Return(ast.Name("acc_zz", ast.Load()))]
        return True
    for k in range(len(st)):
        yield "comp2loop", k, comp2loop

    def loop2comp(fn, tree, k):
        l, i = stmts_of(fn)[k]
        if i + 1 >= len(l): return False
        a, b = l[i], l[i + 1]
        if not (isinstance(a, ast.Assign) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(a.targets[0], ast.Name) and isinstance(b, ast.For) and not b.orelse): return False
        body, ifs = b.body, []
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
            ifs.append(body[0].test)
            body = body[0].body
        if len(body) != 1 or not isinstance(body[0], ast.Expr) or not isinstance(body[0].value, ast.Call): return False
        c = body[0].value
        if ast.unparse(c.func) != a.targets[0].id + ".append": return False
        a.value = ast.ListComp(c.args[0], [ast.comprehension(b.target, b.iter, ifs, 0)])
        del l[i + 1]
        return True
    for k in range(len(st)):
        yield "loop2comp", k, loop2comp

    def unpack(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.For) or not isinstance(s.target, ast.Tuple): return False
        s.body.insert(0, ast.Assign([s.target], ast.Name("pair_zz", ast.Load())))
        s.target = ast.Name("pair_zz", ast.Store())
        return True
    for k in range(len(st)):
        yield "unpack", k, unpack

    def enum2range(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.For) or not isinstance(s.iter, ast.Call) or ast.unparse(s.iter.func) != "enumerate" or len(s.iter.args) != 1 or not isinstance(s.target, ast.Tuple): return False
        if not isinstance(s.iter.args[0], (ast.Name, ast.Attribute)): return False
        x = s.iter.args[0]
        idx, val = s.target.elts
        s.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [x], [])], [])
        s.target = idx
        s.body.insert(0, ast.Assign([val], ast.Subscript(copy.deepcopy(x), ast.Name(idx.id, ast.Load()), ast.Load())))
        return True
    for k in range(len(st)):
        yield "enum2range", k, enum2range

    def inline(fn, tree, k):
        l, i = stmts_of(fn)[k]
        s = l[i]
        if not isinstance(s, ast.Assign) or len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or i + 1 >= len(l): return False
        v = s.targets[0].id
        uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
        if len(uses) != 2: return False
        nxt = l[i + 1]
        if not isinstance(nxt, (ast.Assign, ast.Return, ast.Expr)): return False
        done = []
        for n, p, f, j in sites(ast.FunctionDef("f", ast.arguments([], [], None, [], [], None, []), [nxt], []), lambda n: isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)):
            if enclosing_bound(fn, n): return False
            if isinstance(s.value, (ast.GeneratorExp,)): return False
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("pop", "append", "remove", "update", "insert", "next", "extend") for x in ast.walk(nxt)): return False
            put(p, f, j, s.value)
            done.append(1)
        if len(done) != 1: return False
        del l[i]
        return True
    for k in range(len(st)):
        yield "inline", k, inline

    cs = sites(fn, lambda n: isinstance(n, ast.Compare) and len(n.ops) == 1)

    def flipcmp(fn, tree, k):
        n, p, f, i = sites(fn, lambda n: isinstance(n, ast.Compare) and len(n.ops) == 1)[k]
        fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        neg = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        t = type(n.ops[0])
        if t in fl:
            n.left, n.comparators[0], n.ops[0] = n.comparators[0], n.left, fl[t]()
        else:
            n.ops[0] = neg[t]()
            put(p, f, i, ast.UnaryOp(ast.Not(), n))
        return True
    for k in range(len(cs)):
        yield "flipcmp", k, flipcmp

    bs = sites(fn, lambda n: isinstance(n, ast.BoolOp))

    def demorgan(fn, tree, k):
        n, p, f, i = sites(fn, lambda n: isinstance(n, ast.BoolOp))[k]
        # only where a truth value is needed
        if not (isinstance(p, (ast.If, ast.IfExp, ast.Assert, ast.comprehension)) and f in ("test", "ifs") or isinstance(p, ast.UnaryOp)): return False
        new = ast.UnaryOp(ast.Not(), ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), [ast.UnaryOp(ast.Not(), x) for x in n.values]))
        put(p, f, i, new)
        return True
    for k in range(len(bs)):
        yield "demorgan", k, demorgan

    fs = sites(fn, lambda n: isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)))

    def commute(fn, tree, k):
        n, p, f, i = sites(fn, lambda n: isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,)))[k]
        if isinstance(n.left, (ast.List, ast.Tuple, ast.Constant)) or isinstance(n.right, (ast.List, ast.Tuple)): return False
        n.left, n.right = n.right, n.left
        return True
    for k in range(len(sites(fn, lambda n: isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,))))):
        yield "commute", k, commute

    def closure(fn, tree, k):
        """statement block of an if-body (no return/assign escaping) -> method-local helper"""
        return False


def find_fn(tree, qual):
    parts = qual
    body = tree.body
    node = None
    for p in parts:
        node = next((x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == p and not any("setter" in ast.unparse(d) for d in x.decorator_list)), None)
        if node is None: return None
        body = node.body
    return node


ONLY = [None]       # with a function name: only its own entries are run
SEEN = {}           # functions of the tables, in order
_run_table, _Program = table.run_table, Program


def Program(repo=None):
    return _Program(repo or os.environ.get("R"))


def narrow(ctx, module, rule, entries):
    for e in entries: SEEN[e.func] = 1
    if ONLY[0]:
        entries = [e for e in entries if e.func == ONLY[0]]
        if not entries: return
    _run_table(ctx, module, rule, entries)


def rules(pid):
    mod = importlib.import_module(f"sa.rules.{pid.lower()}")
    if hasattr(mod, "run_table"): mod.run_table = narrow
    if ONLY[0] and not os.environ.get("ALL"):
        for n in ("class_attrs", "consts", "const_exprs"):
            if hasattr(mod, n): setattr(mod, n, lambda *a, **k: None)
    return mod


def functions(pid, pat):
    """functions named in the tables of the rule module"""
    mod = rules(pid)
    return [x for x in dict.fromkeys([*SEEN, *getattr(mod, "FUNCTIONS", [])]) if pat in x]


def locate(p, q):
    fd = p.func(q)
    return fd.module.name, q[len(fd.module.name) + 1 :].split(".")


def run_one(job):
    mode, pid, func, name, k = job
    signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError()))
    signal.alarm(int(os.environ.get("TL", "100")))
    t0 = time.time()
    table._T0 = t0
    try:
        p = Program()
        mn, parts = locate(p, func)
        m = p.modules[mn]
        tree = ast.parse(m.src)
        fn = find_fn(tree, parts)
        before = ast.unparse(fn)
        if mode == "mutate":
            js = [x for x in mutants(fn) if (x[0], x[1]) == (name, k)]
            _, _, pred, edit = js[0]
            edit(*sites(fn, pred)[k])
        else:
            js = [x for x in refactors(fn) if (x[0], x[1]) == (name, k)]
            if not js[0][2](fn, tree, k):
                return None
        ast.fix_missing_locations(tree)
        after = ast.unparse(fn)
        if after == before: return None
        src = ast.unparse(tree)
        try: compile(src, "x", "exec")
        except SyntaxError: return None
        p = Program()
        p.modules[mn] = Module(mn, m.path, src)
        import difflib
        d = [x for x in difflib.unified_diff(before.splitlines(), after.splitlines(), n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
        ctx = Ctx(pid, "quick", p)
        ONLY[0] = None if os.environ.get("ALL") or func not in SEEN else func
        rules(pid).check(ctx)
        known = load_known(pid)
        bad = [o for o in ctx.obs if o[0] == "bad" and f"{o[1]}|{o[2]}" not in known]
        nopen = sum(o[0] == "open" for o in ctx.obs)
        ops = [f"{o[2]}: {o[3]}"[:300] for o in ctx.obs if o[0] == "open"]
        return (job, "bad" if bad else "open" if nopen else "ok", d, (f"{bad[0][2]} {bad[0][3]}" if bad else (ops[-1] if ops else "")), time.time() - t0, nopen)
    except AnalysisBroken as e:
        return (job, "broken", [], str(e), time.time() - t0, 0)
    except TimeoutError:
        return (job, "timeout", [name, str(k)], "", time.time() - t0, 0)
    except Exception as e:
        import traceback
        return (job, "crash", [name, str(k)], traceback.format_exc()[-600:], time.time() - t0, 0)
    finally:
        signal.alarm(0)


def main():
    mode, pid = sys.argv[1:3]
    pat = sys.argv[3] if len(sys.argv) > 3 else ""
    p = Program()
    base = Ctx(pid, "quick", p)
    rules(pid).check(base)
    base_open = sum(o[0] == "open" for o in base.obs)
    jobs = []
    fs = functions(pid, pat)
    if not SEEN:  # rules that enumerate the program themselves: the functions they made statements about
        said = {c for o in base.obs for c in (o[2].split(":")[0].split("@")[0],)}
        fs = [fd.qual for fd in p.all_functions() if fd.qual in said and pat in fd.qual]
    for f in fs:
        try: mn, parts = locate(p, f)
        except AnalysisBroken: continue
        fn = find_fn(ast.parse(p.modules[mn].src), parts)
        if fn is None:
            print("no source for", f); continue
        jobs += [(mode, pid, f, x[0], x[1]) for x in (mutants(fn) if mode == "mutate" else refactors(fn))]
    random.Random(0).shuffle(jobs)
    mx = int(os.environ.get("MAX", "400"))
    jobs = jobs[:mx]
    with mp.Pool(int(os.environ.get("NP", "7"))) as pool:
        res = [r for r in pool.imap_unordered(run_one, jobs) if r]
    cnt = {}
    for r in res:
        st = r[1] if r[1] != "open" or r[5] > base_open else "ok"
        cnt[st] = cnt.get(st, 0) + 1
        show = st in (("ok", "open", "broken", "crash", "timeout") if mode == "mutate" else ("bad", "broken", "crash", "timeout") + (("open",) if os.environ.get("SHOWOPEN") else ()))
        if show:
            print(f"--- {st} {r[0][2].split('.')[-1]} {r[0][3]}:{r[0][4]} {r[4]:.1f}s")
            print("\n".join("    " + x[:160] for x in r[2][:8]))
            if r[3]: print("    =>", r[3][:int(os.environ.get("W", "400"))])
    print(pid, mode, "base open", base_open, cnt)


if __name__ == "__main__":
    main()
