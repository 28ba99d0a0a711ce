"""Interprocedural value-graph construction over the package's syntax trees.

One flow-sensitive pass per function body: every expression becomes a hash-consed term,
branches are merged with gated phis, in-repo callees are inlined (bounded), loops are
summarised, and every call / raise / store / in-place change is recorded as an Event together
with the guards (conditions) under which it happens.  Nothing is executed and no path condition
is solved; a guard is just the pair (condition term, polarity).
"""
from __future__ import annotations

import ast
import builtins as _bi

from .loader import AnalysisBroken, ClassDef, FuncDef, Module, Program
from .terms import (FALSE, NONE, T, TRUE, UNDEF, call, compare, const, glob, neg, op, phi, sym,
                    truth, unknown)

BUILTINS = set(dir(_bi))
LIST_MUT = {"append", "extend", "insert", "remove", "pop", "sort", "reverse", "clear"}
DICT_MUT = {"update", "pop", "setdefault", "clear", "popitem", "__setitem__"}
SET_MUT = {"add", "update", "discard", "remove", "clear", "pop"}
MUTATORS = LIST_MUT | DICT_MUT | SET_MUT | {"fill", "put", "resize", "itemset", "partition", "set_flags", "setflags"}


ALLOCATORS = {"pytensor.shared", "pytensor.compile.sharedvalue.shared"}


class Event:
    __slots__ = ("kind", "idx", "node", "fn", "args", "kw", "bound", "callee", "guards", "loops",
                 "ctx", "frames", "result", "module", "func", "extra", "inlined", "raw")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def name(self):
        """Last component of the callee."""
        return callee_name(self.fn)

    def where(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def inside(self):
        return self.func.qual if self.func is not None else self.module.name

    def arg(self, pos, name=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if pos is not None and pos < len(self.args) and not any(
            a.kind == "star" for a in self.args[: pos + 1]
        ):
            return self.args[pos]
        return None

    def __repr__(self):
        return f"<{self.kind} {self.name} {self.where()}>"


def callee_name(fn):
    if fn is None:
        return None
    if fn.kind == "glob":
        return fn.data.rsplit(".", 1)[-1]
    if fn.kind == "attr":
        return fn.data
    if fn.kind == "bound":
        return callee_name(fn.kids[1])
    if fn.kind in ("func", "cls"):
        d = fn.data if isinstance(fn.data, str) else fn.data[0]
        return d.rsplit(".", 1)[-1]
    return None


class Frame:
    def __init__(self, func, module, cls, parent, call_node=None):
        self.func, self.module, self.cls, self.parent = func, module, cls, parent
        self.call_node = call_node
        self.returns = []  # (guards, value, store)
        self.base = 0
        self.loop_exits = None


class State:
    __slots__ = ("env", "store", "guards", "ctx", "loops")

    def __init__(self, env, store, guards=(), ctx=(), loops=()):
        self.env, self.store, self.guards, self.ctx, self.loops = env, store, guards, ctx, loops

    def fork(self, cond=None, pol=True):
        s = State(dict(self.env), dict(self.store), self.guards, self.ctx, self.loops)
        if cond is not None:
            s.guards = add_guard(s.guards, cond, pol)
        return s


def add_guard(guards, cond, pol):
    out = list(guards)

    def go(c, p):
        if c.kind == "op" and c.data == "not":
            return go(c.kids[0], not p)
        if c.kind == "op" and c.data == "bool":
            return go(c.kids[0], p)
        if c.kind == "op" and c.data == "and" and p:
            for k in c.kids:
                go(k, True)
            return
        if c.kind == "op" and c.data == "or" and not p:
            for k in c.kids:
                go(k, False)
            return
        if c.kind == "const":
            return
        if (c, p) not in out:
            out.append((c, p))

    go(cond, pol)
    return tuple(out)


class Interp:
    _ids = 0

    def __init__(self, prog: Program, opaque=(), max_depth=12, handlers=None, inline=True,
                 opaque_fn=None, max_events=400000, callbacks=False, lam=False):
        self.p = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.callbacks = callbacks or lam
        self.lam = lam
        self.callback_results = []
        self.lams = {}
        self.lam_stack = []
        self._swept = set()
        self.max_depth = max_depth
        self.inline = inline
        self.handlers = dict(DEFAULT_HANDLERS)
        if handlers:
            self.handlers.update(handlers)
        self.events: list[Event] = []
        self.closures: dict = {}
        self.ctors = {}
        self.loopvars = {}
        self._modcache: dict = {}
        self.frames: list[Frame] = []
        self.unknowns: list = []
        self.max_events = max_events
        self.frozen = set()
        self.bool_cache = {}

    # ------------------------------------------------------------------ utils
    def new_id(self):
        Interp._ids += 1
        return Interp._ids

    def new_ref(self, st, content):
        r = T("ref", (), self.new_id())
        st.store[r] = content
        return r

    def deref(self, t, st):
        n = 0
        while t.kind == "ref" and n < 50:
            t = st.store.get(t, UNDEF)
            n += 1
        return t

    def freeze(self, t, st, _memo=None):
        memo = {} if _memo is None else _memo
        items = {k[1]: v for k, v in st.store.items() if isinstance(k, tuple) and k[0] == "item"}
        if items:
            for b in list(items):
                es = self.unchanged(b, items[b])
                if es is not None and not any(e in items for e in es):
                    del items[b]

        frozen = self.frozen  # values already rendered over an overlay are not rendered again

        def go(t, depth=0):
            r = memo.get(t)
            if r is not None:
                return r
            if depth > 400 or t in frozen:
                return t
            if t.kind == "ref":
                memo[t] = t
                r = go(st.store.get(t, UNDEF), depth + 1)
                memo[t] = r
                return r
            if t in items:
                ov = items[t]
                memo[t] = t
                r = go(ov, depth + 1)
                memo[t] = r
                if r is not t:
                    frozen.add(r)
                return r
            if not t.kids:
                memo[t] = t
                return t
            nk = tuple(go(k, depth + 1) for k in t.kids)
            r = t if nk == t.kids else rebuild(t, nk)
            if r is not t and t.kind == "sub" and t.kids[0] in items and r.kind == "sub":
                c = r.kids[0]
                if c.kind == "mut" and c.data[0] == "setitem" and c.kids[1] is r.kids[1]:
                    r = c.kids[2]
            if r is not t and any(k in frozen for k in nk):
                frozen.add(r)
            memo[t] = r
            return r

        if not has_ref(t) and not items:
            return t
        return go(t)

    def emit(self, kind, node, st, **k):
        if len(self.events) > self.max_events:
            raise AnalysisBroken("event budget exceeded")
        fr = self.frames[-1]
        e = Event(kind=kind, idx=len(self.events), node=node, guards=st.guards, loops=st.loops,
                  ctx=st.ctx, frames=tuple(f.func.qual if f.func else f.module.name for f in self.frames),
                  module=fr.module, func=fr.func, **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ entry
    def run(self, func: FuncDef, args=None, self_cls=None, self_term=None, store=None, bind_defaults=False):
        """Analyse `func` as an entry point: every parameter is a root symbol named after it."""
        args = dict(args or {})
        st = State({}, dict(store or {}))
        a = func.node.args
        env = {}
        allp = a.posonlyargs + a.args + a.kwonlyargs
        names = [x.arg for x in allp]
        first = names[0] if names else None
        is_method = func.cls is not None and not func.is_static
        for n in names:
            if n in args:
                env[n] = args[n]
            elif is_method and n == first:
                if func.is_classmethod or func.name == "__new__":
                    env[n] = T("cls", (), (self_cls or func.cls).qual)
                else:
                    env[n] = self_term or T("obj", (), ((self_cls or func.cls).qual, "self"))
            else:
                env[n] = sym(n)
        if a.vararg:
            env[a.vararg.arg] = args.get(a.vararg.arg, sym("*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = args.get(a.kwarg.arg, sym("**" + a.kwarg.arg))
        st.env = env
        given = dict(env)
        fr = Frame(func, func.module, func.cls, None)
        self.frames.append(fr)
        try:
            end = self.exec_block(func.node.body, st)
            val, fstate = self.finish(fr, end, st)
            if self.lam and fstate is not None and isinstance(val, T):
                self.escaping(self.freeze(val, fstate), fstate, func.node)
        finally:
            self.frames.pop()
        return Result(self, func, val, fstate, given)

    def finish(self, fr, end, st0):
        rets = list(fr.returns)
        if end is not None:
            rets.append((end.guards, NONE, end.store, end))
        if not rets:
            return UNDEF, None
        base = len(st0.guards)
        if len(rets) == 1:
            g, v, store, s = rets[0]
            out = State(dict(s.env), store, g, st0.ctx, st0.loops)
            return v, out
        val, store = self._tree([(g[base:] if g[:base] == st0.guards else tuple(x for x in g if x not in st0.guards), v, s) for g, v, s, _ in rets])
        common = [x for x in rets[0][0] if all(x in r[0] for r in rets[1:])]
        ways = [tuple(x for x in r[0] if x not in common) for r in rets]
        if len(ways) <= 12 and not exhaustive(ways):
            # some of the paths through the function do not come back
            alts = []
            for w in ways:
                cs = [c if v else neg(c) for c, v in w]
                alts.append(cs[0] if len(cs) == 1 else op("and", *cs))
            common.append((op("or", *alts), True))
        out = State(dict(rets[-1][3].env), store, tuple(common), st0.ctx, st0.loops)
        return val, out

    def _tree(self, rets, depth=0):
        if len(rets) == 1 or depth > 40:
            g, v, s = rets[0]
            return v, s
        # choose a guard present with both polarities
        cond = None
        for g, _, _ in rets:
            for c, p in g:
                if any((c, not p) in g2 for g2, _, _ in rets):
                    cond = c
                    break
            if cond is not None:
                break
        if cond is None:
            # choose guard on the first return only
            g, v, s = rets[0]
            others = rets[1:]
            c = next((c for c, p in g if not any(c in [x[0] for x in g2] for g2, _, _ in others)), None)
            v2, s2 = self._tree(others, depth + 1)
            if c is None:
                return phi(unknown("return-choice"), v, v2), self._merge_store(unknown("return-choice"), s, s2)
            p = dict((x, y) for x, y in g)[c]
            return (phi(c, v, v2) if p else phi(c, v2, v)), (self._merge_store(c, s, s2) if p else self._merge_store(c, s2, s))
        pos = [r for r in rets if (cond, True) in r[0] or (cond, False) not in r[0]]
        ng = [r for r in rets if (cond, False) in r[0] or (cond, True) not in r[0]]
        strip = lambda rs: [(tuple(x for x in g if x[0] is not cond), v, s) for g, v, s in rs]
        if len(pos) == len(rets) and len(ng) == len(rets):
            g, v, s = rets[0]
            return v, s
        a, sa = self._tree(strip(pos), depth + 1)
        b, sb = self._tree(strip(ng), depth + 1)
        return phi(cond, a, b), self._merge_store(cond, sa, sb)

    def _default_cell(self, k):
        if isinstance(k, tuple) and k[0] == "attr":
            return T("attr", (k[1],), k[2])
        if isinstance(k, tuple) and k[0] == "item":
            return k[1]
        return None

    def _merge_store(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is None:
                x = self._default_cell(k)
                if x is None:
                    out[k] = y
                    continue
            if y is None:
                y = self._default_cell(k)
                if y is None:
                    out[k] = x
                    continue
            if x is not y and isinstance(k, tuple) and k[0] == "item":
                p, q = self.unchanged(k[1], x), self.unchanged(k[1], y)
                if p is not None and q is not None:
                    for e in q:
                        if e not in p:
                            x = T("mut", (x, e.kids[1], e), ("setitem", ()))
                    y = x
            out[k] = x if x is y else phi(c, x, y)
        return out

    def unchanged(self, base, x):
        """Elements stored back into the place they came from, when that is all that happened to `base`."""
        out = []
        while x is not base:
            if x.kind == "mut" and x.data[0] == "setitem" and x.kids[2].kind == "sub" and x.kids[2].kids[0] is base and x.kids[2].kids[1] is x.kids[1]:
                out.append(x.kids[2])
                x = x.kids[0]
            else:
                return None
        return out

    def merge(self, c, a, b, base_guards):
        if a is None and b is None:
            return None
        if a is None:
            b.guards = b.guards  # keeps (c, False): the other side terminated
            return b
        if b is None:
            return a
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else phi(c, x, y)
        # guards gained inside both branches unconditionally are kept as implications only if common
        g = tuple(x for x in a.guards if x in b.guards)
        # an inner check "c and d -> raise" is kept as guard not(c and d)
        extra = []
        for x, pol in a.guards:
            if (x, pol) not in g and x is not c:
                extra.append((op("or", neg(c), x if pol else neg(x)), True))
        for x, pol in b.guards:
            if (x, pol) not in g and x is not c:
                extra.append((op("or", c, x if pol else neg(x)), True))
        cs = conj_atoms(c)
        extra = [e for e in extra if not any(e[0].kids[1] is z or e[0].kids[1] is neg(z) for z in cs)]
        g = g + tuple(e for e in extra if e not in g)
        return State(env, self._merge_store(c, a.store, b.store), g, a.ctx, a.loops)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st)
        return st

    def exec_stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknowns.append((self.frames[-1].module.relpath, s.lineno, type(s).__name__))
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st)
        return st

    def s_Pass(self, s, st):
        return st

    s_Import = s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.from_dotted(a.name)
            else:
                h = a.name.split(".")[0]
                st.env[h] = self.from_dotted(h)
        return st

    def s_ImportFrom(self, s, st):
        base = s.module or ""
        if s.level:
            m = self.frames[-1].module
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            st.env[a.asname or a.name] = self.from_dotted(f"{base}.{a.name}")
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.make_closure(s, st)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st.env[s.name] = unknown(f"local class {s.name}")
        return st

    def make_closure(self, node, st):
        fr = self.frames[-1]
        name = getattr(node, "name", "<lambda>")
        owner = fr.func.qual if fr.func else fr.module.name
        ordn = self.new_id()
        key = (f"{owner}.<locals>.{name}", ordn)
        fd = FuncDef(key[0], node, fr.module, fr.cls)
        captured = tuple()
        self.closures[key] = (fd, st.env, fr)
        # captured free variables become kids so that provenance sees them
        free = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and n.id in st.env})
        captured = tuple(st.env[n] for n in free)
        return T("func", captured, key)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        self.emit("return", s, st, args=[self.freeze(v, st)], kw={})
        self.frames[-1].returns.append((st.guards, v, st.store, st))
        return None

    def s_Raise(self, s, st):
        v = self.ev(s.exc, st) if s.exc is not None else NONE
        self.emit("raise", s, st, args=[self.freeze(v, st)], kw={})
        return None

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        e = self.emit("assert", s, st, args=[self.freeze(c, st)], kw={})
        if truth(c) is False:
            return None
        st.guards = add_guard(st.guards, self.freeze(c, st), True)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        cur = self.ev(_as_load(s.target), st)
        rhs = self.ev(s.value, st)
        o = BINOPS.get(type(s.op), "?")
        self.emit("aug", s, st, args=[self.freeze(cur, st), self.freeze(rhs, st)], kw={}, extra=(o, type(s.target).__name__, cur))
        cc = self.deref(cur, st)
        if cur.kind == "ref" and o == "+" and cc.kind in ("list", "mut", "comp", "phi"):
            self.container_method(cur, "extend", [rhs], {}, st, s)
            return st
        if cur.kind == "ref" and o == "|":
            self.container_method(cur, "update", [rhs], {}, st, s)
            return st
        self.assign(s.target, self.binop(o, cur, rhs, st), st, s, aug=True)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.emit("mutate", s, st, fn=T("attr", (self.freeze(b, st),), "__delitem__"), args=[self.freeze(k, st)], kw={}, raw=b)
                self.container_update(b, ("delitem", ()), [k], st, t.value)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.emit("mutate", s, st, fn=T("attr", (self.freeze(b, st),), "__delattr__"), args=[const(t.attr)], kw={}, raw=b)
        return st

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        tv = truth(c)
        if tv is True:
            return self.exec_block(s.body, st)
        if tv is False:
            return self.exec_block(s.orelse, st)
        fc = self.freeze(c, st)
        # a condition already decided by an enclosing guard
        for g, p in st.guards:
            if g is fc:
                return self.exec_block(s.body if p else s.orelse, st)
        a = st.fork(fc, True)
        b = st.fork(fc, False)
        a = self.exec_block(s.body, a)
        b = self.exec_block(s.orelse, b)
        return self.merge(fc, a, b, st.guards)

    def s_With(self, s, st):
        octx = st.ctx
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.emit("with", s, st, args=[self.freeze(v, st)], kw={})
            st.ctx = st.ctx + (self.freeze(v, st),)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        out = self.exec_block(s.body, st)
        if out is not None:
            out.ctx = octx
        return out

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        pre = st.fork()
        out = self.exec_block(s.body, st)
        if out is not None:
            out = self.exec_block(s.orelse, out)
        for h in s.handlers:
            ty = ast.unparse(h.type) if h.type is not None else "BaseException"
            c = T("op", (), f"except:{ty}:{self.frames[-1].module.name}:{ast.unparse(s.body[0])[:60]}")
            b = pre.fork(c, True)
            if h.name:
                b.env[h.name] = sym(f"exc:{ty}")
            b = self.exec_block(h.body, b)
            if out is not None:
                out.guards = add_guard(out.guards, c, False) if b is None else out.guards
            out = self.merge(c, b, out, pre.guards)
        if s.finalbody:
            if out is None:
                self.exec_block(s.finalbody, pre.fork())
            else:
                out = self.exec_block(s.finalbody, out)
        return out

    s_TryStar = s_Try

    def s_Match(self, s, st):
        subj = self.ev(s.subject, st)
        out = None
        rest = st
        first = True
        states = []
        for case in s.cases:
            if rest is None:
                break
            c = self.pattern_cond(case.pattern, subj, rest)
            if case.guard is not None:
                g = self.cond(case.guard, rest)
                c = and_([c, g])
            tv = truth(c)
            if tv is True:
                a = rest
                self.bind_pattern(case.pattern, subj, a)
                states.append((None, self.exec_block(case.body, a)))
                rest = None
                break
            if tv is False:
                continue
            a = rest.fork(c, True)
            self.bind_pattern(case.pattern, subj, a)
            a = self.exec_block(case.body, a)
            states.append((c, a))
            rest = rest.fork(c, False)
        out = rest
        for c, a in reversed(states):
            if c is None:
                out = a
            else:
                out = self.merge(c, a, out, st.guards)
        return out

    def pattern_cond(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            return compare("==", subj, self.ev(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return compare("is", subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return or_([self.pattern_cond(x, subj, st) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.pattern_cond(p.pattern, subj, st)
        if isinstance(p, ast.MatchClass):
            return call(glob("isinstance"), [subj, self.ev(p.cls, st)])
        return unknown("pattern", subj)

    def bind_pattern(self, p, subj, st):
        if isinstance(p, ast.MatchAs) and p.name:
            st.env[p.name] = subj

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        items = self.known_items(it, st)
        if items is not None and len(items) <= 80:
            fr = self.frames[-1]
            saved = fr.loop_exits
            for x in items:
                fr.loop_exits = []
                self.assign(s.target, x, st, s, quiet=True)
                out = self.exec_block(s.body, st)
                for kind, es in fr.loop_exits:
                    if out is None:
                        out = es
                    else:
                        g = [x for x in es.guards if x not in out.guards]
                        c = and_([a if p else neg(a) for a, p in g]) if g else unknown("loop-exit")
                        out = self.merge(c, es, out, st.guards)
                        out.guards = tuple(x for x in out.guards if x in es.guards or x in st.guards)
                if out is None:
                    fr.loop_exits = saved
                    return None
                st = out
            fr.loop_exits = saved
            return self.exec_block(s.orelse, st)
        return self.symbolic_loop(s, st, self.freeze(it, st))

    s_AsyncFor = s_For

    def s_While(self, s, st):
        c = self.cond(s.test, st)
        if truth(c) is False:
            return self.exec_block(s.orelse, st)
        return self.symbolic_loop(s, st, T("op", (self.freeze(c, st),), "while"))

    def symbolic_loop(self, s, st, it):
        fr = self.frames[-1]
        lid = f"L{fr.func.qual if fr.func else fr.module.name}:{ast.unparse(s.iter if hasattr(s, 'iter') else s.test)[:80]}"
        pre_env, pre_store = dict(st.env), dict(st.store)
        assigned = assigned_names(s.body)
        ne, nret = len(self.events), len(fr.returns)

        def round_from(cells):
            body = st.fork()
            body.loops = body.loops + (lid,)
            body.store.update(cells)
            for n in assigned:
                if n in body.env and body.env[n].kind != "ref":
                    body.env[n] = T("mu", (body.env[n],), (lid, n))
            g0 = body.guards
            if hasattr(s, "target"):
                self.assign(s.target, T("elem", (it,), lid), body, s, quiet=True)
            else:
                c = self.cond(s.test, body)
                body.guards = add_guard(body.guards, self.freeze(c, body), True)
            saved, fr.loop_exits = fr.loop_exits, []
            out = self.exec_block(s.body, body)
            exits, fr.loop_exits = fr.loop_exits, saved
            for kind, es in exits:
                if out is None:
                    out = es
                else:
                    g = [x for x in es.guards if x not in g0 and x not in out.guards]
                    c = and_([a if p else neg(a) for a, p in g]) if g else unknown("loop-exit")
                    out = self.merge(c, es, out, g0)
            return g0, exits, out

        g0, exits, out = round_from({})
        cells = {}
        if out is not None:
            # what was put into a container in earlier rounds is seen by later ones
            cells = {k: T("mu", (self.freeze(pre_store[k], st),), (lid, ("cell", k.data))) for k in pre_store
                     if isinstance(k, T) and out.store.get(k) is not pre_store[k]}
        if cells:
            first = self.events[ne:], fr.returns[nret:]
            del self.events[ne:], fr.returns[nret:]
            g2, exits2, out2 = round_from(cells)
            if out2 is None or not self.cells_read(cells, out2, pre_env, ne, fr.returns[nret:]):
                self.events[ne:], fr.returns[nret:] = first
                cells = {}
            else:
                g0, exits, out = g2, exits2, out2
        if out is None:
            # every iteration leaves the function (return/raise) -> loop may still be skipped
            return self.exec_block(s.orelse, st)
        # the rounds end early when one of these holds
        early = [[x for x in es.guards if x not in g0] for kind, es in exits if kind == "break"]
        early += [[x for x in fr.returns[i][0] if x not in g0] for i in range(nret, len(fr.returns))]
        stop = or_([and_([x if p else neg(x) for x, p in g]) for g in early]) if early else None
        until = (lambda v: T("op", (v, stop), "until")) if stop is not None and truth(stop) is None else (lambda v: v)
        for n in list(out.env):
            a, b = pre_env.get(n, UNDEF), out.env[n]
            if b is a or (b.kind == "mu" and len(b.kids) == 1 and b.data == (lid, n)):
                out.env[n] = a
            elif n in assigned or a is not b:
                if hasattr(s, "target") and n in target_names(s.target):
                    if b.kind != "ref":
                        out.env[n] = until(b)
                    continue
                self.loopvars[T("mu", (a,), (lid, n))] = b
                out.env[n] = T("mu", (a, b), (lid, n))
                if b.kind != "ref":
                    out.env[n] = until(out.env[n])
        own = {k[1]: v for k, v in out.store.items() if isinstance(k, tuple) and k[0] == "item" and k[1].kind == "sub"
               and any(x.kind == "elem" and x.data == lid for x in k[1].walk())}
        for k in own:
            del out.store[("item", k)]
        for k in list(out.store):
            a, b = pre_store.get(k), out.store[k]
            if a is b:
                continue
            if isinstance(k, tuple) and k[0] == "item":
                es = self.unchanged(k[1], b)
                if es is not None and a is None and not any(e in own for e in es):
                    continue
            if own:
                b = out.store[k] = replace_items(b, own)
            if a is None:
                a = self._default_cell(k)
                if a is None:
                    continue
            if k in cells:
                b = self.freeze(b, out)
                self.loopvars[cells[k]] = b
                out.store[k] = T("mu", (cells[k].kids[0], b), cells[k].data)
            else:
                out.store[k] = loop_cell(a, b, it, lid)

        def exists(g):
            c = and_([x if p else neg(x) for x, p in g])
            return T("op", (subst_loop(c, lid), it), "exists")

        # a return inside the loop happens when some item satisfies the guards met in the body
        for i in range(nret, len(fr.returns)):
            g, v, sto, rs = fr.returns[i]
            inner = [x for x in g if x not in st.guards]
            if inner:
                if isinstance(v, T) and v.kind != "ref" and any(x.kind in ("elem", "mu") and (x.data == lid or x.kind == "mu" and x.data[0] == lid) for x in v.walk()):
                    v = until(v)
                fr.returns[i] = (st.guards + ((exists(inner), True),), v, sto, rs)
        # a guard that holds on every completed iteration: no item falsifies it
        out.guards = st.guards + tuple(
            (exists([(x, not p)]), False) for x, p in out.guards if (x, p) not in st.guards
        )
        out.loops = st.loops
        return self.exec_block(s.orelse, out)

    def cells_read(self, cells, out, env, ne, returns):
        """Whether a round looks at the containers it changes."""
        held = set(cells.values())
        sees = lambda t: isinstance(t, T) and any(x in held for x in t.walk())
        for e in self.events[ne:]:
            if any(sees(t) for t in (*e.args, *e.kw.values(), *(g for g, _ in e.guards))):
                return True
            if e.kind == "call" and e.fn is not None and sees(e.fn):
                return True
        if any(sees(v) or any(sees(x) for x, _ in g) for g, v, *_ in returns):
            return True
        if any(v is not env.get(n) and sees(v) for n, v in out.env.items()):
            return True
        for k, v in out.store.items():
            if k in cells:
                r = grown(cells[k], v)
                if r is None:
                    while v.kind == "mut" and not any(sees(x) for x in v.kids[1:]):
                        v = v.kids[0]
                    if v is not cells[k] and sees(v):
                        return True
                elif sees(r[0]) or sees(r[1]):
                    return True
            elif sees(v):
                return True
        return False

    def s_Break(self, s, st):
        fr = self.frames[-1]
        if fr.loop_exits is not None:
            fr.loop_exits.append(("break", st))
        return None

    def s_Continue(self, s, st):
        fr = self.frames[-1]
        if fr.loop_exits is not None:
            fr.loop_exits.append(("continue", st))
        return None

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, s, quiet=False, aug=False):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.assign_seq(t.elts, v, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.emit("setattr", s, st, fn=T("attr", (b,), t.attr), args=[self.freeze(v, st)], kw={}, raw=b)
            self.set_attr(b, t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self.set_item(b, k, v, st, s, t.value)

    def set_attr(self, b, name, v, st, s):
        if b.kind == "phi":
            c, x, y = b.kids
            for o, pol in ((x, True), (y, False)):
                old = self.get_attr(o, name, st, s, quiet=True)
                st.store[("attr", o, name)] = phi(c, v, old) if pol else phi(c, old, v)
            return
        if b.kind == "obj":
            c = self.p.resolve(b.data[0])[1]
            if isinstance(c, ClassDef):
                for k in self.p.mro(c):
                    if not isinstance(k, str) and name in k.setters:
                        self.call_func(k.setters[name], [b, v], {}, st, s, self_term=b)
                        return
        st.store[("attr", b, name)] = v

    def set_item(self, b, k, v, st, s, bnode):
        self.emit("setitem", s, st, fn=T("attr", (self.freeze(b, st),), "__setitem__"),
                  args=[self.freeze(k, st), self.freeze(v, st)], kw={}, raw=b)
        if b.kind == "obj":
            c = self.p.resolve(b.data[0])[1]
            fd = self.p.lookup_method(c, "__setitem__") if isinstance(c, ClassDef) else None
            if fd is not None and not self.is_opaque(fd):
                self.call_func(fd, [b, k, v], {}, st, s, self_term=b)
                return
        self.container_update(b, ("setitem", ()), [k, v], st, bnode)

    def container_update(self, b, how, args, st, bnode=None):
        """b is changed in place."""
        if b.kind == "ref":
            st.store[b] = self.apply_mut(st.store.get(b, UNDEF), how, args, st)
        elif b.kind == "phi":
            c, x, y = b.kids
            for o, pol in ((x, True), (y, False)):
                if o.kind == "ref":
                    old = st.store.get(o, UNDEF)
                    new = self.apply_mut(old, how, args, st)
                    st.store[o] = phi(c, new, old) if pol else phi(c, old, new)
        elif b.kind in ("sym",) or (b.kind == "attr" and root_kind(b) in ("sym", "obj")):
            old = st.store.get(("item", b), b)
            st.store[("item", b)] = T("mut", (old, *[self.freeze(a, st) for a in args]), how)
        elif b.kind == "sub" and root_kind(b) in ("sym", "obj"):
            old = st.store.get(("item", b), b)
            self.element_of(b, st)
            st.store[("item", b)] = T("mut", (old, *[self.freeze(a, st) for a in args]), how)
        elif bnode is not None:
            new = T("mut", (b, *args), how)
            if isinstance(bnode, ast.Name):
                st.env[bnode.id] = new
            elif isinstance(bnode, ast.Attribute):
                self.set_attr(self.ev(bnode.value, st), bnode.attr, new, st, None)
            elif isinstance(bnode, ast.Subscript):
                bb = self.ev(bnode.value, st)
                kk = self.ev(bnode.slice, st)
                self.container_update(bb, ("setitem", ()), [kk, new], st, bnode.value)

    def element_of(self, b, st):
        """The element `b` of a container given from outside is about to change: the container holds `b` itself."""
        base, k = b.kids
        if base.kind == "attr" and ("attr", base.kids[0], base.data) in st.store:
            return
        if base.kind == "sub":
            self.element_of(base, st)
        old = st.store.get(("item", base), base)
        if old is base or self._subscript(old, k, st) is not b:
            st.store[("item", base)] = T("mut", (old, k, b), ("setitem", ()))

    def apply_mut(self, old, how, args, st):
        """New content of a container after an in-place change; exact when statically known."""
        m, kwn = how
        if old.kind == "phi":
            # distribute only shallowly; keep lazily otherwise
            return T("mut", (old, *args), how)
        if old.kind == "list" and not any(x.kind == "star" for x in old.kids):
            k = old.kids
            if m == "append":
                return T("list", k + (args[0],))
            if m == "extend":
                it = self.known_items(args[0], st)
                if it is not None:
                    return T("list", k + tuple(it))
            if m == "insert" and args[0].kind == "const" and isinstance(args[0].data, int):
                l = list(k)
                l.insert(args[0].data, args[1])
                return T("list", l)
            if m == "clear":
                return T("list")
            if m == "remove" and args[0].kind == "const" and all(x.kind == "const" for x in k):
                l = list(k)
                if args[0] in l:
                    l.remove(args[0])
                    return T("list", l)
            if m == "pop":
                l = list(k)
                try:
                    i = args[0].data if args else -1
                    l.pop(i)
                    return T("list", l)
                except Exception:
                    pass
            if m == "reverse":
                return T("list", k[::-1])
            if m == "setitem" and args[0].kind == "const" and isinstance(args[0].data, int) and -len(k) <= args[0].data < len(k):
                l = list(k)
                l[args[0].data] = args[1]
                return T("list", l)
        if old.kind == "dict" and not any(x.kind == "dstar" for x in old.kids):
            d = dict_pairs(old)
            if m == "setitem":
                d = [(k, v) for k, v in d]
                for i, (k, v) in enumerate(d):
                    if k is args[0]:
                        d[i] = (k, args[1])
                        return mk_dict(d)
                return mk_dict(d + [(args[0], args[1])])
            if m in ("delitem", "pop") and any(k is args[0] for k, _ in d):
                return mk_dict([(k, v) for k, v in d if k is not args[0]])
            if m == "pop" and args and args[0].kind == "const" and all(k.kind == "const" for k, _ in d):
                return old
            if m == "clear":
                return T("dict")
            if m == "setdefault":
                if any(k is args[0] for k, _ in d):
                    return old
                if all(k.kind == "const" for k, _ in d) and args[0].kind == "const":
                    return mk_dict(d + [(args[0], args[1] if len(args) > 1 else NONE)])
            if m == "update":
                new = list(d)
                ok = True
                if args:
                    src = self.freeze1(args[0], st)
                    if src.kind == "dict" and not any(x.kind == "dstar" for x in src.kids):
                        pairs = dict_pairs(src)
                    else:
                        pairs = None
                        ok = False
                else:
                    pairs = []
                if ok:
                    for k, v in pairs:
                        new = [(a, b) for a, b in new if a is not k] + [(k, v)]
                    return mk_dict(new)
        if old.kind == "set":
            if m == "add":
                return old if args[0] in old.kids else T("set", old.kids + (args[0],))
            if m in ("discard", "remove") and args[0].kind == "const" and all(x.kind == "const" for x in old.kids):
                return T("set", tuple(x for x in old.kids if x is not args[0]))
        return T("mut", (old, *args), how)

    def freeze1(self, t, st):
        return self.deref(t, st)

    def assign_seq(self, elts, v, st, s):
        items = self.known_items(v, st)
        nstar = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None:
            if not nstar and len(items) == len(elts):
                for e, x in zip(elts, items):
                    self.assign(e, x, st, s)
                return
            if nstar and len(items) >= len(elts) - 1:
                i = nstar[0]
                after = len(elts) - i - 1
                for e, x in zip(elts[:i], items[:i]):
                    self.assign(e, x, st, s)
                mid = items[i : len(items) - after]
                self.assign(elts[i].value, self.new_ref(st, T("list", mid)), st, s)
                for e, x in zip(elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x, st, s)
                return
        base = v
        n = len(elts)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                hi = NONE if i == n - 1 else const(i - n + 1)
                self.assign(e.value, self.subscript(base, T("slice", (const(i), hi, NONE)), st), st, s)
            else:
                idx = i if not nstar or i < nstar[0] else i - n
                self.assign(e, self.subscript(base, const(idx), st), st, s)

    # ------------------------------------------------------------------ containers
    def known_items(self, t, st, strings=False):
        """Items of a statically known iterable, or None."""
        t = self.deref(t, st)
        if t.kind == "phi":
            a, b = self.known_items(t.kids[1], st), self.known_items(t.kids[2], st)
            if a is not None and b is not None and len(a) == len(b):
                return [phi(t.kids[0], x, y) for x, y in zip(a, b)]
            return None
        if t.kind in ("tuple", "list"):
            out = []
            for k in t.kids:
                if k.kind == "star":
                    sub = self.known_items(k.kids[0], st)
                    if sub is None:
                        return None
                    out += sub
                else:
                    out.append(k)
            return out
        if t.kind == "dict":
            if any(x.kind == "dstar" for x in t.kids):
                return None
            return [k for k, _ in dict_pairs(t)]
        if t.kind == "set" and all(x.kind == "const" for x in t.kids):
            return sorted(t.kids, key=lambda x: str(x.data))
        if t.kind == "const" and isinstance(t.data, (tuple,)):
            return [const(x) for x in t.data]
        if t.kind == "const" and isinstance(t.data, str) and len(t.data) <= 40:
            return [const(x) for x in t.data]
        if t.kind == "call":
            n, names = t.data
            f = t.kids[0]
            if f.kind == "glob" and f.data == "zip" and not names:
                cols = [self.known_items(a, st) for a in t.kids[1 : 1 + n]]
                if any(c is None for c in cols):
                    k = next((len(c) for c in cols if c is not None), None)
                    if k is None:
                        return None
                    # zip of a known and an unknown: known length (strictly: at most)
                    cols = [c if c is not None else [self.subscript(a, const(i), st) for i in range(k)]
                            for c, a in zip(cols, t.kids[1 : 1 + n])]
                return [T("tuple", r) for r in zip(*cols)]
            if f.kind == "glob" and f.data == "enumerate":
                c = self.known_items(t.kids[1], st)
                if c is not None and n == 1 and not names:
                    return [T("tuple", (const(i), x)) for i, x in enumerate(c)]
            if f.kind == "glob" and f.data == "reversed":
                c = self.known_items(t.kids[1], st)
                return None if c is None else c[::-1]
            if f.kind == "glob" and f.data == "range" and n == 1 and t.kids[1].kind == "const" and isinstance(t.kids[1].data, int) and t.kids[1].data <= 32:
                return [const(i) for i in range(t.kids[1].data)]
            if f.kind == "attr" and f.data in ("items", "keys", "values") and n == 0:
                d = self.deref(f.kids[0], st)
                if d.kind == "dict" and not any(x.kind == "dstar" for x in d.kids):
                    ps = dict_pairs(d)
                    return {"items": [T("tuple", p) for p in ps], "keys": [k for k, _ in ps], "values": [v for _, v in ps]}[f.data]
            if f.kind == "glob" and f.data in ("list", "tuple", "sorted") and n == 1 and f.data != "sorted":
                return self.known_items(t.kids[1], st)
        if t.kind == "op" and t.data == "+" and len(t.kids) == 2:
            a, b = self.known_items(t.kids[0], st), self.known_items(t.kids[1], st)
            if a is not None and b is not None:
                return a + b
        return None

    def subscript(self, b, k, st):
        c = self.deref(b, st)
        if b.kind in ("sym", "attr", "sub") and ("item", b) in st.store:
            c = st.store[("item", b)]
        r = self._subscript(c, k, st)
        return r

    def _subscript(self, c, k, st, depth=0):
        c = self.deref(c, st)
        if depth > 60:
            return T("sub", (c, k))
        if c.kind == "phi":
            return phi(c.kids[0], self._subscript(c.kids[1], k, st, depth + 1), self._subscript(c.kids[2], k, st, depth + 1))
        if k.kind == "phi" and c.kind in ("tuple", "list", "dict"):
            return phi(k.kids[0], self._subscript(c, k.kids[1], st, depth + 1), self._subscript(c, k.kids[2], st, depth + 1))
        if c.kind in ("tuple", "list") and k.kind == "const" and isinstance(k.data, int) and not isinstance(k.data, bool):
            items = self.known_items(c, st)
            if items is not None and -len(items) <= k.data < len(items):
                return items[k.data]
        if c.kind in ("tuple", "list") and k.kind == "slice" and all(x.kind == "const" for x in k.kids):
            items = self.known_items(c, st)
            if items is not None:
                r = items[slice(*[x.data for x in k.kids])]
                return T(c.kind, r) if c.kind == "tuple" else self.new_ref(st, T("list", r))
        if c.kind == "dict":
            for kk, v in reversed(dict_pairs(c)):
                if kk.kind == "dstar":
                    return T("sub", (c, k))
                if kk is k:
                    return v
                if kk.kind != "const" and k.kind == "const":
                    continue
            return T("sub", (c, k))
        if c.kind == "mut" and c.data[0] in ("setitem",):
            if c.kids[1] is k:
                return c.kids[2]
            if c.kids[1].kind == "const" and k.kind == "const":
                return self._subscript(c.kids[0], k, st, depth + 1)
        if c.kind == "mut" and c.data[0] in ("delitem", "pop") and len(c.kids) > 1 and c.kids[1].kind == "const" and k.kind == "const" and c.kids[1] is not k:
            if dictlike(c.kids[0]):
                return self._subscript(c.kids[0], k, st, depth + 1)
        if c.kind == "mut" and c.data[0] == "update" and len(c.kids) == 2:
            d = self.deref(c.kids[1], st)
            if d.kind == "dict" and all(x.kind == "const" for x in d.kids[::2]):
                if any(x is k for x in d.kids[::2]):
                    return self._subscript(d, k, st, depth + 1)
                return self._subscript(c.kids[0], k, st, depth + 1)
        if c.kind == "const" and isinstance(c.data, str) and k.kind == "const":
            try:
                return const(c.data[k.data])
            except Exception:
                pass
        if c.kind == "const" and isinstance(c.data, str) and k.kind == "slice" and all(x.kind == "const" for x in k.kids):
            return const(c.data[slice(*[x.data for x in k.kids])])
        if c.kind == "glob" and c.data in ("numpy.s_", "numpy.index_exp"):
            return k
        if c.kind == "call":
            items = self.known_items(c, st)
            if items is not None and k.kind == "const" and isinstance(k.data, int) and -len(items) <= k.data < len(items):
                return items[k.data]
        return T("sub", (c, k))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return unknown(type(e).__name__)
        return m(e, st)

    def cond(self, e, st):
        return self.ev(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            return st.env[n]
        fr = self.frames[-1]
        f = fr
        while f is not None:
            ce = getattr(f, "closure_env", None)
            if ce is not None and n in ce:
                return ce[n]
            f = getattr(f, "closure_parent", None)
        return self.module_name(fr.module, n)

    def module_name(self, module, n):
        r = self.p.resolve_local(module, n)
        if r is not None:
            return self.from_resolved(r, n)
        if n in BUILTINS:
            return glob(n)
        return sym(f"undefined:{n}")

    def from_resolved(self, r, n):
        k, v = r
        if k == "func":
            return T("func", (), v.qual)
        if k == "class":
            return T("cls", (), v.qual)
        if k == "module":
            return glob(v.name)
        if k == "value":
            m, name = v
            return self.module_value(m, name)
        return glob(v)

    def from_dotted(self, d):
        return self.from_resolved(self.p.resolve(d), d.rsplit(".", 1)[-1])

    def module_value(self, m, name):
        key = (m.name, name)
        if key in self._modcache:
            return self._modcache[key]
        self._modcache[key] = glob(f"{m.name}.{name}")
        st = State({}, {})
        self.frames.append(Frame(None, m, None, None))
        ne = len(self.events)
        try:
            v = self.ev(m.assigns[name], st)
            v = self.freeze(v, st)
        finally:
            self.frames.pop()
            del self.events[ne:]
        if v.kind in ("const", "list", "tuple", "dict", "set", "func", "cls", "glob") :
            out = v
        elif v.kind == "call" and v.kids[0].kind == "glob" and v.kids[0].data in ("dict", "zip"):
            out = v
        else:
            out = T("glob", (), f"{m.name}.{name}")
            self.bool_cache[out] = v
        self._modcache[key] = out
        return out

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.get_attr(b, e.attr, st, e)

    def get_attr(self, b, name, st, node, quiet=False):
        if ("attr", b, name) in st.store:
            return st.store[("attr", b, name)]
        k = b.kind
        if k == "glob":
            d = f"{b.data}.{name}"
            if d.startswith("pymc_extras"):
                r = self.p.resolve(d)
                if r[0] != "ext":
                    return self.from_resolved(r, name)
            return glob(d)
        if k == "obj":
            c = self.p.resolve(b.data[0])[1]
            if isinstance(c, ClassDef):
                if name == "__class__":
                    return T("cls", (), c.qual)
                fd = self.p.lookup_method(c, name)
                if fd is not None:
                    if fd.is_property:
                        if quiet or self.is_opaque(fd):
                            return T("attr", (b,), name)
                        return self.call_func(fd, [b], {}, st, node, self_term=b)
                    if fd.is_static:
                        return T("func", (), fd.qual)
                    if fd.is_classmethod:
                        return T("bound", (T("cls", (), c.qual), T("func", (), fd.qual)))
                    return T("bound", (b, T("func", (), fd.qual)))
                ca = self.p.lookup_class_assign(c, name)
                if ca is not None:
                    return self.class_value(ca[0], ca[1], name)
            return T("attr", (b,), name)
        if k == "cls":
            c = self.p.resolve(b.data)[1]
            if isinstance(c, ClassDef):
                fd = self.p.lookup_method(c, name)
                if fd is not None:
                    if fd.is_classmethod:
                        return T("bound", (b, T("func", (), fd.qual)))
                    return T("func", (), fd.qual)
                ca = self.p.lookup_class_assign(c, name)
                if ca is not None:
                    return self.class_value(ca[0], ca[1], name)
                if name in ("__name__",):
                    return const(c.name)
            return T("attr", (b,), name)
        if k == "super":
            obj = b.kids[0]
            c = self.p.resolve(b.data)[1]
            oc = c
            if obj.kind == "obj":
                oc = self.p.resolve(obj.data[0])[1]
            elif obj.kind == "cls":
                oc = self.p.resolve(obj.data)[1]
            fd = self.p.lookup_method(oc, name, after=c) if isinstance(oc, ClassDef) else None
            if fd is not None:
                if fd.is_property:
                    return self.call_func(fd, [obj], {}, st, node, self_term=obj)
                if fd.is_static:
                    return T("func", (), fd.qual)
                return T("bound", (obj, T("func", (), fd.qual)))
            return T("attr", (b,), name)
        if k == "phi":
            x, y = b.kids[1], b.kids[2]
            if x.kind in ("obj", "phi", "ref", "tuple") or y.kind in ("obj", "phi", "ref") or x is NONE or y is NONE or any(("attr", z, name) in st.store for z in (x, y)):
                ax = T("attr", (x,), name) if x is NONE else self.get_attr(x, name, st, node, quiet)
                ay = T("attr", (y,), name) if y is NONE else self.get_attr(y, name, st, node, quiet)
                if x is NONE:
                    return ay
                if y is NONE:
                    return ax
                return phi(b.kids[0], ax, ay)
        return T("attr", (b,), name)

    def class_value(self, c, node, name):
        key = (c.qual, name)
        if key in self._modcache:
            return self._modcache[key]
        st = State({}, {})
        self.frames.append(Frame(None, c.module, c, None))
        ne = len(self.events)
        try:
            v = self.freeze(self.ev(node, st), st)
        finally:
            self.frames.pop()
            del self.events[ne:]
        self._modcache[key] = v
        return v

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        if b.kind == "obj":
            c = self.p.resolve(b.data[0])[1]
            fd = self.p.lookup_method(c, "__getitem__") if isinstance(c, ClassDef) else None
            if fd is not None and not self.is_opaque(fd):
                return self.call_func(fd, [b, k], {}, st, e, self_term=b)
        return self.subscript(b, k, st)

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.ev(x, st)
        return T("slice", (g(e.lower), g(e.upper), g(e.step)))

    def e_Tuple(self, e, st):
        return T("tuple", self.seq(e.elts, st))

    def seq(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                items = self.known_items(v, st)
                if items is not None:
                    out += items
                else:
                    out.append(T("star", (v,)))
            else:
                out.append(self.ev(x, st))
        return out

    def e_List(self, e, st):
        return self.new_ref(st, T("list", self.seq(e.elts, st)))

    def e_Set(self, e, st):
        return self.new_ref(st, T("set", dict.fromkeys(self.seq(e.elts, st))))

    def e_Dict(self, e, st):
        pairs = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.deref(self.ev(v, st), st)
                if d.kind == "dict" and not any(x.kind == "dstar" for x in d.kids):
                    for a, b in dict_pairs(d):
                        pairs = [(x, y) for x, y in pairs if x is not a] + [(a, b)]
                else:
                    pairs.append((T("dstar", (d,)), d))
            else:
                kk = self.ev(k, st)
                pairs = [(x, y) for x, y in pairs if x is not kk] + [(kk, self.ev(v, st))]
        return self.new_ref(st, mk_dict(pairs))

    def e_Starred(self, e, st):
        return T("star", (self.ev(e.value, st),))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st)
                x = self.freeze(x, st)
                if x.kind == "const" and v.format_spec is None and v.conversion == -1:
                    parts.append(const(str(x.data)))
                elif v.format_spec is not None:
                    parts.append(op("format", x, self.ev(v.format_spec, st)))
                else:
                    parts.append(x)
        return mk_fstr(parts)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        return self.make_closure(e, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value else NONE
        self.emit("yield", e, st, args=[self.freeze(v, st)], kw={})
        return unknown("yield")

    e_YieldFrom = e_Yield

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            tv = truth(self.deref(v, st))
            if tv is not None:
                return const(not tv)
            return neg(self.freeze(v, st))
        if isinstance(e.op, ast.USub):
            if v.kind == "const" and isinstance(v.data, (int, float)):
                return const(-v.data)
            return op("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return op("invert", v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(BINOPS.get(type(e.op), "?"), a, b, st)

    def binop(self, o, a, b, st):
        if a.kind == "const" and b.kind == "const" and o in PYOPS:
            try:
                r = PYOPS[o](a.data, b.data)
                if not isinstance(r, (str, bytes)) or len(r) < 2000:
                    return const(r)
            except Exception:
                pass
        if o == "+":
            da, db = self.deref(a, st), self.deref(b, st)
            if da.kind in ("list", "tuple") and da.kind == db.kind:
                r = T(da.kind, da.kids + db.kids)
                return self.new_ref(st, r) if da.kind == "list" else r
            if a.kind == "ref" or b.kind == "ref":
                # new list, lazily concatenated
                return self.new_ref(st, op("+", da, db))
            if (a.kind in ("fstr",) or (a.kind == "const" and isinstance(a.data, str))) and b.kind in ("fstr", "const", "attr", "sym"):
                pa = list(a.kids) if a.kind == "fstr" else [a]
                pb = list(b.kids) if b.kind == "fstr" else [b]
                return mk_fstr(pa + pb)
        if o == "*":
            da, db = self.deref(a, st), self.deref(b, st)
            for x, y in ((da, db), (db, da)):
                if x.kind in ("list", "tuple") and y.kind == "const" and isinstance(y.data, int) and y.data * len(x.kids) < 100:
                    r = T(x.kind, x.kids * y.data)
                    return self.new_ref(st, r) if x.kind == "list" else r
        return op(o, a, b)

    def e_BoolOp(self, e, st):
        name = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        cur = st
        # later operands are evaluated only when earlier ones allow it: events get guards
        saved = st.guards
        for x in e.values:
            v = self.freeze(self.ev(x, st), st)
            tv = truth(v)
            if name == "and":
                if tv is False:
                    vals.append(v)
                    break
                if tv is True and x is not e.values[-1]:
                    continue
                st.guards = add_guard(st.guards, v, True)
            else:
                if tv is True:
                    vals.append(v)
                    break
                if tv is False and x is not e.values[-1]:
                    continue
                st.guards = add_guard(st.guards, v, False)
            vals.append(v)
        st.guards = saved
        flat = []
        for v in vals:
            if v.kind == "op" and v.data == name:
                flat += v.kids
            else:
                flat.append(v)
        if len(flat) == 1:
            return flat[0]
        # drop neutral constants in non-final positions of pure booleans
        return T("op", tuple(dict.fromkeys(flat)), name)

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        out = []
        for o, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            l, rr = self.freeze(left, st), self.freeze(right, st)
            if l.kind == "phi" and rr.kind == "const" and l.kids[1].kind == "const" and l.kids[2].kind == "const":
                a_ = compare(CMPOPS[type(o)], l.kids[1], rr)
                b_ = compare(CMPOPS[type(o)], l.kids[2], rr)
                out.append(phi(l.kids[0], a_, b_))
            else:
                out.append(compare(CMPOPS[type(o)], l, rr))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(out)

    def e_IfExp(self, e, st):
        c = self.freeze(self.cond(e.test, st), st)
        tv = truth(c)
        if tv is not None:
            return self.ev(e.body if tv else e.orelse, st)
        for g, p in st.guards:
            if g is c or (c.kind == "op" and c.data == "not" and g is c.kids[0]):
                pp = p if g is c else not p
                return self.ev(e.body if pp else e.orelse, st)
        sa, sb = st.fork(c, True), st.fork(c, False)
        a = self.ev(e.body, sa)
        b = self.ev(e.orelse, sb)
        m = self.merge(c, sa, sb, st.guards)
        st.env, st.store = m.env, m.store
        return phi(c, a, b)

    # comprehensions
    def comp(self, e, st, kind, elt_fn):
        inner = State(dict(st.env), st.store, st.guards, st.ctx, st.loops)
        gens = e.generators

        def expand(i, env_state):
            """Known generators are unrolled."""
            if i == len(gens):
                return [(None, elt_fn(env_state))]
            g = gens[i]
            it = self.ev(g.iter, env_state)
            items = self.known_items(it, env_state)
            if items is None or len(items) > 80:
                return None
            out = []
            for x in items:
                s2 = State(dict(env_state.env), env_state.store, env_state.guards, env_state.ctx, env_state.loops)
                self.assign(g.target, x, s2, e, quiet=True)
                conds = []
                dead = False
                for c in g.ifs:
                    cv = self.freeze(self.cond(c, s2), s2)
                    tv = truth(cv)
                    if tv is False:
                        dead = True
                        break
                    if tv is None:
                        conds.append(cv)
                        s2.guards = add_guard(s2.guards, cv, True)
                if dead:
                    continue
                sub = expand(i + 1, s2)
                if sub is None:
                    return None
                for cc, v in sub:
                    if conds:
                        cc = and_(conds + ([cc] if cc is not None else []))
                    out.append((cc, v))
            return out

        ne = len(self.events)
        r = expand(0, inner)
        if r is not None:
            return "known", r
        del self.events[ne:]
        iters, conds = [], []
        fr = self.frames[-1]
        for g in gens:
            it = self.freeze(self.ev(g.iter, inner), inner)
            lid = f"C{fr.func.qual if fr.func else fr.module.name}:{ast.unparse(g.iter)[:80]}"
            inner.loops = inner.loops + (lid,)
            self.assign(g.target, T("elem", (it,), "C"), inner, e, quiet=True)
            iters.append(it)
            for c in g.ifs:
                cv = self.freeze(self.cond(c, inner), inner)
                conds.append(cv)
                inner.guards = add_guard(inner.guards, cv, True)
        elt = elt_fn(inner)
        return "sym", T("comp", (self.freeze(elt, inner), *iters, *conds), (kind, len(iters)))

    def e_ListComp(self, e, st):
        k, r = self.comp(e, st, "list", lambda s: self.ev(e.elt, s))
        if k == "known":
            content = T("list")
            for c, v in r:
                content = self.apply_mut(content, ("append", ()), [v], st) if c is None else phi(
                    c, self.apply_mut(content, ("append", ()), [v], st), content)
            return self.new_ref(st, content)
        return self.new_ref(st, r)

    def e_GeneratorExp(self, e, st):
        k, r = self.comp(e, st, "gen", lambda s: self.ev(e.elt, s))
        if k == "known":
            if all(c is None for c, _ in r):
                return T("call", (glob("iter"), T("tuple", [v for _, v in r])), (1, ())) if False else T("tuple", [v for _, v in r])
            content = T("list")
            for c, v in r:
                content = self.apply_mut(content, ("append", ()), [v], st) if c is None else phi(
                    c, self.apply_mut(content, ("append", ()), [v], st), content)
            return self.new_ref(st, content)
        return r

    def e_SetComp(self, e, st):
        k, r = self.comp(e, st, "set", lambda s: self.ev(e.elt, s))
        if k == "known" and all(c is None for c, _ in r):
            return self.new_ref(st, T("set", dict.fromkeys(v for _, v in r)))
        if k == "known":
            return self.new_ref(st, T("comp", tuple(v for _, v in r), ("set", 0)))
        return self.new_ref(st, r)

    def e_DictComp(self, e, st):
        k, r = self.comp(e, st, "dict", lambda s: T("tuple", (self.ev(e.key, s), self.ev(e.value, s))))
        if k == "known":
            content = T("dict")
            for c, v in r:
                kk, vv = v.kids
                new = self.apply_mut(content, ("setitem", ()), [kk, vv], st)
                content = new if c is None else phi(c, new, content)
            return self.new_ref(st, content)
        return self.new_ref(st, r)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            fr = self.frames[-1]
            f = fr
            selfname = None
            node = fr.func.node if fr.func else None
            if node is not None and node.args.args:
                selfname = node.args.args[0].arg
            obj = st.env.get(selfname, UNDEF)
            return T("super", (obj,), fr.cls.qual if fr.cls else "?")
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return self.new_ref(st, mk_dict([(const(k), v) for k, v in st.env.items()]))
        fn = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.known_items(v, st)
                if items is not None:
                    args += items
                else:
                    args.append(T("star", (v,)))
            else:
                args.append(self.ev(a, st))
        kw, dstars = {}, []
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.deref(v, st)
                if d.kind == "dict" and all(x.kind == "const" for x in d.kids[::2]):
                    for a, b in dict_pairs(d):
                        kw[a.data] = b
                else:
                    dstars.append(v)
            else:
                kw[k.arg] = v
        return self.do_call(fn, args, kw, dstars, st, e)

    def is_opaque(self, fd):
        q = fd.qual
        if q in self.opaque or fd.name in self.opaque:
            return True
        if self.opaque_fn and self.opaque_fn(fd):
            return True
        return False

    def recursion(self, fn, fd):
        """A local function calling itself: named by its place among the local functions being looked into."""
        if not self.lam or fn.kind != "func" or not isinstance(fn.data, tuple):
            return None
        here = [f.func.node for f in self.frames if f.func is not None and "<locals>" in f.func.qual]
        return T("glob", (), f"rec:{here.index(fd.node)}") if fd.node in here else None

    @staticmethod
    def is_stub(fd):
        """A method of a class whose whole body is `raise NotImplementedError`: what it stands for is its overrides."""
        body = [s for s in getattr(fd.node, "body", ()) if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] if isinstance(fd.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else ()
        if fd.cls is None or len(body) != 1 or not isinstance(body[0], ast.Raise) or body[0].exc is None:
            return False
        e = body[0].exc
        e = e.func if isinstance(e, ast.Call) else e
        return isinstance(e, ast.Name) and e.id == "NotImplementedError"

    def can_inline(self, fd):
        if not self.inline or self.is_opaque(fd):
            return False
        if len(self.frames) > self.max_depth:
            return False
        if sum(1 for f in self.frames if f.func is not None and f.func.node is fd.node) >= 1:
            return False
        if "abstractmethod" in fd.decos or self.is_stub(fd):
            return False
        if any("singledispatch" in d for d in fd.decos):
            return False
        return True

    def do_call(self, fn, args, kw, dstars, st, node):
        # partial application
        if fn.kind == "call":
            f0, a0, k0 = _parts(fn)
            if f0.kind == "glob" and f0.data in ("functools.partial",) and a0:
                k2 = dict(k0)
                k2.update(kw)
                return self.do_call(a0[0], list(a0[1:]) + args, k2, dstars, st, node)
        if fn.kind == "phi":
            c, x, y = fn.kids
            if all(z.kind in ("func", "bound", "cls", "glob", "phi") for z in (x, y)):
                s1, s2 = st.fork(c, True), st.fork(c, False)
                r1 = self.do_call(x, args, kw, dstars, s1, node)
                r2 = self.do_call(y, args, kw, dstars, s2, node)
                st.store = self._merge_store(c, s1.store, s2.store)
                return phi(c, r1, r2)
        h = self.handler_for(fn)
        if h is not None:
            r = h(self, fn, args, kw, dstars, st, node)
            if r is not NotImplemented:
                return r
        # container methods
        if fn.kind == "attr":
            recv = fn.kids[0]
            r = self.method_call(recv, fn.data, args, kw, dstars, st, node)
            if r is not NotImplemented:
                return r
        fd, self_term = self.resolve_callee(fn)
        fz = lambda t: self.freeze(t, st)
        if fd is not None:
            bound = self.bind(fd, ([self_term] if self_term is not None else []) + args, kw, dstars, st)
            ev = self.emit("call", node, st, fn=fn, args=[fz(a) for a in args], kw={k: fz(v) for k, v in kw.items()},
                           callee=fd, bound=None if bound is None else {k: fz(v) for k, v in bound.items()},
                           extra=[fz(d) for d in dstars], inlined=False, raw=(args, kw))
            if bound is not None and self.can_inline(fd):
                ev.inlined = True
                r = self.call_func(fd, None, None, st, node, bound=bound, fnterm=fn, self_term=self_term)
                ev.result = r
                return r
            rec = self.recursion(fn, fd)
            r = self.opaque_result(fn if rec is None else rec, args, kw, dstars, st, bound, fd)
            ev.result = r
            return r
        # class construction
        if fn.kind == "cls":
            c = self.p.resolve(fn.data)[1]
            init = self.p.lookup_method(c, "__init__") if isinstance(c, ClassDef) else None
            new = self.p.lookup_method(c, "__new__") if isinstance(c, ClassDef) else None
            if init is not None and new is None:
                obj = T("obj", (), (c.qual, self.new_id()))
                bound = self.bind(init, [obj] + args, kw, dstars, st)
                self.ctors[obj] = self.opaque_result(fn, args, kw, dstars, st, bound, init)
                ev = self.emit("call", node, st, fn=fn, args=[fz(a) for a in args], kw={k: fz(v) for k, v in kw.items()},
                               callee=init, bound=None if bound is None else {k: fz(v) for k, v in bound.items()},
                               extra=[fz(d) for d in dstars], inlined=False, raw=(args, kw), result=obj)
                if bound is not None and self.can_inline(init):
                    ev.inlined = True
                    self.call_func(init, None, None, st, node, bound=bound, self_term=obj)
                else:
                    # opaque object: keep what it was built from
                    st.store[("ctor", obj)] = self.ctors[obj]
                return obj
            r = self.opaque_result(fn, args, kw, dstars, st, None, None)
            bnd = None
            tgt = new
            if tgt is not None:
                bnd = self.bind(tgt, [fn] + args, kw, dstars, st)
            self.emit("call", node, st, fn=fn, args=[fz(a) for a in args], kw={k: fz(v) for k, v in kw.items()},
                      callee=tgt, bound=None if bnd is None else {k: fz(v) for k, v in bnd.items()}, extra=[fz(d) for d in dstars], inlined=False, result=r, raw=(args, kw))
            return r
        r = self.opaque_result(fn, args, kw, dstars, st)
        if fn.kind == "glob" and fn.data in ALLOCATORS:
            r = T("alloc", (r,), self.new_id())
        ev = self.emit("call", node, st, fn=fz(fn), args=[fz(a) for a in args], kw={k: fz(v) for k, v in kw.items()},
                       extra=[fz(d) for d in dstars], inlined=False, result=r, raw=(args, kw))
        if self.callbacks:
            self.sweep(ev, list(args) + list(kw.values()), st, node)
        return r

    def sweep(self, ev, vals, st, node):
        """Analyse in-repo functions handed to an external callee as callbacks, on fresh parameters."""
        for v in vals:
            if v.kind in ("list", "tuple") or v.kind == "ref" and self.freeze(v, st).kind in ("list", "tuple"):
                self.sweep(ev, (v if v.kind != "ref" else self.freeze(v, st)).kids, st, node)
            else:
                self.sweep_one(ev, v, st, node)

    def escaping(self, val, st, node):
        """Local functions that leave as (part of) the result are compared by what they do."""
        ev, seen, todo = Event(kind="escape", idx=-1, node=node, guards=st.guards, loops=st.loops, ctx=st.ctx, frames=(), module=None, func=None), set(), [val]
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.kind == "func" and isinstance(t.data, tuple) and t.data not in self.lams:
                self.sweep_one(ev, t, st, node)
            else:
                todo += t.kids

    def sweep_one(self, ev, v, st, node):
        given = {}
        if v.kind == "call":
            f0, a0, k0 = _parts(v)
            if f0.kind == "glob" and f0.data == "functools.partial" and a0:
                v, given = a0[0], (list(a0[1:]), k0)
        if v.kind not in ("func", "bound"):
            return
        fd, self_term = self.resolve_callee(v)
        if fd is None or (v, ev.node) in self._swept or not self.can_inline(fd):
            return
        self._swept.add((v, ev.node))
        a = fd.node.args
        bound = {}
        pos = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        nm = fd.name
        for p in pos:
            bound[p] = sym(f"cb:{nm}:{p}")
        if a.vararg:
            bound[a.vararg.arg] = sym(f"cb:{nm}:*{a.vararg.arg}")
        if a.kwarg:
            bound[a.kwarg.arg] = sym(f"cb:{nm}:**{a.kwarg.arg}")
        if self.lam:
            off = 1 if self_term is not None else 0
            lv = len(self.lam_stack)
            only = {x.arg for x in a.kwonlyargs}
            for i, q in enumerate(pos[off:]):
                bound[q] = sym(f"λ{lv}.kw:{q}" if q in only else f"λ{lv}.{i}")
            if a.kwarg:
                bound[a.kwarg.arg] = sym(f"λ{lv}.**")
            if a.vararg:
                bound[a.vararg.arg] = sym(f"λ{lv}.*{len(a.posonlyargs + a.args) - off}")
        if self_term is not None and pos:
            bound[pos[0]] = self_term
        if given:
            off = 1 if self_term is not None else 0
            for p, x in zip(pos[off:], given[0]):
                bound[p] = x
            for k, x in given[1].items():
                bound[k] = x
        s2 = st.fork()
        self.lam_stack.append(v)
        val = self.call_func(fd, None, None, s2, node, bound=bound, fnterm=v, self_term=self_term)
        fv = self.freeze(val, s2)
        if self.lam and ev.kind == "escape" and isinstance(fv, T):
            self.escaping(fv, s2, node)
        self.lam_stack.pop()
        self.lams[v.data] = (fv, len(self.lam_stack))
        self.callback_results.append((ev, fd, bound, fv))

    def opaque_result(self, fn, args, kw, dstars, st, bound=None, fd=None):
        fz = lambda t: self.freeze(t, st)
        k2 = {k: fz(v) for k, v in kw.items()}
        a2 = [fz(a) for a in args]
        if bound is not None and fd is not None and not any(a.kind == "star" for a in a2):
            # canonical by-name form so that positional/keyword spelling is irrelevant
            ps = fd.params()
            if fn.kind == "bound" or fn.kind == "cls":
                ps = ps[1:]
            k2 = {}
            given = set(kw) | set(ps[: len(args)])
            for p in ps:
                if p in bound and p in given:
                    k2[p] = fz(bound[p])
            for k, v in kw.items():
                if k not in k2:
                    k2[k] = fz(v)
            a2 = a2[len(ps):] if len(a2) > len(ps) else []
        for i, d in enumerate(dstars):
            a2 = a2 + [T("dstar", (fz(d),))]
        if fn.kind == "bound":
            fn = T("bound", (fn.kids[0], T("func", (), fn.kids[1].data)))
        return call(fz(fn) if fn.kind not in ("func", "cls", "bound", "glob") else fn, a2, k2)

    def resolve_callee(self, fn):
        if fn.kind == "bound":
            fd, _ = self.resolve_callee(fn.kids[1])
            return fd, fn.kids[0]
        if fn.kind == "func":
            if isinstance(fn.data, str):
                k, v = self.p.resolve(fn.data)
                return (v, None) if k == "func" else (None, None)
            return self.closures[fn.data][0], None
        if fn.kind == "obj":
            c = self.p.resolve(fn.data[0])[1]
            fd = self.p.lookup_method(c, "__call__") if isinstance(c, ClassDef) else None
            if fd:
                return fd, fn
        return None, None

    def bind(self, fd, args, kw, dstars, st):
        a = fd.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound = {}
        kw = dict(kw)
        if any(x.kind == "star" for x in args):
            i = next(j for j, x in enumerate(args) if x.kind == "star")
            for n, v in zip(pos, args[:i]):
                bound[n] = v
            starv = args[i].kids[0]
            rest = [n for n in pos[i:] if n not in kw]
            if len(args) > i + 1 and False:
                return None
            if not a.vararg or rest:
                for j, n in enumerate(rest):
                    bound[n] = self.subscript(starv, const(j), st)
            elif a.vararg:
                bound[a.vararg.arg] = starv
        else:
            for n, v in zip(pos, args):
                bound[n] = v
            if len(args) > len(pos):
                if not a.vararg:
                    return None
                bound[a.vararg.arg] = T("tuple", args[len(pos):])
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in bound:
                    return None
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None
        if a.vararg and a.vararg.arg not in bound:
            bound[a.vararg.arg] = T("tuple")
        defaults = {}
        nd = len(a.defaults)
        for n, d in zip(pos[len(pos) - nd :], a.defaults):
            defaults[n] = d
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        for n in pos + kwonly:
            if n in bound:
                continue
            dv = None
            if n in defaults:
                dv = self.eval_default(fd, defaults[n])
            if dstars:
                src = dstars[0] if len(dstars) == 1 else T("tuple", dstars)
                bound[n] = op("kwget", self.freeze(src, st), const(n), *([dv] if dv is not None else []))
            elif dv is not None:
                bound[n] = dv
            else:
                return None
        if a.kwarg:
            pairs = [(const(k), v) for k, v in extra.items()]
            if not pairs and len(dstars) == 1:
                bound[a.kwarg.arg] = T("op", (dstars[0],), "kwrest") if False else dstars[0]
            else:
                for d in dstars:
                    pairs.append((T("dstar", (d,)), d))
                bound[a.kwarg.arg] = self.new_ref(st, mk_dict(pairs))
        return bound

    def eval_default(self, fd, node):
        if isinstance(node, ast.Constant):
            return const(node.value)
        st = State({}, {})
        self.frames.append(Frame(None, fd.module, fd.cls, None))
        ne = len(self.events)
        try:
            return self.freeze(self.ev(node, st), st)
        finally:
            self.frames.pop()
            del self.events[ne:]

    def call_func(self, fd, args, kw, st, node, bound=None, fnterm=None, self_term=None):
        if bound is None:
            bound = self.bind(fd, args, kw or {}, [], st)
            if bound is None or not self.can_inline(fd):
                return unknown("call", *(args or []))
        fr = Frame(fd, fd.module, fd.cls, self.frames[-1], node)
        if fnterm is not None and fnterm.kind in ("func", "bound"):
            key = fnterm.data if fnterm.kind == "func" else fnterm.kids[1].data
            if key in self.closures:
                fr.closure_env = self.closures[key][1]
                fr.closure_parent = self.closures[key][2]  # chain to enclosing closures of the definer
                fr.cls = fd.cls
        body = fd.node.body
        ce = getattr(fr, "closure_env", None)
        inner = State(dict(bound), dict(st.store), st.guards, st.ctx, st.loops)
        self.frames.append(fr)
        try:
            if isinstance(fd.node, ast.Lambda):
                v = self.ev(body, inner)
                out = inner
                val = v
            else:
                end = self.exec_block(body, inner)
                val, out = self.finish(fr, end, State({}, {}, st.guards, st.ctx, st.loops))
        finally:
            self.frames.pop()
        if out is None:
            # callee never returns normally
            st.guards = add_guard(st.guards, T("op", (), f"noreturn:{fd.qual}"), True)
            return T("op", (), "noreturn")
        st.store.clear()
        st.store.update(out.store)
        if len(out.guards) > len(st.guards):
            st.guards = out.guards
        if is_generator(fd.node):
            return unknown(f"generator {fd.qual}", *bound.values())
        return val

    # -- methods of containers / strings
    def method_call(self, recv, name, args, kw, dstars, st, node):
        c = self.deref(recv, st)
        fz = lambda t: self.freeze(t, st)
        if recv.kind == "ref":
            return self.container_method(recv, name, args, kw, st, node, dstars)
        if recv.kind == "phi" and (recv.kids[1].kind == "ref" or recv.kids[2].kind == "ref") and name in MUTATORS:
            self.emit("mutate", node, st, fn=T("attr", (fz(recv),), name), args=[fz(a) for a in args], kw={k: fz(v) for k, v in kw.items()}, raw=recv)
            cnd, x, y = recv.kids
            vals = []
            for o, pol in ((x, True), (y, False)):
                if o.kind == "ref":
                    old = st.store.get(o, UNDEF)
                    vals.append(self.container_result(o, name, args, st))
                    new = self.apply_mut(old, (name, ()), args, st)
                    st.store[o] = phi(cnd, new, old) if pol else phi(cnd, old, new)
                else:
                    vals.append(call(T("attr", (o,), name), [fz(a) for a in args]))
            return phi(cnd, vals[0], vals[1])
        if c.kind == "const" and isinstance(c.data, str):
            if all(a.kind == "const" for a in args) and not kw and not dstars and name in (
                "upper", "lower", "strip", "replace", "startswith", "endswith", "removesuffix", "removeprefix", "title", "capitalize", "isdigit", "split", "rstrip", "lstrip", "rsplit"):
                try:
                    r = getattr(c.data, name)(*[a.data for a in args])
                    if isinstance(r, list):
                        return self.new_ref(st, T("list", [const(x) for x in r]))
                    return const(r)
                except Exception:
                    pass
            if name == "format":
                return T("call", (glob("str.format"), c, *[fz(a) for a in args], *[fz(kw[k]) for k in sorted(kw)]), (1 + len(args), tuple(sorted(kw))))
            if name == "join" and len(args) == 1:
                items = self.known_items(args[0], st)
                if items is not None and all(x.kind == "const" for x in items):
                    return const(c.data.join(str(x.data) for x in items))
        if c.kind == "dict" or c.kind == "list" or c.kind == "tuple":
            return self.container_result_or_pure(recv, c, name, args, kw, st, node)
        if name in MUTATORS and recv.kind in ("sym", "attr", "sub", "phi", "elem", "mu", "call", "mut"):
            # in-place change of something not allocated here
            self.emit("mutate", node, st, fn=T("attr", (fz(recv),), name), args=[fz(a) for a in args],
                      kw={k: fz(v) for k, v in kw.items()}, raw=recv, extra=[fz(d) for d in dstars])
            res = call(T("attr", (fz(recv),), name), [fz(a) for a in args], {k: fz(v) for k, v in kw.items()})
            if recv.kind == "sym" or (recv.kind in ("attr", "sub") and root_kind(recv) in ("sym", "obj")):
                old = st.store.get(("item", recv), recv)
                if recv.kind == "sub":
                    self.element_of(recv, st)
                st.store[("item", recv)] = T("mut", (old, *[fz(a) for a in args], *[fz(d) for d in dstars]), (name, ()))
                res = call(T("attr", (old,), name), [fz(a) for a in args], {k: fz(v) for k, v in kw.items()})
            elif recv.kind in ("call", "mut") and not kw and not dstars and isinstance(getattr(node, "func", None), ast.Attribute) and isinstance(node.func.value, ast.Name) and st.env.get(node.func.value.id) is recv:
                st.env[node.func.value.id] = T("mut", (recv, *[fz(a) for a in args]), (name, ()))
            return res
        if name == "get" and c.kind == "mut" and args:
            r = self._subscript(c, args[0], st)
            if r.kind != "sub":
                return r
        return NotImplemented

    def container_result(self, ref, name, args, st):
        c = st.store.get(ref, UNDEF)
        if name == "pop":
            if c.kind == "dict" and args:
                for k, v in dict_pairs(c):
                    if k is args[0]:
                        return v
                if len(args) > 1 and all(k.kind == "const" for k, _ in dict_pairs(c)) and args[0].kind == "const":
                    return args[1]
            if c.kind == "list":
                i = args[0] if args else const(-1)
                r = self._subscript(c, i, st)
                return r
            return call(T("attr", (self.freeze(c, st),), "pop"), [self.freeze(a, st) for a in args])
        if name == "setdefault":
            if c.kind == "dict":
                for k, v in dict_pairs(c):
                    if k is args[0]:
                        return v
            return args[1] if len(args) > 1 else NONE
        return NONE

    def container_method(self, ref, name, args, kw, st, node, dstars=()):
        c = st.store.get(ref, UNDEF)
        fz = lambda t: self.freeze(t, st)
        if name in MUTATORS:
            self.emit("mutate", node, st, fn=T("attr", (ref,), name), args=[fz(a) for a in args],
                      kw={k: fz(v) for k, v in kw.items()}, raw=ref, extra=[fz(d) for d in dstars])
            res = self.container_result(ref, name, args, st)
            if name == "update" and kw:
                args = list(args) + [self.new_ref(st, mk_dict([(const(k), v) for k, v in kw.items()]))]
                cur = c
                for a in args:
                    cur = self.apply_mut(cur, ("update", ()), [self.deref(a, st)], st)
                st.store[ref] = cur
                return NONE
            args2 = [self.deref(a, st) if name in ("update", "extend") else a for a in args]
            for d in dstars:
                args2.append(self.deref(d, st))
            st.store[ref] = self.apply_mut(c, (name, ()), args2, st)
            return res
        return self.container_result_or_pure(ref, c, name, args, kw, st, node)

    def container_result_or_pure(self, recv, c, name, args, kw, st, node):
        fz = lambda t: self.freeze(t, st)
        if name in ("copy", "__copy__"):
            return self.new_ref(st, c) if c.kind not in ("tuple",) else c
        if c.kind == "dict" and name == "get" and args:
            default = args[1] if len(args) > 1 else kw.get("default", NONE)
            if not any(x.kind == "dstar" for x in c.kids):
                for k, v in dict_pairs(c):
                    if k is args[0]:
                        return v
                if args[0].kind == "const" and all(k.kind == "const" for k, _ in dict_pairs(c)):
                    return default
        if name == "get" and c.kind in ("phi", "mut") and args:
            r = self._subscript(c, args[0], st)
            if r.kind != "sub" or (c.kind == "phi" and "sub" not in {x.kind for x in r.walk()}):
                return r
        if name == "index" and c.kind in ("list", "tuple") and args and args[0].kind == "const":
            for i, k in enumerate(c.kids):
                if k is args[0]:
                    return const(i)
        if name in ("items", "keys", "values"):
            return call(T("attr", (c,), name))
        r = call(T("attr", (fz(c),), name), [fz(a) for a in args], {k: fz(v) for k, v in kw.items()})
        self.emit("call", node, st, fn=T("attr", (fz(c),), name), args=[fz(a) for a in args],
                  kw={k: fz(v) for k, v in kw.items()}, extra=[], inlined=False, result=r, raw=(args, kw))
        return r

    def handler_for(self, fn):
        if fn.kind == "glob":
            return self.handlers.get(fn.data)
        if fn.kind == "func" and isinstance(fn.data, str):
            return self.handlers.get(fn.data)
        return None


class Result:
    def __init__(self, interp, func, value, state, params):
        self.i, self.func, self.value, self.state, self.params = interp, func, value, state, params
        self.events = interp.events

    @property
    def frozen(self):
        if self.state is None:
            return self.value
        return self.i.freeze(self.value, self.state)

    def attr(self, obj, name):
        """Final value of an attribute."""
        if self.state is None:
            return None
        v = self.state.store.get(("attr", obj, name))
        return None if v is None else self.i.freeze(v, self.state)

    def self_term(self):
        return self.params.get("self")


# ---------------------------------------------------------------------- helpers
def _parts(t):
    n, names = t.data
    return t.kids[0], t.kids[1 : 1 + n], dict(zip(names, t.kids[1 + n :]))


def has_ref(t, _memo={}):
    r = _memo.get(t)
    if r is None:
        stack = [t]
        # iterative post-order
        while stack:
            x = stack[-1]
            if x in _memo:
                stack.pop()
                continue
            if x.kind == "ref":
                _memo[x] = True
                stack.pop()
                continue
            pend = [k for k in x.kids if k not in _memo]
            if pend:
                stack.extend(pend)
                continue
            _memo[x] = any(_memo[k] for k in x.kids)
            stack.pop()
        r = _memo[t]
    return r


def rebuild(t, kids):
    if t.kind == "phi":
        return phi(*kids)
    if t.kind == "op" and t.data in ("==", "<", "<=", "is", "in") and len(kids) == 2:
        return compare(t.data, *kids)
    if t.kind == "op" and t.data == "not":
        return neg(kids[0])
    if t.kind == "fstr":
        return mk_fstr(kids)
    return T(t.kind, kids, t.data)


def conj_atoms(c):
    return [c]


def and_(cs):
    out = []
    for c in cs:
        tv = truth(c)
        if tv is True:
            continue
        if tv is False:
            return FALSE
        if c.kind == "op" and c.data == "and":
            out += c.kids
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("op", out, "and")


def or_(cs):
    out = []
    for c in cs:
        tv = truth(c)
        if tv is False:
            continue
        if tv is True:
            return TRUE
        if c.kind == "op" and c.data == "or":
            out += c.kids
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("op", out, "or")


def dict_pairs(d):
    return [(d.kids[i], d.kids[i + 1]) for i in range(0, len(d.kids), 2)]


def mk_dict(pairs):
    k = []
    for a, b in pairs:
        k += [a, b]
    return T("dict", k)


def exhaustive(ways, depth=0):
    """Whether the alternatives, each a conjunction of decided conditions, leave no case out."""
    if any(not w for w in ways):
        return True
    if not ways or depth > 12:
        return False
    c = ways[0][0][0]
    return all(exhaustive([tuple(x for x in w if x[0] is not c) for w in ways if (c, not v) not in w], depth + 1) for v in (True, False))


def mk_fstr(parts):
    out = []
    for p in parts:
        if p.kind == "fstr":
            sub = p.kids
        elif p.kind == "const" and isinstance(p.data, str):
            sub = (p,)
        elif p.kind == "const":
            sub = (const(str(p.data)),)
        else:
            sub = (p,)
        for q in sub:
            if out and q.kind == "const" and out[-1].kind == "const":
                out[-1] = const(out[-1].data + q.data)
            else:
                out.append(q)
    out = [p for p in out if not (p.kind == "const" and p.data == "")]
    if not out:
        return const("")
    if len(out) == 1 and out[0].kind == "const":
        return out[0]
    return T("fstr", out)


def dictlike(t):
    while t.kind == "mut":
        t = t.kids[0]
    return t.kind == "dict"


def root_kind(t):
    while t.kind in ("attr", "sub"):
        t = t.kids[0]
    return t.kind


def loop_cell(a, b, it, lid):
    """Content of a heap cell after a loop whose body turned `a` into `b`."""
    r = grown(a, b)
    if r is not None and r[1] is not None:
        cond, elt, kind = r
        conds = () if cond is TRUE else (subst_loop(cond, lid),)
        comp = T("comp", (subst_loop(elt, lid), it, *conds), (kind, 1))
        if a.kind in ("list", "dict", "set") and not a.kids:
            return comp
        return T("mut", (a, comp), ("extend" if kind == "list" else "update", ()))
    return T("mu", (a, b), (lid, "cell"))


def grown(a, x):
    """(condition, element, kind) when `x` is container `a` with at most one element added; None when unknown."""
    if x is a:
        return FALSE, None, None
    if x.kind == "phi":
        c, p, q = x.kids
        rp, rq = grown(a, p), grown(a, q)
        if rp is None or rq is None or (rp[2] and rq[2] and rp[2] != rq[2]):
            return None
        (cp, ep, kp), (cq, eq, kq) = rp, rq
        if eq is None:
            return and_([c, cp]), ep, kp
        if ep is None:
            return and_([neg(c), cq]), eq, kq
        cond = TRUE if cp is TRUE and cq is TRUE else or_([and_([c, cp]), and_([neg(c), cq])])
        return cond, phi(c, ep, eq), kp
    if x.kind == "mut" and x.kids[0] is a:
        m = x.data[0]
        if m == "append" and len(x.kids) == 2:
            return TRUE, x.kids[1], "list"
        if m == "setitem" and len(x.kids) == 3:
            return TRUE, T("tuple", x.kids[1:3]), "dict"
        if m == "add" and len(x.kids) == 2:
            return TRUE, x.kids[1], "set"
    for kind, n in (("list", 1), ("dict", 2), ("set", 1)):
        if a.kind == kind and x.kind == kind and x.kids[: len(a.kids)] == a.kids and len(x.kids) == len(a.kids) + n:
            return TRUE, (T("tuple", x.kids[-2:]) if n == 2 else x.kids[-1]), kind
    return None


def replace_items(t, items):
    """Elements of outside containers replaced by their changed content."""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        if x in items:
            r = go(items[x])
        else:
            nk = tuple(go(k) for k in x.kids)
            r = x if nk == x.kids else rebuild(x, nk)
        memo[x] = r
        return r

    return go(t)


def subst_loop(t, lid):
    """elem(it; lid) -> elem(it; 'C') so that loops and comprehensions give the same term."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.kind == "elem" and x.data == lid:
            r = T("elem", x.kids, "C")
        elif not x.kids:
            r = x
        else:
            nk = tuple(go(k) for k in x.kids)
            r = x if nk == x.kids else rebuild(x, nk)
        memo[x] = r
        return r

    return go(t)


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _as_load(t):
    n = ast.parse(ast.unparse(t), mode="eval").body
    ast.copy_location(n, t)
    return n


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}
PYOPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
         "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b if abs(b) < 64 else 1 / 0,
         "|": lambda a, b: a | b, "&": lambda a, b: a & b}


# ---------------------------------------------------------------------- builtin handlers
def h_len(I, fn, a, kw, ds, st, n):
    if len(a) == 1:
        items = I.known_items(a[0], st)
        if items is not None:
            return const(len(items))
        c = I.deref(a[0], st)
        if c.kind == "set" and all(x.kind == "const" for x in c.kids):
            return const(len(c.kids))
        return call(glob("len"), [I.freeze(a[0], st)])
    return NotImplemented


def _seqctor(kind):
    def h(I, fn, a, kw, ds, st, n):
        if not a and not kw and not ds:
            return I.new_ref(st, T(kind)) if kind != "tuple" else T("tuple")
        if len(a) == 1:
            items = I.known_items(a[0], st)
            if items is not None:
                if kind == "set":
                    return I.new_ref(st, T("set", dict.fromkeys(items)))
                return I.new_ref(st, T(kind, items)) if kind != "tuple" else T(kind, items)
            c = I.deref(a[0], st)
            if kind == "list":
                if c.kind == "comp" and c.data[0] == "gen":
                    return I.new_ref(st, T("comp", c.kids, ("list", c.data[1])))
                return I.new_ref(st, call(glob(kind), [I.freeze(a[0], st)]))
            if kind == "set":
                return I.new_ref(st, call(glob(kind), [I.freeze(a[0], st)]))
            if kind == "tuple" and c.kind == "comp" and c.data[0] == "gen":
                return T("comp", c.kids, ("tuple", c.data[1]))
        return NotImplemented
    return h


def h_dict(I, fn, a, kw, ds, st, n):
    if not a and not ds:
        return I.new_ref(st, mk_dict([(const(k), v) for k, v in kw.items()]))
    if len(a) == 1:
        items = None
        c = I.deref(a[0], st)
        if c.kind == "dict":
            base = c
        else:
            items = I.known_items(a[0], st)
            if items is not None and all(I.known_items(x, st) is not None and len(I.known_items(x, st)) == 2 for x in items):
                base = mk_dict([tuple(I.known_items(x, st)) for x in items])
            elif c.kind == "comp" and c.data[0] in ("gen", "list"):
                base = T("comp", c.kids, ("dict", c.data[1]))
            else:
                base = call(glob("dict"), [I.freeze(a[0], st)])
        r = I.new_ref(st, base)
        for k, v in kw.items():
            st.store[r] = I.apply_mut(st.store[r], ("setitem", ()), [const(k), v], st)
        return r
    if not a and ds:
        return I.new_ref(st, mk_dict([(T("dstar", (I.freeze(d, st),)), I.freeze(d, st)) for d in ds] + [(const(k), v) for k, v in kw.items()]))
    return NotImplemented


def h_anyall(name):
    def h(I, fn, a, kw, ds, st, n):
        if len(a) == 1:
            items = I.known_items(a[0], st)
            if items is not None:
                items = [I.freeze(x, st) for x in items]
                return or_(items) if name == "any" else and_(items)
            c = I.freeze(a[0], st)
            if c.kind == "comp" and isinstance(c.data[1], int):
                n_it = c.data[1]
                elt, its, conds = c.kids[0], c.kids[1 : 1 + n_it], c.kids[1 + n_it :]
                if name == "any":
                    return T("op", (and_([*conds, elt]), *its), "exists")
                return neg(T("op", (and_([*conds, neg(elt)]), *its), "exists"))
            return call(glob(name), [c])
        return NotImplemented
    return h


def h_isinstance(I, fn, a, kw, ds, st, n):
    if len(a) != 2:
        return NotImplemented
    x = I.deref(a[0], st)
    tys = I.known_items(a[1], st) or [a[1]]
    tys2 = []
    for t in tys:
        if t.kind == "op" and t.data == "|":
            tys2 += flatten_or(t)
        else:
            tys2.append(t)
    names = {t.data for t in tys2 if t.kind == "glob"}
    py = {"str": str, "int": int, "float": float, "bool": bool, "tuple": tuple, "list": list, "dict": dict}
    if x.kind == "const" and names and len(names) == len(tys2) and all(t in py for t in names):
        return const(isinstance(x.data, tuple(py[t] for t in names)))
    if x.kind in ("list", "tuple", "dict", "set") and names and len(names) == len(tys2) and all(t in py for t in names):
        return const(x.kind in names)
    if x.kind == "comp" and x.data[0] in ("list", "dict") and names and len(names) == len(tys2) and all(t in py for t in names):
        return const(x.data[0] in names)
    if x.kind == "obj" and all(t.kind == "cls" for t in tys2):
        c = I.p.resolve(x.data[0])[1]
        quals = {k.qual for k in I.p.mro(c) if not isinstance(k, str)}
        return const(any(t.data in quals for t in tys2))
    # canonical: one atom per class
    atoms = [call(glob("isinstance"), [I.freeze(x, st), t]) for t in tys2]
    return or_(sorted(atoms, key=lambda t: str(t.kids[2])))


def flatten_or(t):
    if t.kind == "op" and t.data == "|":
        return flatten_or(t.kids[0]) + flatten_or(t.kids[1])
    return [t]


def h_getattr(I, fn, a, kw, ds, st, n):
    if len(a) >= 2 and a[1].kind == "const" and isinstance(a[1].data, str):
        if len(a) == 2:
            return I.get_attr(a[0], a[1].data, st, n)
        v = I.get_attr(a[0], a[1].data, st, n)
        if v.kind == "attr":
            return op("getattr_default", v, a[2])
        return v
    if len(a) == 2:
        return T("op", (a[0], I.freeze(a[1], st)), "getattr")
    return NotImplemented


def h_setattr(I, fn, a, kw, ds, st, n):
    if len(a) == 3 and a[1].kind == "const":
        I.emit("setattr", n, st, fn=T("attr", (a[0],), a[1].data), args=[I.freeze(a[2], st)], kw={}, raw=a[0])
        I.set_attr(a[0], a[1].data, a[2], st, n)
        return NONE
    if len(a) == 3:
        I.emit("setattr", n, st, fn=T("attr", (a[0],), "*"), args=[I.freeze(a[2], st), I.freeze(a[1], st)], kw={}, raw=a[0])
        st.store[("item", a[0])] = T("mut", (st.store.get(("item", a[0]), a[0]), I.freeze(a[1], st), I.freeze(a[2], st)), ("setattr", ()))
        return NONE
    return NotImplemented


def h_map(I, fn, a, kw, ds, st, n):
    if len(a) == 2:
        items = I.known_items(a[1], st)
        if items is not None:
            return T("tuple", [I.do_call(a[0], [x], {}, [], st, n) for x in items])
        it = I.freeze(a[1], st)
        r = I.do_call(a[0], [T("elem", (it,), "C")], {}, [], st, n)
        return T("comp", (I.freeze(r, st), it), ("gen", 1))
    return NotImplemented


def h_filter(I, fn, a, kw, ds, st, n):
    if len(a) == 2:
        it = I.freeze(a[1], st)
        el = T("elem", (it,), "C")
        c = el if a[0] is NONE else I.freeze(I.do_call(a[0], [el], {}, [], st, n), st)
        return T("comp", (el, it, c), ("gen", 1))
    return NotImplemented


def h_pure(I, fn, a, kw, ds, st, n):
    """zip/enumerate/range/...: keep as a call term without an event."""
    if ds:
        return NotImplemented
    if fn.data in ("zip", "enumerate"):
        kw = {k: v for k, v in kw.items() if k != "strict"}
    return call(fn, [I.deref(x, st) if I.deref(x, st).kind in ("list", "dict", "tuple") else I.freeze(x, st) for x in a], {k: I.freeze(v, st) for k, v in kw.items()})


def h_cast(I, fn, a, kw, ds, st, n):
    if len(a) == 1 and a[0].kind == "const" and not kw:
        try:
            return const({"int": int, "float": float, "str": str, "bool": bool, "abs": abs}[fn.data](a[0].data))
        except Exception:
            pass
    if fn.data == "str" and len(a) == 1:
        x = I.freeze(a[0], st)
        return mk_fstr([x])
    return call(fn, [I.freeze(x, st) for x in a], {k: I.freeze(v, st) for k, v in kw.items()})


def h_cast_typing(I, fn, a, kw, ds, st, n):
    return a[1] if len(a) == 2 else NotImplemented


def h_copy(I, fn, a, kw, ds, st, n):
    """copy.copy on a known object: new object with the same attributes."""
    if len(a) == 1:
        x = a[0]
        if x.kind == "obj":
            o = T("obj", (), (x.data[0], I.new_id()))
            for k, v in list(st.store.items()):
                if isinstance(k, tuple) and k[0] == "attr" and k[1] is x:
                    st.store[("attr", o, k[2])] = v
            I.ctors[o] = call(fn, [x], {})
            I.emit("call", n, st, fn=fn, args=[x], kw={}, extra=[], inlined=False, result=o, raw=(a, kw))
            return o
        if x.kind == "ref":
            return I.new_ref(st, st.store[x])
    return NotImplemented


def h_type(I, fn, a, kw, ds, st, n):
    if len(a) == 1:
        x = I.deref(a[0], st)
        if x.kind == "obj":
            return T("cls", (), x.data[0])
        if x.kind == "const":
            return glob(type(x.data).__name__)
        if x.kind in ("tuple", "list", "dict", "set"):
            return glob(x.kind)
    return call(fn, [I.freeze(x, st) for x in a])


def h_deepcopy(I, fn, a, kw, ds, st, n):
    if len(a) == 1 and a[0].kind == "ref":
        return I.new_ref(st, T("call", (glob("copy.deepcopy"), I.freeze(a[0], st)), (1, ())))
    return NotImplemented


DEFAULT_HANDLERS = {
    "len": h_len, "list": _seqctor("list"), "tuple": _seqctor("tuple"), "set": _seqctor("set"), "dict": h_dict,
    "any": h_anyall("any"), "all": h_anyall("all"), "isinstance": h_isinstance, "getattr": h_getattr,
    "setattr": h_setattr, "map": h_map, "filter": h_filter, "zip": h_pure, "enumerate": h_pure, "range": h_pure,
    "reversed": h_pure, "int": h_cast, "float": h_cast, "str": h_cast, "bool": h_cast, "abs": h_cast,
    "typing.cast": h_cast_typing, "copy.copy": h_copy, "copy.deepcopy": h_deepcopy, "type": h_type,
}
