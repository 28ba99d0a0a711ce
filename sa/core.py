"""Obligation bookkeeping, known findings, evidence, and the run loop shared by every check."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time

from . import nf
from .interp import Interp
from .terms import T
from .loader import AnalysisBroken, FuncDef, Program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, tier, prog):
        self.pid, self.tier, self.p = pid, tier, prog
        self.obs = []  # (status, rule, construct, msg, where)
        self.functions = set()
        self.events = 0
        self.notes = []
        self.rules = {}

    # -- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, where=""):
        self.obs.append(("ok", rule, construct, "", where))

    def bad(self, rule, construct, msg, where=""):
        self.obs.append(("bad", rule, construct, msg, where))

    def open(self, rule, construct, msg="", where=""):
        """An obligation this run could not decide (never an alarm)."""
        self.obs.append(("open", rule, construct, msg, where))

    def require(self, cond, rule, construct, msg, where=""):
        if cond is None:
            self.open(rule, construct, msg, where)
        elif cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, msg, where)

    # -- analysis
    def run(self, func, **k):
        """Build the value graph of `func` (dotted name or FuncDef)."""
        fd = self.p.func(func) if isinstance(func, str) else func
        args = k.pop("args", None)
        self_cls = k.pop("self_cls", None)
        self_term = k.pop("self_term", None)
        store = k.pop("store", None)
        prep = k.pop("prep", None)
        I = Interp(self.p, **k)
        if prep:
            prep(I)
        r = I.run(fd, args=args, self_cls=self_cls, self_term=self_term, store=store)
        self.functions.add(fd.qual)
        for e in I.events:
            self.functions.update(e.frames)
        self.events += len(I.events)
        return r


    def spec(self, module, func, args, cls=None, **k):
        """Value of a specification function (sa/spec/<module>.py) on the given terms, read as a method of `cls`."""
        m = self.p.load_spec(module)
        fd = m.funcs[func]
        if cls is not None:
            fd = FuncDef(fd.qual, fd.node, fd.module, cls)
        I = Interp(self.p, **k)
        names = [n for n in fd.params()]
        vals = list(args.items())
        if any(n not in args for n in names):
            args = {**args, **{n: vals[i][1] for i, n in enumerate(names) if n not in args and i < len(vals)}}
        return I.run(fd, args=args)

    def raises(self, res, C, types=None, where=None):
        """Canonical condition under which `res` raises (asserts included)."""
        out = nf.FALSE
        for e in res.events:
            if where is not None and not where(e):
                continue
            if e.kind == "raise":
                nm = exc_name(e.args[0])
                g = list(e.guards)
            elif e.kind == "assert":
                nm, g = "AssertionError", list(e.guards) + [(e.args[0], False)]
            else:
                continue
            if types is not None and nm not in types:
                continue
            out = C.bor([out, guard_cond(C, g)])
        return out

    def same_raises(self, rule, construct, cur, ref, where="", canon=None, types=None, extra=()):
        C = canon or nf.Canon()
        adopt(C, cur, ref)
        a, b = self.raises(cur, C, types), self.raises(ref, C, types)
        if b is nf.FALSE:
            raise AnalysisBroken(f"specification of {construct} refuses nothing")
        if a is b:
            self.ok(rule, construct, where)
            return True
        w = nf.Canon().tell_apart(a, b)
        if w is None:
            self.ok(rule, construct, where)
            return True
        if not nf.decided([(a, b)], b, extra):
            self.open(rule, construct, f"refusal conditions not comparable: {nf.pp(a)[:200]} vs {nf.pp(b)[:200]}", where)
            return None
        path = w[0] if w != "?" else ()
        for at, v in path:
            a, b = C.given([a, b], at, v)
        missed = C.band([b, C.bnot(a)])
        self.bad(rule, construct, f"{'accepts' if missed is not nf.FALSE else 'refuses'}{when(path)}, where only {nf.pp(b, 9)[:300]} is to be refused", where)
        return False

    def same(self, rule, construct, cur, ref, where="", canon=None, what="value", extra=(), refused=None):
        """The computed term equals its specification; an inequality the theory cannot interpret stays open."""
        C = canon or nf.Canon()
        adopt(C, cur, ref)
        c, r = (C(x if isinstance(x, T) else x.frozen) for x in (cur, ref))
        d = nf.diff(c, r)
        w = nf.Canon().tell_apart(c, r) if d else None
        if w is not None and w != "?":
            refused = refused or (self.raises(ref, C) if not isinstance(ref, T) else nf.FALSE)
            if refused is not nf.FALSE:
                # where the specification refuses there is no value to compare
                w = nf.Canon().tell_apart(C.ite(refused, nf.NONE, c), C.ite(refused, nf.NONE, r))
        if w is None:
            self.ok(rule, construct, where)
            return True
        case = ""
        if w == "?":
            self.open(rule, construct, f"too many cases: {nf.pp(d[0][0])[:200]} vs {nf.pp(d[0][1])[:200]}", where)
            return None
        d = nf.diff(*w[1:])
        case = when(w[0])
        if nf.decided(d, T("seq", (r, w[2])), extra) and nf.Near(r, extra).case(w[0], c, r):
            a, b = d[0]
            self.bad(rule, construct, f"{what} differs from its specification{case}: found {nf.pp(a)[:300]} where {nf.pp(b)[:300]} is required", where)
            return False
        self.open(rule, construct, f"not comparable: {nf.pp(d[0][0])[:200]} vs {nf.pp(d[0][1])[:200]}", where)
        return None

    def same_attrs(self, rule, construct, cur, ref, where="", canon=None, names=None, obj=None, extra=()):
        """Attributes set on the returned object (or `obj`) agree, name by name, with the specification's."""
        C = canon or nf.Canon()
        adopt(C, cur, ref)

        def attrs(r):
            o = obj if obj is not None else r.value
            m = {o: T("sym", (), "RESULT")} if obj is None else {}
            return {k[2]: nf.subst(r.i.freeze(v, r.state), m) for k, v in r.state.store.items() if isinstance(k, tuple) and k[0] == "attr" and k[1] is o}

        a, b = attrs(cur), attrs(ref)
        refused = self.raises(ref, C)
        for n in sorted(b if names is None else names):
            if n not in a:
                self.bad(rule, f"{construct}.{n}", f"attribute `{n}` is not set", where)
            else:
                self.same(rule, f"{construct}.{n}", a[n], b[n], where, C, f"`{n}`", extra, refused)

    def same_effects(self, rule, construct, cur, ref, where="", canon=None, calls=(), kinds=("raise",), extra=(), types=None, skip=None, may_be_empty=False):
        """The observable effects (refusals, stores, selected calls) happen under the same conditions."""
        C = canon or nf.Canon()
        adopt(C, cur, ref)
        (a, sa), (b, sb) = (effect_map(r, C, kinds, calls, types, skip) for r in (cur, ref))
        if not b and not sb and not may_be_empty:
            raise AnalysisBroken(f"specification of {construct} has no effects")
        good = True
        for m, sm, n, sn in ((a, sa, b, sb), (b, sb, a, sa)):
            for r in {k[1] for k in m if k[0] == ".insert"} & {k[1] for k in m if k[0] == ".pop"} & {k[1] for k in sn if k[0] == "store"}:
                if not any(k[0] in (".insert", ".pop") and k[1] is r for k in n) and not any(k[0] == "store" and k[1] is r for k in sm):
                    # an item taken out and put back in another form is an item replaced
                    self.open(rule, f"{construct}:store", f"items of {nf.pp(r)} are replaced in another way", where)
                    for x, names in ((m, (".insert", ".pop")), (sn, ("store",))):
                        for k in [k for k in x if k[0] in names and k[1] is r]:
                            del x[k]
        if any(k not in b or a[k][0] is not b[k][0] for k in a) or any(k not in a for k in b):
            w = nf.Canon().tell_sets_apart(*([(v[0], T("seq", (T("const", (), k[0]), *k[1:]))) for k, v in m.items()] for m in (a, b)))
            if w is None:
                for k in b:
                    self.ok(rule, f"{construct}:{k[0]}", where)
                a, b = {}, {}
            elif w != "?":
                good = self._case_report(rule, construct, a, b, w, where, extra)
                a, b = {}, {}
        ua = [k for k in a if k not in b]
        ub = [k for k in b if k not in a]
        for k in b:
            if k in a:
                if a[k][0] is b[k][0]:
                    self.ok(rule, f"{construct}:{k[0]}", where)
                    continue
                good = self._cond_report(rule, f"{construct}:{k[0]}", a[k][0], b[k][0], k, where, extra)
        self._unmatched(rule, construct, a, b, ua, ub, where, extra)
        for k in sb:
            if k in sa:
                self.same(rule, f"{construct}:{effect_str(k)[:160]}", sa[k][0], sb[k][0], where, ID, "stored value", extra)
        ua = [k for k in sa if k not in sb]
        ub = [k for k in sb if k not in sa]
        self._unmatched(rule, construct, sa, sb, ua, ub, where, extra)
        return good

    def _case_report(self, rule, construct, a, b, w, where, extra):
        """Judge the effects that differ in one combination of conditions."""
        path, items = w
        ref = T("seq", [x for k in b for x in k[1:]] + [v[0] for v in b.values()])
        near, name = nf.Near(ref, extra), lambda t: t.kids[0].data
        site = lambda t: next((v[1].where() for k, v in a.items() if k[0] == name(t)), where)
        more = [x for x in items if x[2] is nf.FALSE]
        less = [x for x in items if x[1] is nf.FALSE]
        good = True

        asked = {x for v in b.values() for x in nf.asked_in(v[0])} | nf.asked_in(ref)
        hollow = any(x.kind == "f" and len(x.kids) == 1 and x.kids[0] is nf.NONE for t, _, d, _ in items if d is not nf.FALSE for x in t.walk())
        odd = lambda p: any(v and nf.absent(z) and (hollow or z not in asked) for z, v in (*path, *p))

        def say(t, sure, msg, at=where):
            nonlocal good
            good = False if sure else good and None
            (self.bad if sure else self.open)(rule, f"{construct}:{name(t)}", msg, at)

        def known(c):
            return all(x in near.parts or near.known(x) for x in nf.spine(c)[0])

        eff = lambda t: effect_str((name(t), *t.kids[1:]))
        for t, c, d, p in items:
            if c is nf.FALSE or d is nf.FALSE:
                continue
            miss = nf.Canon().band([d, nf.Canon().bnot(c)])
            sure = near.conditional(c, d, 0) and not odd(p)
            if miss is not nf.FALSE and any(x is nf.TRUE for x in self._at(c, d, p)[1:]):
                say(t, sure, f"{eff(t)} does not happen{when(p)}", site(t))
            else:
                say(t, sure, f"{eff(t)} happens{when(p)}, which the specification does not allow", site(t))
        for t, c, d, p in less:
            same = [x for x in more if name(x[0]) == name(t)]
            family = [x for x in more if any(name(x[0]) in f and name(t) in f for f in STORES) and x[0].kids[1] is t.kids[1]]
            if same:
                x = min(same, key=lambda x: len(nf.diff(x[0], t)))
                more.remove(x)
                ds = nf.diff(x[0], t)
                sure = nf.decided(ds, T("seq", (ref, t)), extra) and (x[1] is d or near.conditional(x[1], d, 0)) and not odd(p)
                say(t, sure, f"{name(t)} uses {nf.pp(ds[0][0])[:300]} where {nf.pp(ds[0][1])[:300]} is required{when(path)}", site(t))
            elif family:
                more = [x for x in more if x not in family]
                say(t, False, f"no counterpart of {eff(t)}{when(path)}")
            else:
                say(t, not odd(p), f"does not do {eff(t)}{when(p)}")
        for t, c, d, p in more:
            say(t, known(c) and not odd(p), f"does {eff(t)}{when(p)}, which the specification does not allow", site(t))
        return good

    def _at(self, c, d, path):
        for at, v in path:
            c, d = nf.Canon().given([c, d], at, v)
        return path, d

    def _unmatched(self, rule, construct, a, b, ua, ub, where, extra):
        for k in ub:
            near = [x for x in ua if x[0] == k[0] and a[x][0] is b[k][0]]
            twin = next((x for x in ua if x[0] == k[0] and nf.Canon().tell_apart(T("seq", x[1:]), T("seq", k[1:])) is None), None)
            if twin is not None:
                ua.remove(twin)
                if a[twin][0] is b[k][0] or nf.Canon().tell_apart(a[twin][0], b[k][0]) is None:
                    self.ok(rule, f"{construct}:{k[0]}", where)
                else:
                    self.open(rule, f"{construct}:{k[0]}", f"not comparable: {nf.pp(a[twin][0])[:200]} vs {nf.pp(b[k][0])[:200]}", where)
            elif near:
                x = near[0]
                ua.remove(x)
                d = nf.diff(T("seq", x[1:]), T("seq", k[1:]))
                if nf.decided(d, T("seq", k[1:]), extra):
                    self.bad(rule, f"{construct}:{k[0]}", f"{k[0]} uses {nf.pp(d[0][0])[:300]} where {nf.pp(d[0][1])[:300]} is required", a[x][1].where())
                else:
                    self.open(rule, f"{construct}:{k[0]}", f"not comparable: {nf.pp(d[0][0])[:200]} vs {nf.pp(d[0][1])[:200]}", where)
            elif any(x[0] == k[0] for x in ua):
                x = next(x for x in ua if x[0] == k[0])
                self.open(rule, f"{construct}:{k[0]}", f"no counterpart of {effect_str(k)}", where)
                ua.remove(x)
            else:
                self.bad(rule, f"{construct}:{k[0]}", f"never does {effect_str(k)}, required when {nf.pp(b[k][0], 6)[:200]}", where)
        for x in ua:
            self.bad(rule, f"{construct}:{x[0]}", f"does {effect_str(x)} when {nf.pp(a[x][0], 6)[:200]}, which the specification does not allow", a[x][1].where())

    def _cond_report(self, rule, con, a, b, k, where, extra):
        C = nf.Canon()
        w = nf.Canon().tell_apart(a, b)
        if w is None:
            self.ok(rule, con, where)
            return True
        if not nf.decided([(a, b)], b, extra):
            self.open(rule, con, f"conditions not comparable: {nf.pp(a)[:200]} vs {nf.pp(b)[:200]}", where)
            return None
        path = w[0] if w != "?" else ()
        for at, v in path:
            a, b = C.given([a, b], at, v)
        miss = C.band([b, C.bnot(a)])
        self.bad(rule, con, f"{effect_str(k)} {'does not happen' if miss is not nf.FALSE else 'happens'}{when(path)}, required when {nf.pp(b, 9)[:300]}", where)
        return False


def adopt(C, *rs):
    """Tell the canonicaliser about the local functions and objects of the analysed runs."""
    for r in rs:
        if not isinstance(r, T):
            C.lams = {**C.lams, **r.i.lams}
            C.ctors = {**C.ctors, **r.i.ctors}
            C.loopvars = {**C.loopvars, **r.i.loopvars}


STORES = [{"store", ".update", ".setdefault"}, {".append", ".extend", ".add"}, {".remove", ".pop", ".discard", ".clear"}]


def when(path):
    if not path:
        return ""
    return " when " + " and ".join(("" if v else "not ") + nf.pp(at, 6)[:120] for at, v in path[:6])


def effect_str(k):
    return f"{k[0]}(" + ", ".join(nf.pp(x, 5)[:120] for x in k[1:]) + ")"


def origin(t):
    while t.kind == "mut":
        t = t.kids[0]
    return t


def local(t):
    t = origin(t)
    if t.kind == "phi":
        return all(local(x) for x in t.kids[1:])
    if t.kind == "call":
        fn = t.kids[0]
        if fn.kind == "attr":
            return fn.data == "copy" or fn.data.startswith(("build", "make", "create"))
        return isinstance(fn.data, str) and fn.data.removeprefix("builtins.") in ("dict", "list", "set", "sorted", "copy.copy", "copy.deepcopy", "dict.fromkeys")
    return t.kind in ("ref", "list", "dict", "set", "comp", "tuple", "alloc")


UNSET = nf.UNSET
ID = nf.Ident()


def effect_map(res, C, kinds, calls, types=None, skip=None):
    """effect -> (condition, first event), and place -> (value finally stored there, first event).

    Stores to attributes of `skip` are left out (they are compared as the object's final state)."""
    out, stores = {}, {}
    for e in res.events:
        k = place = member = None
        g = list(e.guards)
        if e.kind == "raise" and "raise" in kinds:
            k = ("raise " + exc_name(e.args[0]),)
        elif e.kind == "assert" and "raise" in kinds:
            k = ("raise AssertionError",)
            g.append((e.args[0], False))
        elif e.kind == "setitem" and "setitem" in kinds:
            place = ("store", C(origin(e.fn.kids[0])), C(e.args[0]))
        elif e.kind == "setattr" and "setattr" in kinds:
            place = ("set ." + str(e.fn.data), C(e.fn.kids[0]))
        elif e.kind == "mutate" and "mutate" in kinds:
            m, recv, xs = str(e.fn.data), C(origin(e.fn.kids[0])), [C(x) for x in e.args]
            if m == "__delitem__":
                m = "pop"
            if m == "pop" and len(xs) == 2:
                xs = xs[:1]
                member = C.member(xs[0], recv)
            if m == "extend" and len(xs) == 1 and xs[0].kind == "seq" and len(xs[0].kids) == 1:
                m, xs = "append", list(xs[0].kids)
            k = ("." + m, recv, *xs)
        elif e.kind == "call" and not e.inlined and e.name in calls:
            kw = tuple(T("seq", (T("const", (), n), C(v))) for n, v in sorted(e.kw.items()))
            recv = (C(e.fn.kids[0]),) if e.fn is not None and e.fn.kind == "attr" else ()
            k = ("call " + e.name, *recv, *(C(x) for x in e.args), *kw)
        if (k or place) is not None and e.kind in ("setitem", "mutate") and local(e.fn.kids[0]):
            continue  # a container the function made itself: visible only through values that are compared
        if place is not None and not (e.kind == "setattr" and skip is not None and e.fn.kids[0] is skip):
            c = guard_cond(C, g)
            if c is not nf.FALSE:
                old = stores.get(place, (UNSET, e))
                v = C(e.args[1] if e.kind == "setitem" else e.args[0])
                stores[place] = (C.ite(c, v, old[0]), old[1])
            continue
        if k is None or (types is not None and k[0].startswith("raise") and k[0][6:] not in types):
            continue
        c = guard_cond(C, g)
        if member is not None:
            c = C.band([c, member])
        if c is nf.FALSE:
            continue
        if k in out:
            out[k] = (C.bor([out[k][0], c]), out[k][1])
        else:
            out[k] = (c, e)
    return out, stores


def exc_name(t):
    if t.kind == "call":
        t = t.kids[0]
    return (t.data if isinstance(t.data, str) else str(t.data)).split(".")[-1]


def guard_cond(C, guards):
    return C.band([C.b(g) if p else C.bnot(C.b(g)) for g, p in guards])


def load_known(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=" + pid + " "):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.removeprefix("key=").strip()] = what
    return out


def main(pid, tier, repo=None):
    t0 = time.time()
    sys.setrecursionlimit(20000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        prog = Program(repo)
        mod = importlib.import_module(f"sa.rules.{pid.lower()}")
        ctx = Ctx(pid, tier, prog)
        mod.check(ctx)
        decided = [o for o in ctx.obs if o[0] != "open"]
        if not decided:
            raise AnalysisBroken("no obligation was decided")
    except AnalysisBroken as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        return 2
    known = load_known(pid)
    viol, kf = [], []
    seen = set()
    for st, rule, con, msg, where in ctx.obs:
        if st != "bad":
            continue
        key = f"{rule}|{con}"
        if key in seen:
            continue
        seen.add(key)
        (kf if key in known else viol).append((key, msg, where))
    for key, msg, where in kf:
        print(f"KNOWN-FINDING: property={pid} {key} ({where}): {known[key] or msg}")
    per_rule = {}
    for st, rule, *_ in ctx.obs:
        d = per_rule.setdefault(rule, {"ok": 0, "bad": 0, "open": 0})
        d[st] += 1
    cov = {
        "explanation": (
            "Static value-graph analysis of /repo's current source (nothing is imported or run). "
            "Each obligation is one construct of the program to which a rule was applied; `open` obligations "
            "could not be decided on this source and raise no alarm. " + (mod.__doc__ or "").strip()
        ),
        "rules": ctx.rules or getattr(mod, "RULES", {}),
        "obligations_by_rule": per_rule,
        "obligations_decided": len(decided),
        "obligations_open": [f"{r}|{c}: {m}" for s, r, c, m, w in ctx.obs if s == "open"][:60],
        "functions_analysed": len(ctx.functions),
        "value_graph_events": ctx.events,
        "samples": [f"{s} {r}|{c} @{w}" for s, r, c, m, w in ctx.obs if s == "ok"][:12],
        "source_digest": prog.digest(),
        "known_findings": [k for k, _, _ in kf],
        "notes": ctx.notes[:40],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(evdir, f"{pid}.replay.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}: {len(viol)} violation(s) found by static analysis of {prog.repo}\n")
            f.write(f"re-run: cd {ROOT} && python3 check.py {pid}\n\n")
            for key, msg, where in viol:
                f.write(f"{where}: [{key}] {msg}\n")
        for key, msg, where in viol[:20]:
            print(f"{where}: [{key}] {msg}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    n_open = len(ctx.obs) - len(decided)
    print(f"OK property={pid}: {len(decided)} obligations hold, {n_open} open, {len(kf)} known finding(s), "
          f"{len(ctx.functions)} functions, {time.time()-t0:.1f}s")
    return 0
