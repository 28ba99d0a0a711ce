"""Queries over value-graph terms and events."""
from __future__ import annotations

from .terms import FALSE, NONE, T, TRUE, call_parts, compare, const, neg, op, phi, show, truth
from .interp import callee_name, rebuild


def facts_of(e):
    return {c: p for c, p in e.guards}


def assume(t, facts, _memo=None):
    """Specialise `t`: every condition term decided by `facts` is replaced by its value."""
    memo = {} if _memo is None else _memo

    def go(t, depth=0):
        if t in facts and t.kind != "const":
            v = facts[t]
            return v if isinstance(v, T) else const(v)
        r = memo.get(t)
        if r is not None:
            return r
        if not t.kids or depth > 300:
            return t
        memo[t] = t
        if t.kind == "phi":
            c = simp(go(t.kids[0], depth + 1))
            tv = truth(c)
            if tv is True:
                r = go(t.kids[1], depth + 1)
            elif tv is False:
                r = go(t.kids[2], depth + 1)
            else:
                r = phi(c, go(t.kids[1], depth + 1), go(t.kids[2], depth + 1))
        else:
            nk = tuple(go(k, depth + 1) for k in t.kids)
            r = t if nk == t.kids else simp(rebuild(t, nk))
        memo[t] = r
        return r

    return simp(go(t))


def simp(t):
    """Boolean/comparison folding after a substitution."""
    if t.kind != "op":
        return t
    d, k = t.data, t.kids
    if d == "not":
        return neg(k[0])
    if d == "bool" and truth(k[0]) is not None:
        return const(truth(k[0]))
    if d in ("==", "<", "<=", "is", "in") and len(k) == 2:
        return compare(d, k[0], k[1])
    if d == "and":
        ks = [x for x in k if truth(x) is not True]
        if any(truth(x) is False for x in ks):
            return FALSE
        return TRUE if not ks else ks[0] if len(ks) == 1 else T("op", ks, "and")
    if d == "or":
        ks = [x for x in k if truth(x) is not False]
        if any(truth(x) is True for x in ks):
            return TRUE
        return FALSE if not ks else ks[0] if len(ks) == 1 else T("op", ks, "or")
    return t


def leaves(t, facts=None):
    """Alternative values of a gated term (phi leaves), after assuming `facts`."""
    if facts:
        t = assume(t, facts)
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "phi":
            st += [x.kids[1], x.kids[2]]
        else:
            out.append(x)
    return out


def cond_leaves(t, path=(), limit=400):
    """[(path conditions, leaf)] of a gated term."""
    out = []

    def go(x, p):
        if len(out) > limit:
            return
        if x.kind == "phi":
            c = x.kids[0]
            for cc, pol in p:
                if cc is c:
                    return go(x.kids[1] if pol else x.kids[2], p)
            go(x.kids[1], p + ((c, True),))
            go(x.kids[2], p + ((c, False),))
        else:
            out.append((p, x))

    go(t, tuple(path))
    return out


def contains(t, pred):
    if isinstance(pred, T):
        want = pred
        return any(x is want for x in t.walk())
    return any(pred(x) for x in t.walk())


def find(t, pred):
    return [x for x in t.walk() if pred(x)]


def value_contains(t, root, _memo=None):
    """`root` occurs in `t` outside the conditions of phis."""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x is root:
            return True
        st.extend(x.kids[1:] if x.kind == "phi" else x.kids)
    return False


def none_facts(root):
    """Facts implied by `root` having been given by the caller."""
    return {compare("is", root, NONE): False, root: None}


def tied(t, root, facts=None):
    """Every alternative of `t` is computed from `root`, assuming root is not None."""
    f = dict(facts or {})
    f[compare("is", root, NONE)] = False
    f.pop(root, None)
    t = assume(t, f)
    return all(value_contains(l, root) for l in leaves(t))


def calls(res, *names, where=None):
    ns = set(names)
    return [e for e in res.events if e.kind == "call" and e.name in ns and (where is None or where(e))]


def is_call(t, *names):
    return t.kind == "call" and callee_name(t.kids[0]) in names


def cname(t):
    return callee_name(t.kids[0]) if t.kind == "call" else None


def dotted(fn):
    """Best-effort dotted name of a call target."""
    if fn is None:
        return ""
    if fn.kind == "glob":
        return fn.data
    if fn.kind in ("func", "cls"):
        return fn.data if isinstance(fn.data, str) else fn.data[0]
    if fn.kind == "attr":
        return dotted(fn.kids[0]) + "." + fn.data
    if fn.kind == "bound":
        return dotted(fn.kids[1])
    return fn.kind


def short(t, n=140):
    s = show(t, 5)
    return s if len(s) <= n else s[: n - 1] + "…"
