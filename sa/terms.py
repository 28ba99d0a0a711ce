"""Hash-consed value-graph terms.

A term is (kind, kids, data).  Terms are interned, so identity is structural equality.
Kinds used by the interpreter:

  const(data)                literal
  sym(data)                  root symbol: a parameter / an unknown input ("p:<frame>:<name>")
  glob(data)                 external dotted name, e.g. "numpy.zeros"
  func(data)                 in-repo function / closure key
  cls(data)                  in-repo class (qualified name)
  obj(data=(cls, id))        instance of an in-repo class
  bound(obj, func)           bound method
  attr(base; name)           attribute read
  sub(base, index)           subscript read
  slice(a, b, c)
  call(fn, *args, *kwvals; (nargs, kwnames))
  op(*args; opname)          arithmetic / comparison / boolean
  tuple / list / set(*items), dict(k1, v1, k2, v2 ...)
  ref(data=id)               heap cell (list/dict/set), content kept in the store
  mut(old, *args; (method, kwnames))  container after an in-place change that is not statically resolved
  phi(cond, a, b)            gated merge
  elem(iterable; loop)       current item of a loop
  mu(init, step; loop,name)  loop-carried value
  comp(elt, iter..., conds...; (kind, niter))
  fstr(*parts), star(x), dstar(x), none-typed 'undef', unknown(*deps; reason)
"""
from __future__ import annotations


class T:
    __slots__ = ("kind", "kids", "data", "__weakref__")
    _tab: dict = {}

    def __new__(cls, kind, kids=(), data=None):
        kids = tuple(kids)
        try:
            # bool/int/float constants must not be conflated (True == 1 == 1.0)
            dk = (type(data).__name__, data) if kind == "const" else data
            key = (kind, kids, dk)
            t = cls._tab.get(key)
        except TypeError:
            dk = repr(data)
            key = (kind, kids, dk)
            t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.kind, t.kids, t.data = kind, kids, data
            cls._tab[key] = t
        return t

    def __repr__(self):
        return show(self)

    # -- convenience
    @property
    def is_const(self):
        return self.kind == "const"

    def walk(self):
        seen = set()
        st = [self]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            yield t
            st.extend(t.kids)


def const(v):
    return T("const", (), v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = T("undef")


def sym(name):
    return T("sym", (), name)


def glob(name):
    return T("glob", (), name)


def op(name, *a):
    return T("op", a, name)


def call(fn, args=(), kwargs=None):
    kwargs = kwargs or {}
    names = tuple(sorted(kwargs))
    return T("call", (fn, *args, *(kwargs[n] for n in names)), (len(args), names))


def call_parts(t):
    n, names = t.data
    fn = t.kids[0]
    args = t.kids[1 : 1 + n]
    kw = dict(zip(names, t.kids[1 + n :]))
    return fn, args, kw


def unknown(reason, *deps):
    return T("unknown", deps, reason)


def truth(t):
    """Static truth value of a term or None."""
    k = t.kind
    if k == "const":
        try:
            return bool(t.data)
        except Exception:
            return None
    if k in ("tuple", "list", "set", "dict"):
        if any(x.kind in ("star", "dstar") for x in t.kids):
            return None
        return len(t.kids) > 0
    if k in ("func", "cls", "bound", "obj", "slice"):
        return True
    if k == "comp" and t.data[0] == "gen":
        return True
    if k == "fstr":
        for p in t.kids:
            if p.kind == "const" and p.data:
                return True
    return None


def phi(c, a, b):
    if a is b:
        return a
    tv = truth(c)
    if tv is True:
        return a
    if tv is False:
        return b
    if c.kind == "op" and c.data == "not":
        return phi(c.kids[0], b, a)
    # nested same-condition simplification
    if a.kind == "phi" and a.kids[0] is c:
        a = a.kids[1]
    if b.kind == "phi" and b.kids[0] is c:
        b = b.kids[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return T("op", (c,), "bool")
    return T("phi", (c, a, b))


def neg(c):
    if c.kind == "op" and c.data == "not":
        return c.kids[0]
    tv = truth(c)
    if tv is not None:
        return const(not tv)
    return T("op", (c,), "not")


_TYPES = {"str", "tuple", "list", "dict", "int", "float", "set", "bool", "NoneType", "bytes"}
_NEG = {"!=": "==", "isnot": "is", "notin": "in"}
_FLIP = {">": "<", ">=": "<="}


def compare(o, a, b):
    """Canonical comparison term."""
    if o in _NEG:
        return neg(compare(_NEG[o], a, b))
    if o in _FLIP:
        return compare(_FLIP[o], b, a)
    if a.kind == "const" and b.kind == "const":
        try:
            if o == "==":
                return const(a.data == b.data)
            if o == "<":
                return const(a.data < b.data)
            if o == "<=":
                return const(a.data <= b.data)
            if o == "is":
                return const(a.data is b.data if (a.data is None or b.data is None or isinstance(a.data, bool)) else a.data == b.data)
            if o == "in":
                return const(a.data in b.data)
        except Exception:
            pass
    if o == "is":
        if b is NONE and a.kind in ("obj", "tuple", "list", "dict", "set", "func", "cls", "bound", "fstr", "comp", "op", "slice"):
            if not (a.kind == "op" and a.data in ("or", "and", "ifexp")):
                return FALSE
        if a is NONE and b.kind in ("obj", "tuple", "list", "dict", "set", "func", "cls", "bound", "fstr", "comp"):
            return FALSE
        if a is b and a.kind != "call":
            return TRUE
        if b.kind == "const" and a.kind == "const":
            return const(a.data is b.data)
    if o == "==" and a is b:
        return TRUE
    if o in ("is", "==") and a.kind == "glob" and b.kind == "glob" and a.data in _TYPES and b.data in _TYPES:
        return const(a.data == b.data)
    if o == "in" and a.kind == "const" and b.kind in ("tuple", "list", "set") and all(x.kind == "const" for x in b.kids):
        return const(any(a.data == x.data for x in b.kids))
    if o == "in" and a.kind == "const" and b.kind == "dict" and all(x.kind == "const" for x in b.kids[::2]):
        return const(any(a.data == x.data for x in b.kids[::2]))
    if o == "==" and (a.kind == "const" and b.kind != "const"):
        a, b = b, a
    return T("op", (a, b), o)


def show(t, depth=6, _top=True):
    if depth < 0:
        return "…"
    k = t.kind
    s = lambda x: show(x, depth - 1, False)
    if k == "const":
        return repr(t.data)
    if k == "sym":
        return str(t.data)
    if k == "glob":
        return t.data
    if k in ("func", "cls"):
        return f"<{k} {t.data if isinstance(t.data, str) else t.data[0]}>"
    if k == "obj":
        return f"<{t.data[0].split('.')[-1]}#{t.data[1]}>"
    if k == "bound":
        return f"{s(t.kids[0])}.{t.kids[1].data if isinstance(t.kids[1].data, str) else t.kids[1].data[0]}"
    if k == "attr":
        return f"{s(t.kids[0])}.{t.data}"
    if k == "sub":
        return f"{s(t.kids[0])}[{s(t.kids[1])}]"
    if k == "slice":
        return ":".join("" if x is NONE else s(x) for x in t.kids)
    if k == "call":
        fn, a, kw = call_parts(t)
        parts = [s(x) for x in a] + [f"{n}={s(v)}" for n, v in kw.items()]
        return f"{s(fn)}({', '.join(parts)})"
    if k == "op":
        if len(t.kids) == 2:
            return f"({s(t.kids[0])} {t.data} {s(t.kids[1])})"
        return f"{t.data}({', '.join(s(x) for x in t.kids)})"
    if k in ("tuple", "list", "set"):
        o, c = {"tuple": "()", "list": "[]", "set": "{}"}[k]
        return o + ", ".join(s(x) for x in t.kids) + c
    if k == "dict":
        return "{" + ", ".join(f"{s(t.kids[i])}: {s(t.kids[i+1])}" for i in range(0, len(t.kids) - 1, 2)) + "}"
    if k == "phi":
        return f"({s(t.kids[1])} if {s(t.kids[0])} else {s(t.kids[2])})"
    if k == "ref":
        return f"&{t.data}"
    d = t.data if not isinstance(t.data, tuple) else (t.data[0] if t.data else "")
    return f"{k}[{d}]({', '.join(s(x) for x in t.kids)})"
