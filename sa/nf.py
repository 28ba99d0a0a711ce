"""Canonical forms of value-graph terms and the comparison of a computed value with its specification.

`canon(t)` maps a term to a canonical term such that terms equal under the theory below become identical:
  * commutative/associative/distributive arithmetic with exact rational coefficients (polynomials over atoms);
  * linear, associative, transposable matrix products;
  * boolean algebra and conditionals (ordered decision diagrams), comparisons moved to one side;
  * library spelling (numpy / pytensor / method forms, positional or keyword arguments);
  * loops, comprehensions, zip/enumerate/range(len) over the same sequences;
  * list/tuple/generator literals, concatenations and casts.

`diff(cur, ref)` returns None when equal, else a list of minimal differing pairs; `decided(pairs)` says whether the
differing parts consist only of constructs the theory understands (otherwise the obligation is left open).
"""
from __future__ import annotations

import hashlib
import itertools
import time
from fractions import Fraction

from .interp import callee_name, rebuild
from .q import assume, dotted
from .terms import FALSE, NONE, T, TRUE, call_parts, const, neg, show, truth

_KEY: dict = {}
CASES_S = 8   # seconds spent on telling two terms equal by cases


def key(t):
    k = _KEY.get(t)
    if k is None:
        st = [t]
        while st:
            x = st[-1]
            if x in _KEY:
                st.pop()
                continue
            todo = [c for c in x.kids if c not in _KEY]
            if todo:
                st += todo
                continue
            h = hashlib.md5()
            h.update(f"{x.kind}|{type(x.data).__name__}|{x.data!r}".encode())
            for c in x.kids:
                h.update(_KEY[c].encode())
            _KEY[x] = h.hexdigest()
            st.pop()
        k = _KEY[t]
    return k


_ORDER: dict = {}


def order(t):
    """Conditions are asked in this order: those about the same thing together, simple ones first."""
    k = _ORDER.get(t)
    if k is None:
        k = _ORDER[t] = (about(t), size(t, 200), key(t))
    return k


def about(t):
    """The innermost symbol of a condition."""
    best, level, seen, n = (0, ""), [t], set(), 0
    while level and n < 40:
        best = max(best, *((n, str(x.data)) for x in level if x.kind == "sym"), (0, ""))
        level = list(dict.fromkeys(y for x in level for y in x.kids if y not in seen))
        seen.update(level)
        n += 1
    return best[1]


LIBS = ("numpy", "pytensor", "jax", "math", "scipy", "builtins")
SIGS = {
    "sum": ("0", "axis"), "prod": ("0", "axis"), "mean": ("0", "axis"), "max": ("0", "axis"), "min": ("0", "axis"),
    "all": ("0", "axis"), "any": ("0", "axis"), "logsumexp": ("0", "axis"), "log_softmax": ("0", "axis"),
    "softmax": ("0", "axis"), "concatenate": ("0", "axis"), "stack": ("0", "axis"), "squeeze": ("0", "axis"),
    "expand_dims": ("0", "axis"), "cumsum": ("0", "axis"), "cumprod": ("0", "axis"), "argmax": ("0", "axis"),
    "repeat": ("0", "repeats", "axis"), "moveaxis": ("0", "source", "destination"), "full": ("shape", "fill_value"),
    "zeros": ("shape",), "ones": ("shape",), "eye": ("n", "m", "k"), "clip": ("0", "min", "max"),
    "set_subtensor": ("0", "1"), "diff": ("0", "n", "axis"), "split": ("0", "splits_size", "n_splits", "axis"),
    "std": ("0", "axis"), "var": ("0", "axis"), "median": ("0", "axis"), "linspace": ("start", "stop", "num"),
    "tile": ("0", "reps"), "solve_triangular": ("0", "1", "trans", "lower"), "vectorize_graph": ("0", "replace"),
    "scan": ("fn", "sequences", "outputs_info", "non_sequences", "n_steps"), "sort": ("0", "axis"), "argsort": ("0", "axis"), "dot": ("0", "1"), "enumerate": ("0", "1"), "quantile": ("0", "q", "axis"),
}
RENAME = {
    "matrix_inverse": "inv", "true_divide": "/", "add": "+", "sub": "-", "subtract": "-", "mul": "*", "multiply": "*",
    "divide": "/", "neg": "neg", "negative": "neg", "square": "sq", "sqr": "sq", "power": "**", "pow": "**",
    "ge": ">=", "gt": ">", "le": "<=", "lt": "<", "eq": "==", "neq": "!=", "equal": "==", "greater": ">",
    "greater_equal": ">=", "less": "<", "less_equal": "<=", "not_equal": "!=", "and_": "and", "or_": "or",
    "bitwise_and": "and", "bitwise_or": "or", "logical_and": "and", "logical_or": "or", "invert": "not",
    "logical_not": "not", "matmul": "@", "matrix_dot": "@", "dot": "@", "multi_dot": "@", "where": "switch",
    "ifelse": "switch", "absolute": "abs", "transpose": "transpose", "matrix_transpose": "transpose",
    "zeros_like": "zeros_like", "amax": "max", "amin": "min",
}
IDENT = {"as_tensor_variable", "as_tensor", "asarray", "constant", "astype", "cast", "float", "asanyarray", "TensorConstant",
         "deepcopy", "copy"}
DROP_KW = {"dtype", "name", "msg"}
SEQCAST = {"list", "tuple"}
COUNTED = {"len"}


class Canon:
    def __init__(self, drop_kw=DROP_KW, ident=IDENT, sigs=SIGS, prog=None, hooks=(), symmetric=(), lams=None, ctors=None, loopvars=None):
        self.lams = lams or {}
        self.ctors = ctors or {}
        self.loopvars = loopvars or {}
        self.symmetric = set(symmetric)
        self.memo, self.drop_kw, self.ident, self.sigs, self.prog, self.hooks = {}, drop_kw, ident, sigs, prog, hooks
        self.bmemo = {}

    # ------------------------------------------------------------- entry
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = t  # cycles cannot occur; guards re-entrancy
            r = self.memo[t] = self._c(t)
        return r

    def cs(self, ts):
        return tuple(self(x) for x in ts)

    def _c(self, t):
        k = t.kind
        for h in self.hooks:
            r = h(self, t)
            if r is not None:
                return r
        if k == "const":
            return self.num(t)
        if k in ("sym", "cls", "undef", "unknown"):
            return t
        if k == "obj":
            return T("new", (self(self.ctors[t]),)) if t in self.ctors else t
        if k == "alloc" and t.kids:
            return self(t.kids[0])
        if k == "star":
            return T("star", (as_list(self(t.kids[0])),))
        if k == "glob":
            return self.fname_term(t)
        if k == "op":
            return self.c_op(t)
        if k == "call":
            return self.c_call(t)
        if k == "phi":
            return self.c_phi(t)
        if k == "attr":
            b = self(t.kids[0])
            if t.data in ("T", "mT"):
                return self.transpose(b)
            return self.attr(b, t.data)
        if k == "sub":
            return self.c_sub(self(t.kids[0]), self(t.kids[1]))
        if k in ("list", "tuple"):
            return self.seq(self.cs(t.kids))
        if k == "set":
            return T("set", sorted(set(self.cs(t.kids)), key=key))
        if k == "dict":
            return self.c_dict(t)
        if k == "comp":
            return self.c_comp(t)
        if k == "elem":
            return self.elem(self.c_iter(t.kids[0]))
        if k == "mu":
            return self.c_mu(t)
        if k == "fstr":
            return self.text(self.cs(t.kids))
        if k == "mut":
            return self.c_mut(t)
        if k == "func" and t.data in self.lams:
            body, lv = self.lams[t.data]
            return T("lam", (self(body),), lv)
        if k == "func" and t.kids == () and t.data.__class__ is str:
            return t
        nk = self.cs(t.kids)
        return t if nk == t.kids else T(k, nk, t.data)

    # ------------------------------------------------------------- arithmetic
    def num(self, t):
        v = t.data
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return t
        try:
            return self.mkpoly({(): Fraction(repr(v) if isinstance(v, float) else v)})
        except (ValueError, OverflowError):
            return t

    def topoly(self, t):
        """canonical term -> {monomial: coef}; monomial = tuple of (atom, exponent) sorted by key."""
        if t.kind == "poly":
            return dict(t_unpack(t))
        if t is TRUE or t is FALSE:
            return {(): Fraction(1)} if t is TRUE else {}
        return {((t, Fraction(1)),): Fraction(1)}

    def mkpoly(self, p):
        p = {m: c for m, c in p.items() if c != 0}
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        monos = sorted(p.items(), key=lambda mc: mono_key(mc[0]))
        atoms, data = [], []
        for m, c in monos:
            row = []
            for a, e in m:
                atoms.append(a)
                row.append((e.numerator, e.denominator))
            data.append(((c.numerator, c.denominator), tuple(row)))
        return T("poly", atoms, tuple(data))

    def padd(self, a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if c != 0}

    def pmul(self, a, b):
        if len(a) * len(b) > 300:
            ta, tb = self.mkpoly(a), self.mkpoly(b)
            return {mono_mul(((ta, Fraction(1)),), ((tb, Fraction(1)),)): Fraction(1)}
        out = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                out[m] = out.get(m, 0) + c1 * c2
        return {m: c for m, c in out.items() if c != 0}

    def ppow(self, a, e):
        """a ** rational e"""
        if e == 1:
            return a
        if e == 0:
            return {(): Fraction(1)}
        if len(a) == 1:
            (m, c), = a.items()
            if c == 1 or e.denominator == 1:
                try:
                    return {tuple((x, y * e) for x, y in m): c**e if c != 1 else Fraction(1)}
                except ZeroDivisionError:
                    pass
            elif c > 0:
                rest = {tuple((x, y * e) for x, y in m): Fraction(1)} if m else {(): Fraction(1)}
                ct = self.mkpoly({(): c})
                return self.pmul(rest, {((ct, e),): Fraction(1)})
        if e.denominator == 1 and 1 < e <= 4 and len(a) <= 6:
            r = a
            for _ in range(int(e) - 1):
                r = self.pmul(r, a)
            return r
        # normalise the base so that its leading coefficient is 1 when the exponent is an integer
        if e.denominator == 1:
            lead = sorted(a.items(), key=lambda mc: mono_key(mc[0]))[-1][1]
            base = self.mkpoly({m: c / lead for m, c in a.items()})
            return {((base, e),): lead**e}
        return {((self.mkpoly(a), e),): Fraction(1)}

    def arith(self, name, ks):
        ps = [self.topoly(k) for k in ks]
        if name == "+":
            if any(k.kind == "fstr" or k.kind == "const" and isinstance(k.data, str) for k in ks):
                return self.text(ks)
            if any(self.is_seq(k) for k in ks):
                return self.concat(ks)
            r = ps[0]
            for p in ps[1:]:
                r = self.padd(r, p)
            return self.mkpoly(r)
        if name == "-" and len(ks) == 2 and all(is_set(k) for k in ks):
            return self.fnorm("difference", ks, {})
        if name == "-":
            return self.mkpoly(self.padd(ps[0], ps[1], -1))
        if name == "neg":
            return self.mkpoly({m: -c for m, c in ps[0].items()})
        if name == "*":
            for i, k in enumerate(ks):
                if self.is_seq(k):
                    n = self.arith("*", [*ks[:i], *ks[i + 1 :]]) if len(ks) > 2 else ks[1 - i]
                    if k.kind == "seq" and len(k.kids) == 1:
                        c = const_of(n)
                        if c is not None and c.denominator == 1 and 0 <= c <= 16:
                            return T("seq", k.kids * int(c))
                        return T("map_over", (k.kids[0], TRUE, *self.iters((T("f", (n,), ("range", ())),), canonical=True)), "seq")
                    return T("rep", (k, n))
            r = ps[0]
            for p in ps[1:]:
                r = self.pmul(r, p)
            return self.mkpoly(r)
        if name == "/":
            return self.mkpoly(self.pmul(ps[0], self.ppow(ps[1], Fraction(-1))))
        if name == "**":
            e = const_of(ks[1])
            if e is not None and abs(e) < 60:
                return self.mkpoly(self.ppow(ps[0], e))
            return T("f", ks, ("pow", ()))
        raise AssertionError(name)

    # ------------------------------------------------------------- matrices
    def matmul(self, ks):
        """n-ary product, linear in each factor."""
        terms = [({(): Fraction(1)}, ())]
        for k in ks:
            nt = []
            for m, c in self.topoly(k).items():
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    facs = a.kids if a.kind == "matmul" else (a,)
                    sc = Fraction(1)
                else:
                    facs = (self.mkpoly({m: Fraction(1)}),)
                for coef, fs in terms:
                    nt.append(({(): coef[()] * c}, fs + facs))
            terms = nt
            if len(terms) > 120:
                return T("matmul", ks)
        out = {}
        for coef, fs in terms:
            rest = tuple(f for f in fs if not is_eye(f)) or fs[:1]
            if len(rest) == 1:
                for m, c in self.topoly(rest[0]).items():
                    out[m] = out.get(m, 0) + c * coef[()]
                continue
            m = ((T("matmul", rest), Fraction(1)),)
            out[m] = out.get(m, 0) + coef[()]
        return self.mkpoly({m: c for m, c in out.items() if c})

    def transpose(self, t):
        if t.kind == "poly":
            out = {}
            for m, c in t_unpack(t):
                if not m:
                    out[m] = out.get(m, 0) + c
                else:
                    n = ()
                    for a, e in m:
                        n = mono_mul(n, ((self.transpose(a), e),))
                    out[n] = out.get(n, 0) + c
            return self.mkpoly(out)
        if t.kind == "matmul":
            return T("matmul", tuple(self.transpose(x) for x in reversed(t.kids)))
        if t.kind == "transpose":
            return t.kids[0]
        if t in self.symmetric or is_eye(t):
            return t
        if t.kind == "f" and t.data == ("inv", ()):
            return T("f", (self.transpose(t.kids[0]),), ("inv", ()))
        return T("transpose", (t,))

    # ------------------------------------------------------------- booleans and conditionals
    def b(self, t, depth=0):
        """canonical boolean of a raw term: decision diagram with leaves TRUE/FALSE."""
        r = self.bmemo.get(t)
        if r is None:
            r = self.bmemo[t] = self._b(t)
        return r

    def _b(self, t):
        tv = truth(t)
        if tv is not None:
            return TRUE if tv else FALSE
        if t.kind == "op":
            d = t.data
            if d in ("not", "invert"):
                return self.bnot(self.b(t.kids[0]))
            if d == "bool":
                return self.b(t.kids[0])
            if d in ("and", "&"):
                return self.band([self.b(x) for x in t.kids])
            if d in ("or", "|"):
                return self.bor([self.b(x) for x in t.kids])
            if d in ("==", "<", "<=", "is", "in"):
                return self.cmp(d, t.kids[0], t.kids[1])
            if d == "exists":
                return self.exists(t)
        if t.kind == "phi":
            return self.ite(self.b(t.kids[0]), self.b(t.kids[1]), self.b(t.kids[2]))
        if t.kind == "call":
            fn, a, kw = call_parts(t)
            n = callee_name(fn)
            if n == "isinstance" and len(a) == 2:
                tys = flat_types(a[1])
                x = self(a[0])
                if x is NONE and not any("NoneType" in str(y) or "object" in str(y) for y in tys):
                    return FALSE
                return self.bor([self.instance(x, self(y)) for y in tys])
            if n == "bool" and len(a) == 1:
                return self.b(a[0])
            if n == "len" and len(a) == 1:
                return self.b(a[0])
            if n in ("and_", "logical_and", "bitwise_and") and not kw:
                return self.band([self.b(x) for x in a])
            if n in ("or_", "logical_or", "bitwise_or") and not kw:
                return self.bor([self.b(x) for x in a])
        c = self(t)
        return self.truthy(c)

    def truthy(self, c):
        if c is TRUE or c is FALSE:
            return c
        if c.kind == "dd":
            return self.ite(c.kids[0], self.truthy(c.kids[1]), self.truthy(c.kids[2])) if False else self.dd_truthy(c)
        tv = truth(c)
        if tv is not None:
            return TRUE if tv else FALSE
        if c.kind in ("seq", "map"):
            return TRUE if c.kids else FALSE
        if c.kind in ("concat", "mapcat"):
            return self.bor([self.truthy(x) for x in c.kids])
        if c.kind == "f" and c.data[0] == "len" and len(c.kids) == 1:
            return self.truthy(c.kids[0])
        if c.kind == "f" and c.data in (("list", ()), ("set", ()), ("sorted", ()), ("reversed", ())) and len(c.kids) == 1:
            return self.truthy(c.kids[0])
        if c.kind == "f" and c.data == ("difference", ()) and len(c.kids) == 2:
            a, b = (x.kids[0] if x.kind == "f" and x.data == ("set", ()) and len(x.kids) == 1 else x for x in c.kids)
            return self.exists(T("exists", (self.bnot(self.member(self.elem(a), b)), *self.iters((a,), canonical=True))))
        n = const_of(c)
        if n is not None:
            return TRUE if n else FALSE
        return self.atom(c)

    def dd_truthy(self, c):
        return self.node(c.kids[0], self.truthy(c.kids[1]), self.truthy(c.kids[2]))

    def atom(self, a):
        if a is TRUE or a is FALSE:
            return a
        return T("dd", (a, TRUE, FALSE))

    def node(self, a, hi, lo):
        """Decision node on atom `a` over diagrams whose atoms may come before `a` in the order."""
        return self.ite(self.atom(a), hi, lo)

    def ite(self, c, x, y, depth=0):
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if x is y:
            return x
        mk = (c, x, y)
        r = _ITE.get(mk)
        if r is not None:
            return r
        tops = [d.kids[0] for d in (c, x, y) if d.kind == "dd"]
        a = tops[0] if len(tops) == 1 else min(tops, key=order)
        if a.kind == "f" and a.data == ("is", ()) and NONE in a.kids:
            z = a.kids[0] if a.kids[1] is NONE else a.kids[1]
            hi = self.ite(*(d.kids[1] if d.kind == "dd" and d.kids[0] is a else none_leaf(d, z) for d in (c, x, y)), depth + 1)
        else:
            hi = self.ite(cof(c, a, 1), cof(x, a, 1), cof(y, a, 1), depth + 1)
        lo = self.ite(cof(c, a, 2), cof(x, a, 2), cof(y, a, 2), depth + 1)
        r = hi if hi is lo else T("dd", (a, hi, lo))
        if len(_ITE) > 3_000_000:
            _ITE.clear()
        _ITE[mk] = r
        return r

    def bnot(self, b):
        return self.ite(b, FALSE, TRUE)

    def band(self, bs):
        r = TRUE
        for x in bs:
            r = self.ite(r, x, FALSE)
        return r

    def bor(self, bs):
        r = FALSE
        for x in bs:
            r = self.ite(r, TRUE, x)
        return r

    def cmp(self, d, a, b):
        if d == "in":
            if b.kind in ("list", "tuple", "set") and b.kids and len(b.kids) <= 8 and not any(x.kind in ("star",) for x in b.kids):
                return self.bor([self.cmp("==", a, x) for x in b.kids])
            return self.member(self(a), self(b))
        ca, cb = self(a), self(b)
        if d == "is":
            if ca is cb:
                return TRUE
            if NONE in (ca, cb):
                return self.isnone(ca if cb is NONE else cb)
            return self.atom(T("f", tuple(sorted((ca, cb), key=key)), ("is", ())))
        if d == "==":
            return self.equal(ca, cb)
        if d == "<":
            if is_len(cb) and const_of(ca) == 0:
                return self.truthy(cb.kids[0])
            if is_len(ca) and const_of(cb) == 1:
                return self.bnot(self.truthy(ca.kids[0]))
            return self.sign("gt0", self.padd(self.topoly(cb), self.topoly(ca), -1))
        if d == "<=":
            if is_len(cb) and const_of(ca) == 1:
                return self.truthy(cb.kids[0])
            if is_len(ca) and const_of(cb) == 0:
                return self.bnot(self.truthy(ca.kids[0]))
            return self.sign("ge0", self.padd(self.topoly(cb), self.topoly(ca), -1))
        raise AssertionError(d)

    def instance(self, x, y):
        if x.kind == "dd":
            return self.node(x.kids[0], self.instance(x.kids[1], y), self.instance(x.kids[2], y))
        if x is NONE and not any(z in str(y) for z in ("NoneType", "object")):
            return FALSE
        own, cls = class_of(x), class_name(y)
        if own is not None and cls in APART:
            if cls in own:
                return TRUE if len(own) == 1 else self.atom(T("f", (x, y), ("isinstance", ())))
            return FALSE
        return self.atom(T("f", (x, y), ("isinstance", ())))

    def equal(self, ca, cb):
        if ca is cb:
            return TRUE
        na, nb = const_of(ca), const_of(cb)
        if na is not None and nb is not None:
            return TRUE if na == nb else FALSE
        for x, y in ((ca, cb), (cb, ca)):
            if is_len(x) and const_of(y) == 0:
                return self.bnot(self.truthy(x.kids[0]))
            if y.kind == "slice" and all(k is NONE or const_of(k) is not None for k in y.kids):
                parts = zip(y.kids, ("start", "stop", "step"))
                return self.band([self.instance(x, SLICE), *(self.isnone(z) if k is NONE else self.equal(z, k) for k, n in parts for z in [self.attr(x, n)])])
        if ca.kind == "const" and cb.kind == "const" and type(ca.data) is type(cb.data):
            return TRUE if ca.data == cb.data else FALSE
        if self.numeric(ca) or self.numeric(cb):
            return self.sign("eq0", self.padd(self.topoly(cb), self.topoly(ca), -1))
        return self.atom(T("f", tuple(sorted((ca, cb), key=key)), ("==", ())))

    def attr(self, b, name):
        if b.kind == "slice" and name in ("start", "stop", "step"):
            return b.kids[("start", "stop", "step").index(name)]
        return T("attr", (b,), name)

    def isnone(self, o):
        if o is NONE:
            return TRUE
        if o.kind == "dd":
            c, x, y = o.kids
            if c.kind == "f" and c.data == ("in", ()) and x is T("sub", (c.kids[1], c.kids[0])) and y is NONE:
                return self.bnot(self.atom(c))  # mappings hold no None
            return self.ite(self.atom(c), self.isnone(x), self.isnone(y))
        if o.kind in ("seq", "map", "poly", "fstr", "concat", "map_over", "const", "mapcat", "rep", "new", "func", "cls", "lib", "matmul", "range"):
            return FALSE
        return self.atom(T("f", tuple(sorted((NONE, o), key=key)), ("is", ())))

    def member(self, x, xs):
        if xs.kind == "map" and x.kind == "const" and all(z.kind == "const" for z in xs.kids[::2]):
            return TRUE if x in xs.kids[::2] else FALSE
        if xs.kind == "f" and xs.data in (("keys", ()), ("list", ()), ("set", ()), ("sorted", ())) and len(xs.kids) == 1:
            return self.member(x, xs.kids[0])
        if xs.kind in ("seq", "set") and (len(xs.kids) <= 8 or x.kind == "const" and all(z.kind == "const" for z in xs.kids)):
            return self.bor([self.equal(x, z) for z in xs.kids])
        return self.atom(T("f", (x, xs), ("in", ())))

    def numeric(self, t):
        return t.kind == "poly" or is_len(t)

    def sign(self, how, p):
        if not p:
            return FALSE if how == "gt0" else TRUE
        if set(p) == {()}:
            v = p[()]
            return TRUE if (v > 0 if how == "gt0" else v >= 0 if how == "ge0" else v == 0) else FALSE
        tot = {m: c for m, c in p.items() if m}
        if tot and all(len(m) == 1 and m[0][1] == 1 and is_len(m[0][0]) for m in tot) and len({c > 0 for c in tot.values()}) == 1:
            up, c0 = next(iter(tot.values())) > 0, p.get((), 0)
            some = lambda: self.bor([self.truthy(m[0][0].kids[0]) for m in tot])
            if c0 == 0 and how == "eq0":
                return self.bnot(some())
            if c0 == 0:
                return (some() if how == "gt0" else TRUE) if up else (FALSE if how == "gt0" else self.bnot(some()))
            if how == "ge0" and up and c0 == -1 and all(c >= 1 for c in tot.values()):
                return some()
            if how == "gt0" and not up and c0 == 1 and all(c <= -1 for c in tot.values()):
                return self.bnot(some())
        if how != "eq0":
            m = next((m for m in p if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "f" and m[0][0].data == ("abs", ()) and sum(m[0][0] is a for q in p for a, _ in q) == 1), None)
            if m is not None:
                c, x = p[m], self.topoly(m[0][0].kids[0])
                rest = {q: k for q, k in p.items() if q != m}
                ways = [self.sign(how, self.padd(rest, x, s * abs(c))) for s in (1, -1)]
                return (self.bor if c > 0 else self.band)(ways)
        ms = sorted((m for m in p if m), key=mono_key)
        lead = p[ms[-1]]
        flip = lead < 0
        q = {m: c / abs(lead) * (-1 if flip else 1) for m, c in p.items()}
        t = self.mkpoly(q)
        if how == "eq0":
            return self.atom(T("f", (t,), ("eq0", ())))
        if not flip:
            return self.atom(T("f", (t,), (how, ())))
        return self.bnot(self.atom(T("f", (t,), ("ge0" if how == "gt0" else "gt0", ()))))

    def exists(self, t):
        cond, its = t.kids[0], t.kids[1:]
        c = self.b(cond)
        if c is FALSE:
            return FALSE
        its = self.iters(its)
        return self.atom(T("exists", (c, *its)))

    def c_phi(self, t):
        c, x, y = t.kids
        cb = self.b(c)
        if cb is TRUE:
            return self(x)
        if cb is FALSE:
            return self(y)
        if is_boolish(c):
            x, y = assume(x, {c: True}), assume(y, {c: False})
        return self.ite(cb, self.v(self(x)), self.v(self(y)))

    def v(self, c):
        return c

    # ------------------------------------------------------------- operators
    def c_op(self, t):
        d, ks = t.data, t.kids
        if d in ("not", "bool", "==", "<", "<=", "is", "in", "exists"):
            return self.b(t)
        if d in ("and", "or"):
            if all(is_boolish(x) for x in ks[:-1]) and is_boolish(ks[-1]):
                return self.b(t)
            r = self(ks[-1])
            for x in reversed(ks[:-1]):
                bx = self.b(x)
                r = self.ite(bx, self(x), r) if d == "or" else self.ite(bx, r, self(x))
            return r
        if d in ("&", "|", "invert") and all(is_boolish(x) for x in ks):
            return self.b(t)
        if d in ("+", "-", "*", "/", "**", "neg"):
            return self.arith(d, self.cs(ks))
        if d == "@":
            return self.matmul(self.cs(ks))
        if d in ("&", "|") and any(is_bool(x) for x in self.cs(ks)):
            return (self.band if d == "&" else self.bor)([self.truthy(x) for x in self.cs(ks)])
        if d == "|":
            a, b = self.cs(ks)
            if a.kind == "cls" or a.kind == "lib":
                return T("seq", tuple(sorted(set(self.cs(ks)), key=key)), "types")
            if a.kind in ("map", "dict") or b.kind in ("map", "dict") or True:
                return self.merge_maps([a, b])
        if isinstance(d, str) and d.startswith("except:"):
            d = ":".join(d.split(":")[:2])
        nk = self.cs(ks)
        return T("op", nk, d)

    def merge_maps(self, ks):
        parts = []
        for k in ks:
            parts += list(k.kids) if k.kind == "mapcat" else [k]
        out = []
        for x in parts:
            if x.kind == "map" and not x.kids:
                continue
            if out and out[-1].kind == "map" and x.kind == "map":
                d = dict(zip(out[-1].kids[::2], out[-1].kids[1::2]))
                d.update(zip(x.kids[::2], x.kids[1::2]))
                out[-1] = self.mkmap(d)
            else:
                out.append(x)
        if not out:
            return T("map")
        return out[0] if len(out) == 1 else T("mapcat", out)

    def mkmap(self, d):
        items = sorted(d.items(), key=lambda kv: key(kv[0]))
        return T("map", [z for kv in items for z in kv])

    def c_dict(self, t):
        parts, cur = [], {}
        for i in range(0, len(t.kids), 2):
            k, v = t.kids[i], t.kids[i + 1]
            if k.kind == "dstar":
                if cur:
                    parts.append(self.mkmap(cur))
                    cur = {}
                parts.append(self(v))
            else:
                cur[self(k)] = self(v)
        if cur or not parts:
            parts.append(self.mkmap(cur))
        return self.merge_maps(parts)

    # ------------------------------------------------------------- sequences
    def is_seq(self, k):
        return k.kind in ("seq", "concat", "rep") or (k.kind == "map_over" and k.data == "seq") or k.kind == "fstr" or (k.kind == "const" and isinstance(k.data, str))

    def seq(self, ks):
        if any(k.kind == "star" for k in ks):
            parts, cur = [], []
            for k in ks:
                if k.kind == "star":
                    if cur:
                        parts.append(T("seq", cur))
                        cur = []
                    parts.append(k.kids[0])
                else:
                    cur.append(k)
            if cur:
                parts.append(T("seq", cur))
            return self.concat(parts)
        return T("seq", ks)

    def text(self, ks):
        """A piece of text made of literal parts and values put in as `str` would."""
        parts = []
        for k in ks:
            if k.kind == "f" and k.data == ("str", ()) and len(k.kids) == 1:
                k = k.kids[0]
            sub = k.kids if k.kind == "fstr" else (k,)
            for x in sub:
                if x.kind == "poly" and const_of(x) is not None and const_of(x).denominator == 1:
                    x = const(str(const_of(x)))
                elif x.kind == "const" and not isinstance(x.data, str):
                    x = const(str(x.data))
                if parts and x.kind == "const" and parts[-1].kind == "const":
                    parts[-1] = const(parts[-1].data + x.data)
                else:
                    parts.append(x)
        parts = [x for x in parts if not (x.kind == "const" and x.data == "")]
        if not parts:
            return const("")
        return parts[0] if len(parts) == 1 and parts[0].kind == "const" else T("fstr", parts)

    def concat(self, ks):
        parts = []
        for k in ks:
            parts += list(k.kids) if k.kind == "concat" else [k]
        out = []
        for x in parts:
            if x.kind == "seq" and not x.kids:
                continue
            if out and out[-1].kind == "seq" and x.kind == "seq":
                out[-1] = T("seq", out[-1].kids + x.kids)
            else:
                out.append(x)
        if not out:
            return T("seq")
        return out[0] if len(out) == 1 else T("concat", out)

    def c_iter(self, it):
        return self(it)

    def elem(self, it):
        if it.kind == "f":
            n, a = it.data[0], it.kids
            if n == "enumerate" and a:
                i = self.idx(a[0])
                if len(a) == 2:
                    i = self.arith("+", [i, a[1]])
                return T("seq", (i, self.elem(a[0])))
            if n == "zip" and a and not it.data[1]:
                return T("seq", tuple(self.elem(x) for x in a))
            if n == "zip" and a:
                pos = a[: len(a) - len(it.data[1])]
                return T("seq", tuple(self.elem(x) for x in pos))
            if n == "range" and len(a) == 1:
                if is_len(a[0]):
                    return self.idx(a[0].kids[0])
            if n == "items" and len(a) == 1:
                return T("seq", (T("elem", a), self.c_sub(a[0], T("elem", a))))
            if n == "keys" and len(a) == 1:
                return T("elem", a)
            if n == "values" and len(a) == 1:
                return self.c_sub(a[0], T("elem", a))
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.elem(a[0])
            if n in ("cumsum", "accumulate") and len(a) == 1 and not it.data[1]:
                return self.arith("+", [self.prefix(a[0], None), self.elem(a[0])])
        if it.kind == "map_over" and it.data == "seq" and it.kids[1] is TRUE:
            return it.kids[0]
        return T("elem", (it,))

    def idx(self, xs):
        """Position of the current element of `xs`."""
        b = self.base_iters(xs)
        return T("idx", (b[0] if len(b) == 1 else xs,))

    def prefix(self, xs, at):
        """Sum of the elements of `xs` before the current one."""
        return T("f", (T("sub", (xs, T("slice", (NONE, self.idx(xs), NONE)))),), ("sum", ()))

    def base_iters(self, it):
        if it.kind == "f":
            n, a = it.data[0], it.kids
            if n in ("enumerate", "items", "keys", "values", "list", "tuple", "iter", "cumsum", "accumulate") and a:
                return self.base_iters(a[0])
            if n == "zip":
                pos = a[: len(a) - len(it.data[1])]
                return tuple(y for x in pos for y in self.base_iters(x))
            if n == "range" and len(a) == 1 and is_len(a[0]):
                return self.base_iters(a[0].kids[0])
        if it.kind == "map_over" and it.data == "seq" and it.kids[1] is TRUE:
            return it.kids[2:]
        return (it,)

    def iters(self, its, canonical=False):
        s = []
        for x in its:
            for y in self.base_iters(x if canonical else self(x)):
                if y not in s:
                    s.append(y)
        return tuple(sorted(s, key=key))

    def c_comp(self, t):
        kind, n = t.data[0], t.data[1]
        elt, its, conds = t.kids[0], t.kids[1 : 1 + n], t.kids[1 + n :]
        for i, it in enumerate(its):
            if it.kind == "phi":
                return self(T("phi", (it.kids[0], *(over(t, i, x) for x in it.kids[1:]))))
        if n == 1 and kind in ("list", "gen") and not conds and its[0].kind in ("list", "tuple") and len(its[0].kids) <= 8 and not any(x.kind == "star" for x in its[0].kids):
            el = [x for x in elt.walk() if x.kind == "elem" and x.kids[0] is its[0]]
            return self.seq(self.cs([subst(elt, {e: x for e in el}) for x in its[0].kids]))
        c = self.band([self.b(x) for x in conds])
        how = {"gen": "seq", "list": "seq", "tuple": "seq", "set": "set", "dict": "dict"}.get(kind, kind)
        e = self(elt)
        bi = self.iters(its) if n == 1 else tuple(g.kids[0] if len(g.kids) == 1 else g for g in (T("grp", self.iters((x,))) for x in its))
        if how == "seq" and c is TRUE and len(bi) == 1 and e is T("elem", (bi[0],)):
            return T("f", bi, ("list", ()))
        return T("map_over", (e, c, *bi), how)

    def c_mu(self, t):
        """A loop variable: its value before the loop, after one more round, and the loop variables that round reads."""
        if t.data == "in":
            return T("mu", self.cs(t.kids), "in")
        ph = T("mu", t.kids[:1], t.data)
        if len(t.kids) == 2 or ph in self.loopvars:
            a = t.kids[0]
            b = t.kids[1] if len(t.kids) == 2 else self.loopvars[ph]
            group, todo = {ph: b}, [b]
            while todo:
                for x in todo.pop().walk():
                    if x.kind == "mu" and len(x.kids) == 1 and x not in group and x in self.loopvars and x.data[0] == t.data[0]:
                        group[x] = self.loopvars[x]
                        todo.append(group[x])
            m = {x: T("mu", x.kids, "in") for x in group}
            others = sorted((T("seq", (self(x.kids[0]), self(subst(y, m)))) for x, y in group.items() if x is not ph), key=key)
            pa, pb = self(a), self(subst(b, m))
            sr = self(m[ph])
            p = self.topoly(pb)
            m = ((sr, Fraction(1)),)
            if p.get(m) == 1:
                rest = {k: v for k, v in p.items() if k != m}
                rt = self.mkpoly(rest)
                if not any(x is sr for x in rt.walk()):
                    its = sorted({x.kids[0] for x in rt.walk() if x.kind in ("elem", "idx")}, key=key)
                    if its:
                        xs = its[0] if len(its) == 1 and rt is T("elem", its) else T("map_over", (rt, TRUE, *its), "seq")
                        if len(t.kids) == 2:
                            return self.arith("+", [pa, T("f", (xs,), ("sum", ()))])
                        return self.arith("+", [pa, self.prefix(xs, None)])
            return T("mu", (pa, pb, *others), "loop" if len(t.kids) == 2 else "round")
        return T("mu", self.cs(t.kids), "in")

    def c_mut(self, t):
        m = t.data[0]
        a = self(t.kids[0])
        xs = self.cs(t.kids[1:])
        if m == "append" and len(xs) == 1:
            return self.concat([a, T("seq", xs)])
        if m == "extend" and len(xs) == 1:
            return self.concat([a, as_list(xs[0])])
        if m == "setitem" and len(xs) == 2:
            return self.merge_maps([a, T("map", xs)])
        if m == "update" and len(xs) == 1:
            return self.merge_maps([a, xs[0]])
        if m == "pop" and len(xs) == 2 and t.data[1] == ():
            return self.ite(self.member(xs[0], a), T("mut", (a, xs[0]), t.data), a)
        if m == "__delitem__" and len(xs) == 1:
            return T("mut", (a, *xs), ("pop", ()))
        if m == "pop" and (not xs or const_of(xs[0]) in (0, -1)):
            return self.c_sub(a, T("slice", (self.num(const(1)), NONE, NONE) if xs and const_of(xs[0]) == 0 else (NONE, self.num(const(-1)), NONE)))
        return T("mut", (a, *xs), t.data)

    def c_sub(self, b, i):
        n = const_of(i)
        if n is not None or i.kind == "slice":
            b = as_list(b)
        if b.kind == "seq" and n is not None and n.denominator == 1 and -len(b.kids) <= n < len(b.kids):
            return b.kids[int(n)]
        if b.kind == "map" and (i.kind in ("const",)):
            d = dict(zip(b.kids[::2], b.kids[1::2]))
            if i in d:
                return d[i]
        if i.kind == "idx" and self.idx(b) is i:
            return self.elem(b)
        if n is not None and n.denominator == 1 and b.kind in ("dd", "concat"):
            r = self.item(b, int(n))
            if r is not None:
                return r
        if b.kind == "mut" and b.data[0] == "pop" and len(b.kids) == 2 and const_of(b.kids[1]) is None and i.kind != "slice":
            return self.c_sub(b.kids[0], i)  # another entry of a mapping
        if b.kind == "sub" and b.kids[1].kind == "slice" and b.kids[1].kids[2] is NONE:
            r = self.resliced(b.kids[0], *b.kids[1].kids[:2], i, n)
            if r is not None:
                return r
        if i.kind == "slice":
            lo, hi, st = i.kids
            if st is NONE or const_of(st) == 1:
                st = NONE
                if const_of(lo) == 0:
                    lo = NONE
                if is_len(hi) and hi.kids[0] is b:
                    hi = NONE
                if b.kind == "seq" and all(x is NONE or const_of(x) is not None for x in (lo, hi)):
                    return T("seq", b.kids[slice(*(None if x is NONE else int(const_of(x)) for x in (lo, hi)))])
                if lo is NONE and hi.kind == "poly" and not any(x.kind == "poly" for x in hi.kids):
                    pass
            i = T("slice", (lo, hi, st))
        parts = list(i.kids) if i.kind in ("seq", "concat") else []
        if parts:
            if i.kind == "seq":
                parts = [T("seq", (x,)) for x in parts]
            full = lambda x: x.kind == "seq" and len(x.kids) == 1 and full_slice(x.kids[0]) or x.kind == "map_over" and full_slice(x.kids[0])
            while len(parts) > 1 and full(parts[-1]):
                parts.pop()
            if len(parts) < len(i.kids):
                i = self.concat(parts)
            if i.kind == "seq" and len(i.kids) == 1 and const_of(i.kids[0]) is not None:
                i = i.kids[0]
        ax = newaxis(i)
        if ax is not None:
            return T("f", (b, self.num(const(ax))), ("expand_dims", ("axis",)))
        if b.kind == "elem" and b.kids[0].kind == "map_over":
            pass
        return T("sub", (b, i))

    def resliced(self, x, lo, hi, i, n):
        """`x[lo:hi][i]` in terms of `x`, for a position or part that is there."""
        a = Fraction(0) if lo is NONE else const_of(lo)
        z = None if hi is NONE else const_of(hi)
        if n is not None and n.denominator == 1:
            if a is not None and a >= 0:
                if n >= 0 and (hi is NONE or z is not None and (z < 0 or a + n < z)):
                    return self.c_sub(x, self.num(const(int(a + n))))
                if n < 0 and (hi is NONE or z is not None and z < 0):
                    return self.c_sub(x, self.num(const(int(n + (z or 0)))))
            elif n >= 0 and self.sized(lo):
                w = None if hi is NONE else const_of(self.arith("-", [hi, lo]))
                if hi is NONE or w is not None and n < w:
                    return self.c_sub(x, self.arith("+", [lo, self.num(const(int(n)))]))
        if i.kind == "slice" and i.kids[2] is NONE and hi is NONE and a is not None and a >= 0:
            b, c = (None if y is NONE else const_of(y) for y in i.kids[:2])
            if (i.kids[0] is NONE or b is not None and b >= 0) and (i.kids[1] is NONE or c is not None and c >= 0):
                return self.c_sub(x, T("slice", (self.num(const(int(a + (b or 0)))), NONE if c is None else self.num(const(int(a + c))), NONE)))
        return None

    def sized(self, t):
        """A count, up to a number added."""
        p = self.topoly(t)
        return all(k >= 0 and (not m or all(is_len(a) for a, e in m)) for m, k in p.items())

    def count(self, b):
        """Length of a list all of whose items are written out."""
        if b.kind == "seq":
            return len(b.kids)
        if b.kind == "dd":
            n = self.count(b.kids[1])
            return n if n is not None and n == self.count(b.kids[2]) else None
        if b.kind == "concat":
            ns = [self.count(x) for x in b.kids]
            return None if None in ns else sum(ns)
        return None

    def item(self, b, n):
        if b.kind == "seq":
            return b.kids[n] if -len(b.kids) <= n < len(b.kids) else None
        if b.kind == "dd":
            x, y = self.item(b.kids[1], n), self.item(b.kids[2], n)
            return None if x is None or y is None else self.ite(self.atom(b.kids[0]), x, y)
        if b.kind == "concat":
            for x in b.kids if n >= 0 else reversed(b.kids):
                k = self.count(x)
                if k is None:
                    return None
                if n >= 0 and n < k or n < 0 and -n <= k:
                    return self.item(x, n)
                n += -k if n >= 0 else k
        return None

    # ------------------------------------------------------------- calls
    def fname_term(self, fn):
        d = dotted(fn)
        root = d.split(".")[0]
        if root in LIBS:
            return T("lib", (), d.rsplit(".", 1)[-1])
        e = extname(d)
        if e != d:
            return T("glob", (), e)
        if fn.kind == "attr" and root_of(fn).kind != "glob":
            return T("attr", (self(fn.kids[0]),), fn.data)
        return fn

    def c_call(self, t):
        fn, args, kw = call_parts(t)
        if fn.kind == "glob" and fn.data.startswith("pytensor.") and fn.data.rsplit(".", 1)[-1] in ("scan", "map", "scan_map"):
            r = self.c_scan(fn.data.rsplit(".", 1)[-1], args, kw)
            if r is not None:
                return r
        method = False
        if fn.kind == "attr" and root_of(fn).kind not in ("glob",):
            name, args, method = fn.data, (fn.kids[0], *args), True
        elif fn.kind == "glob":
            d = dotted(fn)
            root = d.split(".")[0]
            name = d.rsplit(".", 1)[-1] if (root in LIBS or "." not in d or d.startswith("pymc.math.")) else extname(d)
        elif fn.kind == "attr":
            d = dotted(fn)
            root = d.split(".")[0]
            name = d.rsplit(".", 1)[-1] if root in LIBS else d
            if root not in LIBS and fn.kids[0].kind == "glob":
                name = extname(d)
        else:
            f = self(fn)
            return self.fcall(f, self.cs(args), {k: self(v) for k, v in kw.items()})
        kw = {k: v for k, v in kw.items() if k not in self.drop_kw}
        if name in ("isinstance", "bool", "and_", "or_", "logical_and", "logical_or") and len(args) >= 1 and not kw:
            if name == "bool" or name == "isinstance" or all(is_boolish(a) for a in args):
                return self.b(t)
        name = RENAME.get(name, name)
        if name == "copy" and method and len(args) == 1:
            return self(args[0])
        if name in self.ident and args:
            return self(args[0])
        a = list(self.cs(args))
        k = {n: self(v) for n, v in kw.items()}
        if name in (">", ">=", "<", "<=", "==", "!=") and len(a) == 2:
            x, y = args
            if name in (">", ">="):
                x, y = y, x
            if name == "!=":
                return self.bnot(self.cmp("==", x, y))
            return self.cmp({">": "<", ">=": "<=", "<": "<", "<=": "<=", "==": "=="}[name], x, y)
        if name == "switch" and len(a) == 3 and not k:
            c = self.b(args[0])
            return self.ite(c, a[1], a[2])
        return self.named(name, a, k, method)

    def named(self, name, a, k, method=False):
        """Application of a function, operator or method with a name, on canonical arguments."""
        if name in ("+", "*") and len(a) >= 2 or name in ("-", "/", "**") and len(a) == 2 or name == "neg" and len(a) == 1:
            if not k:
                return self.arith(name, a)
        if name == "sq" and len(a) == 1:
            return self.arith("**", [a[0], self.num(const(2))])
        if name == "sqrt" and len(a) == 1:
            return self.mkpoly(self.ppow(self.topoly(a[0]), Fraction(1, 2)))
        if name == "reciprocal" and len(a) == 1:
            return self.mkpoly(self.ppow(self.topoly(a[0]), Fraction(-1)))
        if name == "@" and len(a) >= 2 and not k:
            return self.matmul(a)
        if name == "transpose" and len(a) == 1 and not k:
            return self.transpose(a[0])
        return self.fnorm(name, a, k, method)

    def fnorm(self, name, a, k, method=False):
        """Function application on canonical arguments."""
        a, k = list(a), dict(k)
        if name == "slice" and 1 <= len(a) <= 3 and not k and not method:
            return T("slice", (NONE, *a, NONE) if len(a) == 1 else (*a, NONE)[:3])
        if name in ("and", "or") and len(a) >= 2 and not k and any(is_bool(x) for x in a):
            return (self.band if name == "and" else self.bor)([self.truthy(x) for x in a])
        if name in ("bitwise_not", "invert", "not") and len(a) == 1 and not k and is_bool(a[0]):
            return self.bnot(a[0])
        if name in ("set", "inc") and method and len(a) == 2 and a[0].kind == "sub":
            name, method = name + "_subtensor", False
        if name in SEQCAST and len(a) == 1 and not k:
            if a[0].kind in ("seq", "concat", "map_over", "rep"):
                return a[0] if not (a[0].kind == "map_over" and a[0].data != "seq") else T("f", a, (name, ()))
            if a[0].kind == "sub" and a[0].kids[1].kind == "slice":
                return a[0]
            return T("f", a, ("list", ()))
        if name in SEQCAST and not a:
            return T("seq")
        if name == "sum" and len(a) == 2 and not k and a[1].kind == "poly" and not method:
            pass
        if name == "dict" and not method:
            if not a:
                return self.mkmap({const(n): v for n, v in k.items()})
            if len(a) == 1:
                base = a[0]
                if base.kind == "f" and base.data[0] == "zip" and len(base.kids) == 2:
                    e = self.elem(base)
                    base = T("map_over", (e, TRUE, *self.base_sorted(base)), "dict")
                if base.kind == "map_over" and base.data == "seq":
                    base = T("map_over", base.kids, "dict")
                if k:
                    return self.merge_maps([base, self.mkmap({const(n): v for n, v in k.items()})])
                return base
        if name in ("pop", "__getitem__") and method and len(a) == 2 and not k:
            return self.c_sub(a[0], a[1])
        if name in ("get", "pop") and method and len(a) in (2, 3) and not k:
            has = self.member(a[1], a[0])
            return self.ite(has, self.c_sub(a[0], a[1]), a[2] if len(a) == 3 else NONE)
        if name == "len" and len(a) == 1 and not k and not method:
            if a[0].kind in ("seq", "map"):
                return self.num(const(len(a[0].kids) // (2 if a[0].kind == "map" else 1)))
            if a[0].kind == "concat":
                return self.arith("+", [self.fnorm("len", [x], {}) for x in a[0].kids])
            if a[0].kind == "dd" and all(x.kind in ("seq", "dd") for x in a[0].kids[1:]):
                return self.ite(self.atom(a[0].kids[0]), *(self.fnorm("len", [x], {}) for x in a[0].kids[1:]))
            if a[0].kind == "map_over" and a[0].data == "seq" and a[0].kids[1] is not TRUE and a[0].kids[0] is not TRUE:
                a = [T("map_over", (TRUE, *a[0].kids[1:]), "seq")]
        if name == "sum" and len(a) == 1 and not k and not method:
            if a[0].kind == "seq" and a[0].kids and all(is_bool(x) or const_of(x) is not None for x in a[0].kids):
                return self.arith("+", [self.ite(x, self.num(const(1)), self.num(const(0))) if is_bool(x) else x for x in a[0].kids])
            if a[0].kind == "map_over" and a[0].data == "seq" and is_bool(a[0].kids[0]):
                x = a[0]
                return self.fnorm("len", [T("map_over", (TRUE, self.band([x.kids[0], x.kids[1]]), *x.kids[2:]), "seq")], {})
        if name == "str" and not method and len(a) == 1 and not k:
            return self.text(a)
        if name == "format" and method and a and a[0].kind == "const" and isinstance(a[0].data, str) and not k:
            bits = a[0].data.split("{}")
            if len(bits) == len(a) and not any(c in "".join(bits) for c in "{}"):
                return self.text([y for x in zip(map(const, bits), a[1:] + [const("")]) for y in x])
        if name == "reversed" and not method and len(a) == 1:
            return self.c_sub(a[0].kids[0] if a[0].kind == "f" and a[0].data == ("list", ()) else a[0], T("slice", (NONE, NONE, self.num(const(-1)))))
        if name == "range" and len(a) == 2 and not k and const_of(a[0]) == 0:
            a = a[1:]
        if name == "sum" and len(a) == 1 and not k and a[0].kind == "sub" and a[0].kids[1].kind == "slice":
            xs, (lo, hi, st) = a[0].kids[0], a[0].kids[1].kids
            at = self.idx(xs)
            if lo is NONE and st is NONE and hi is self.arith("+", [at, self.num(const(1))]):
                return self.arith("+", [self.prefix(xs, None), self.elem(xs)])
        if name in ("shape_padleft", "shape_padright") and len(a) == 1 and not k:
            a, k, name = a[:1], {"axis": self.num(const(0 if name == "shape_padleft" else -1))}, "expand_dims"
        if name in ("sum", "any", "all", "max", "min", "set", "sorted", "zip", "enumerate", "len", "reversed") and not method:
            a = [x.kids[0] if x.kind == "f" and x.data == ("list", ()) and len(x.kids) == 1 else x for x in a]
        sig = self.sigs.get(name)
        if sig:
            pos = []
            for i, x in enumerate(a):
                if i < len(sig) and not sig[i].isdigit():
                    if sig[i] in k:
                        pos.append(x)
                    else:
                        k[sig[i]] = x
                else:
                    pos.append(x)
            a = pos
            if k.get("axis") is NONE:
                k.pop("axis")
            ax = k.get("axis")
            if name in ("expand_dims", "squeeze") and ax is not None and ax.kind == "seq" and len(ax.kids) == 1:
                k["axis"] = ax.kids[0]
        return self.fcall(name, tuple(a), k)

    def c_scan(self, how, args, kw):
        """Recurrence in a form that does not depend on argument order, closures or parameter names:
        step(X) reads each(X) for a sequence and prev(init) for a carried value."""
        names = ("fn", "sequences", "outputs_info", "non_sequences", "n_steps") if how == "scan" else ("fn", "sequences", "non_sequences")
        d = dict(zip(names, args))
        d.update(kw)
        f = d.get("fn")
        if f is None or f.kind not in ("func", "bound") or f.data not in self.lams and not (f.kind == "bound" and f.kids[1].data in self.lams):
            return None
        body, lv = self.lams[f.data if f.data in self.lams else f.kids[1].data]

        def lst(x):
            if x is None or x is NONE:
                return ()
            return x.kids if x.kind in ("list", "tuple") else (x,)

        seqs, infos, nons = lst(d.get("sequences")), lst(d.get("outputs_info")), lst(d.get("non_sequences"))
        if any(x.kind in ("star", "dict") for x in (*seqs, *infos)):
            return None
        rep, i = [], 0
        for x in seqs:
            rep.append(T("sub", (x, T("sym", (), "λt"))))
        for x in infos:
            if x is not NONE:
                rep.append(T("prev", (x,)))
        ns = [x.kids[0] if x.kind == "star" else x for x in nons]
        m = {}
        for i, x in enumerate(rep):
            m[T("sym", (), f"λ{lv}.{i}")] = x
        for j, x in enumerate(nons):
            if x.kind == "star":
                break
            m[T("sym", (), f"λ{lv}.{len(rep) + j}")] = x
        for x in list(body.walk()):
            if x.kind == "sym" and str(x.data).startswith(f"λ{lv}.*"):
                off = int(str(x.data).split("*")[1])
                m[x] = T("tuple", (rep + list(nons))[off:])
        b = self(subst(body, m))
        outs = list(b.kids) if b.kind == "seq" else [b]
        upd = NONE
        # (outputs, updates) convention
        if b.kind == "seq" and len(outs) == 2 and (outs[1].kind in ("map", "map_over", "mapcat")):
            upd = outs[1]
            outs = list(outs[0].kids) if outs[0].kind == "seq" else [outs[0]]
        ci = [self(x) for x in infos]
        while len(ci) < len(outs):
            ci.append(NONE)
        pairs = sorted({T("seq", (a, o)) for a, o in zip(ci, outs) if a is not NONE}, key=key)
        ext = tuple(T("seq", (const(k), self(v))) for k, v in sorted(d.items()) if k in ("n_steps", "go_backwards") and v is not NONE)
        sq = tuple(sorted({self(x) for x in seqs}, key=key))
        mk = lambda i: T("scanout", (outs[i], ci[i], T("seq", pairs), T("seq", sq), *ext))
        o = mk(0) if len(outs) == 1 else T("seq", tuple(mk(i) for i in range(len(outs))))
        return T("seq", (o, T("scanupd", (o, upd))))

    def base_sorted(self, it):
        return tuple(sorted(dict.fromkeys(self.base_iters(it)), key=key))

    # ------------------------------------------------------------- canonical terms again, after a replacement
    def again(self, t, m, conds):
        """Canonical `t` with its parts replaced as `m` says and conditions known as `conds` says, in canonical form."""
        memo = dict(m)
        loose = {y for x in (*m, *conds) for y in x.walk() if y.kind in ("elem", "idx")}

        def go(t):
            r = memo.get(t)
            if r is None and loose and t.kind in BINDERS:
                own = {x for x in loose if bound_in(x, t)}
                if own:
                    # what is known of one item is not known of all of them
                    free = lambda x: not any(y in own for y in x.walk())
                    m2, c2 = {k: v for k, v in m.items() if free(k)}, {k: v for k, v in conds.items() if free(k)}
                    r = memo[t] = self.again(t, m2, c2) if m2 or c2 else t
                    return r
            if r is None:
                while t.kind == "dd" and t.kids[0] in conds:
                    t = t.kids[1 if conds[t.kids[0]] else 2]
                r = memo.get(t)
                if r is None:
                    if t.kind in ("map_over", "concat") and any(conds.get(x) is False for x in t.kids):
                        # what is iterated over is a collection: an empty one
                        r = T(t.kind, tuple(EMPTY if conds.get(x) is False else x for x in t.kids), t.data)
                        r = memo[t] = EMPTY if t.kind == "map_over" and t.data in ("seq", None) else self.rebuilt(r, go)
                    else:
                        r = memo[t] = self.rebuilt(t, go) if t.kids else t
            return r

        return go(t)

    def rebuilt(self, t, go):
        k = t.kind
        if k == "dd":
            return self.ite(self.truthy(go(t.kids[0])), go(t.kids[1]), go(t.kids[2]))
        nk = tuple(go(x) for x in t.kids)
        if nk == t.kids:
            return t
        if k == "exists" and self.truthy(nk[0]) is FALSE:
            return FALSE
        if k == "poly":
            out, i = {}, 0
            for (cn, cd), row in t.data:
                term = {(): Fraction(cn, cd)}
                for en, ed in row:
                    term = self.pmul(term, self.ppow(self.topoly(nk[i]), Fraction(en, ed)))
                    i += 1
                out = self.padd(out, term)
            if any(self.is_seq(x) for x in nk) and all(c == ((1, 1), ((1, 1),)) for c in t.data):
                return self.arith("+", list(nk))
            return self.mkpoly(out)
        if k == "matmul":
            return self.matmul(nk)
        if k == "transpose":
            return self.transpose(nk[0])
        if k == "sub":
            return self.c_sub(*nk)
        if k == "attr":
            return self.attr(nk[0], t.data)
        if k == "app":
            n, names = t.data
            return self.fcall(nk[0], nk[1:n + 1], dict(zip(names, nk[n + 1:])))
        if k == "elem":
            return self.elem(nk[0])
        if k == "star":
            return T("star", (as_list(nk[0]),))
        if k == "concat":
            return self.concat(nk)
        if k == "map_over" and EMPTY in nk[2:] and t.data in ("seq", None):
            return EMPTY
        if k == "fstr":
            return self.text(nk)
        if k == "mapcat":
            return self.merge_maps(nk)
        if k == "map":
            return self.mkmap(dict(zip(nk[::2], nk[1::2])))
        if k == "f":
            name, names = t.data
            if name in ("gt0", "ge0", "eq0"):
                return self.sign(name, self.topoly(nk[0]))
            if name == "is":
                a, b = nk
                if a is b:
                    return TRUE
                if NONE in nk:
                    return self.isnone(a if b is NONE else b)
                return self.atom(T("f", tuple(sorted(nk, key=key)), t.data))
            if name == "==":
                if all(x.kind == "const" for x in nk):
                    return TRUE if nk[0].data == nk[1].data and type(nk[0].data) is type(nk[1].data) else FALSE
                return self.equal(*nk)
            if name == "in":
                return self.member(*nk)
            if name in ("isinstance",):
                return self.instance(*nk)
            n = len(nk) - len(names)
            return self.fnorm(name, nk[:n], dict(zip(names, nk[n:])))
        return T(k, nk, t.data)

    def given(self, ts, atom, val):
        """Canonical terms where the condition `atom` is known."""
        m = {}
        if val and atom.kind == "f" and atom.data == ("is", ()) and NONE in atom.kids:
            z = atom.kids[0] if atom.kids[1] is NONE else atom.kids[1]
            m[z] = NONE
        elif val and atom.kind == "f" and atom.data == ("==", ()):
            z = [x for x in atom.kids if x.kind in ("const", "slice") or const_of(x) is not None]
            if len(z) == 1:
                m[next(x for x in atom.kids if x is not z[0])] = z[0]
        elif val and atom.kind == "f" and atom.data == ("eq0", ()):
            p = self.topoly(atom.kids[0])
            ms = [x for x in p if x]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                m[ms[0][0][0]] = self.mkpoly({(): -p.get((), Fraction(0)) / p[ms[0]]})
        conds = {atom: val}
        return [self.again(t, m, conds) for t in ts]

    def tell_apart(self, a, b, path=(), budget=None):
        """None: equal in all cases; (conditions, a', b'): a case in which they differ; "?": too many cases.

        Pairs of differing parts are taken one by one, under the conditions they stand under, and split by the
        conditions they hold."""
        budget = budget or Budget()
        unsure = None
        for x, y, ctx in diff_ctx(a, b):
            if budget.over():
                return "?"
            p = (*path, *ctx)
            if not feasible(p):
                continue
            for at, v in ctx:
                x, y = self.given([x, y], at, v)
            if x is y or (ctx or not budget.first) and not diff(x, y):
                continue
            if any(u is EMPTY and (z, False) in p for u, z in ((x, y), (y, x))):
                continue  # something known to be falsy is as good as an empty list
            if NONE in (x, y):
                at = self.isnone(y if x is NONE else x)
                if at.kind == "dd" and at.kids[1] is TRUE and at.kids[2] is FALSE and not feasible((*p, (at.kids[0], False))):
                    continue  # nothing but None can stand here
            atoms = conditions(x) | conditions(y)
            budget.first = False
            if not atoms:
                if (x, y) == (a, b) or not ctx:
                    return p, x, y
                r = self.tell_apart(x, y, p, budget)
                if r is None or r == "?":
                    unsure = r or unsure
                    continue
                return r
            if not budget.spend() or len(p) > 24:
                unsure = "?"
                continue
            at = min(atoms, key=order)
            for v in (False, True) if absent(at) else (True, False):
                q = (*p, (at, v))
                if not feasible(q):
                    continue
                x2, y2 = self.given([x, y], at, v)
                if x2 is x and y2 is y:
                    unsure = "?"
                    continue
                r = self.tell_apart(x2, y2, q, budget)
                if r == "?":
                    unsure = r
                elif r is not None:
                    return r
        return unsure

    def tell_sets_apart(self, xs, ys, path=(), budget=None):
        """The same for lists of (condition, thing that happens): None, "?" or (conditions, [(thing, condition of the
        first, condition of the second)])."""
        budget = budget or Budget()
        only = [{(c, t) for c, t in q if c is not FALSE} for q in (xs, ys)]
        only = [only[0] - only[1], only[1] - only[0]]
        atoms = {z for q in only for c, t in q for z in conditions(t)}
        if atoms:
            if not budget.spend():
                return "?"
            at = min(atoms, key=order)
            unsure = None
            for v in (False, True) if absent(at) else (True, False):
                q = (*path, (at, v))
                if not feasible(q):
                    continue
                sides = []
                for side in only:
                    ts = self.given([z for p in side for z in p], at, v)
                    sides.append([(self.truthy(c), t) for c, t in zip(ts[::2], ts[1::2])])
                if [set(z) for z in sides] == only:
                    unsure = "?"
                    continue
                r = self.tell_sets_apart(*sides, q, budget)
                if r == "?":
                    unsure = r
                elif r is not None:
                    return r
            return unsure
        when = [{}, {}]
        for side, w in zip(only, when):
            for c, t in side:
                w[t] = self.bor([w.get(t, FALSE), c])
        out, unsure = [], None
        for t in dict.fromkeys([*when[0], *when[1]]):
            c, d = (w.get(t, FALSE) for w in when)
            r = self.tell_apart(c, d, path, budget)
            if r == "?":
                unsure = r
            elif r is not None:
                out.append((t, c, d, r[0]))
        return (path, out) if out else unsure

    def fcall(self, name, a, k):
        names = tuple(sorted(k))
        if isinstance(name, T):
            if name.kind == "dd":
                return self.ite(self.atom(name.kids[0]), self.fcall(name.kids[1], a, k), self.fcall(name.kids[2], a, k))
            if name.kind == "attr" and root_of(name).kind != "glob":
                n = RENAME.get(name.data, name.data)
                if n == "copy" and not a or n in self.ident:
                    return name.kids[0]
                return self.named(n, [name.kids[0], *a], {n: v for n, v in k.items() if n not in self.drop_kw}, True)
            return T("app", (name, *a, *(k[n] for n in names)), (len(a), names))
        return T("f", (*a, *(k[n] for n in names)), (name, names))


EXT = ("pymc", "arviz", "xarray", "pandas", "blackjax", "preliz", "statsmodels", "sklearn", "graphviz", "rich")


def extname(d):
    """One name for a library object however deep the module it is imported from."""
    ps = d.split(".")
    if ps[0] in EXT and len(ps) > 2:
        i = 1
        while i < len(ps) - 1 and (ps[i][:1].islower() or ps[i][:1] == "_"):
            i += 1
        return ".".join([ps[0], *ps[i:]])
    return d


class Ident:
    """Stands in for a canonicaliser when the terms are canonical already."""

    def __init__(self):
        self.lams, self.ctors, self.loopvars = {}, {}, {}

    def __call__(self, t):
        return t


def as_list(t):
    """What list(t) holds is what t holds."""
    while t.kind == "f" and t.data == ("list", ()) and len(t.kids) == 1:
        t = t.kids[0]
    return t


def over(t, i, new):
    """comprehension `t` with its i-th iterable replaced"""
    old = t.kids[1 + i]
    m = {x: T("elem", (new,), x.data) for x in t.walk() if x.kind == "elem" and x.kids[0] is old}
    ks = [subst(x, m) for x in t.kids]
    ks[1 + i] = new
    return T("comp", ks, t.data)


_NL: dict = {}
_OCC: dict = {}
_ITE: dict = {}


def occurs(t, z):
    k = (t, z)
    r = _OCC.get(k)
    if r is None:
        r = _OCC[k] = t is z or any(occurs(x, z) for x in t.kids)
    return r


def none_leaf(t, z):
    """`t` under the assumption that `z` is None, at the leaves of conditionals and in argument positions."""
    if t is z:
        return NONE
    if t.kind not in ("dd", "f", "app", "seq", "map"):
        return t
    k = (t, z)
    r = _NL.get(k)
    if r is None:
        r = t
        if occurs(t, z):
            nk = tuple(none_leaf(x, z) if t.kind != "dd" or i else x for i, x in enumerate(t.kids))
            if nk != t.kids:
                r = T(t.kind, nk, t.data)
        _NL[k] = r
    return r


BINDERS = ("map_over", "exists")


def bound_in(x, t):
    """Whether an item is one of those a collection is made from."""
    if t.kind == "mu":
        return occurs(t, x)
    return any(k in t.kids[2 if t.kind == "map_over" else 1:] for k in x.kids)


def cof(d, a, i):
    return d.kids[i] if d.kind == "dd" and d.kids[0] is a else d


def flat_types(t):
    if t.kind in ("tuple", "list"):
        return [y for x in t.kids for y in flat_types(x)]
    if t.kind == "op" and t.data == "|":
        return [y for x in t.kids for y in flat_types(x)]
    return [t]


def is_boolish(t):
    if t.kind == "const":
        return isinstance(t.data, bool)
    if t.kind == "op":
        if t.data in ("not", "bool", "==", "<", "<=", "is", "in", "exists"):
            return True
        if t.data in ("and", "or", "&", "|", "invert"):
            return all(is_boolish(x) for x in t.kids)
    if t.kind == "call":
        n = callee_name(t.kids[0])
        return n in ("isinstance", "bool", "hasattr", "callable", "ge", "gt", "le", "lt", "eq", "neq", "and_", "or_", "all", "any",
                     "isnan", "isnull", "isin", "startswith", "endswith", "equal", "logical_and", "logical_or", "invert")
    if t.kind == "phi":
        return is_boolish(t.kids[1]) and is_boolish(t.kids[2])
    return False


def is_bool(t):
    """A canonical truth value."""
    return t is TRUE or t is FALSE or t.kind == "dd" and is_bool(t.kids[1]) and is_bool(t.kids[2])


# classes no object has two of
APART = {"list", "tuple", "dict", "str", "set", "slice", "int", "float", "ndarray", "DataFrame", "Series", "Timestamp", "DatetimeIndex",
         "RangeIndex", "TensorVariable", "TensorConstant", "Model"}
MADE = {"to_frame": {"DataFrame"}, "array": {"ndarray"}, "pandas.DataFrame": {"DataFrame"}, "pandas.Series": {"Series"},
        "date_range": {"DatetimeIndex"}, "RangeIndex": {"RangeIndex"}, "pandas.DatetimeIndex": {"DatetimeIndex"}, "list": {"list", "tuple"}}


def class_name(t):
    return t.data.rsplit(".", 1)[-1] if isinstance(t.data, str) and not t.kids else None


def class_of(t):
    """Classes one of which the object has, where that is plain."""
    if t.kind in ("seq", "concat"):
        return {"list", "tuple"} if t.data is None and t.kind == "seq" else None
    if t.kind == "map":
        return {"dict"}
    if t.kind == "set":
        return {"set"}
    if t.kind == "slice":
        return {"slice"}
    if t.kind == "fstr" or t.kind == "const" and isinstance(t.data, str):
        return {"str"}
    return MADE.get(t.data[0]) if t.kind == "f" else None


def is_set(t):
    return t.kind == "set" or t.kind == "f" and t.data in (("set", ()), ("difference", ())) or t.kind == "map_over" and t.data == "set"


def is_len(t):
    return t.kind == "f" and t.data[0] == "len" and len(t.kids) == 1


def is_eye(t):
    return t.kind == "f" and t.data[0] == "eye" and t.data[1] in (("n",), ())


def subst(t, m):
    memo = dict(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not x.kids:
            return x
        nk = tuple(go(k) for k in x.kids)
        r = x if nk == x.kids else rebuild(x, nk)
        memo[x] = r
        return r

    return go(t)


def root_of(fn):
    while fn.kind == "attr":
        fn = fn.kids[0]
    return fn


def t_unpack(t):
    out, i = [], 0
    for (cn, cd), row in t.data:
        m = []
        for en, ed in row:
            m.append((t.kids[i], Fraction(en, ed)))
            i += 1
        out.append((tuple(m), Fraction(cn, cd)))
    return out


def const_of(t):
    """Rational value of a canonical constant, else None."""
    if t.kind == "poly":
        u = t_unpack(t)
        if not u:
            return Fraction(0)
        if len(u) == 1 and not u[0][0]:
            return u[0][1]
    return None


def mono_key(m):
    return (sum(1 for _ in m), tuple((key(a), e) for a, e in m))


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, Fraction(0)) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: key(p[0])))


# ------------------------------------------------------------------ comparison
ALIGNED = {"f", "app", "sub", "attr", "seq", "map_over", "dd", "matmul", "transpose", "map", "concat", "slice", "exists", "elem",
           "mapcat", "op", "fstr", "mu", "mut", "new", "grp", "lam", "bound", "call", "rep", "set", "scanout", "idx", "scanupd", "prev"}


def diff(cur, ref):
    """Minimal differing pairs of two canonical terms ([] when equal)."""
    return [(a, b) for a, b, _ in itertools.islice(diff_ctx(cur, ref), 13)]


def diff_ctx(cur, ref):
    """Minimal differing pairs of two canonical terms, with the conditions they stand under."""
    seen = set()

    def go(cur, ref, depth, ctx):
        if cur is ref or (cur, ref, ctx) in seen:
            return
        seen.add((cur, ref, ctx))
        if depth < 60 and cur.kind == ref.kind and cur.kind in ALIGNED and cur.data == ref.data and len(cur.kids) == len(ref.kids):
            if cur.kind == "dd":
                if cur.kids[0] is not ref.kids[0]:
                    yield cur, ref, ctx
                    return
                for v, i in ((True, 1), (False, 2)):
                    yield from go(cur.kids[i], ref.kids[i], depth + 1, (*ctx, (cur.kids[0], v)))
                return
            if cur.kind == "map" and cur.kids[::2] != ref.kids[::2]:
                yield cur, ref, ctx
                return
            if cur.kind == "sub" and all(a is not b for a, b in zip(cur.kids, ref.kids)):
                yield cur, ref, ctx  # the same item, perhaps, of different collections
                return
            for a, b in zip(cur.kids, ref.kids):
                yield from go(a, b, depth + 1, ctx)
            return
        if (cur.kind == "poly" or ref.kind == "poly") and "dd" not in (cur.kind, ref.kind) and depth < 60:
            C = Canon()
            pc, pr = C.topoly(cur), C.topoly(ref)
            oc = {m: c for m, c in pc.items() if pr.get(m) != c}
            orr = {m: c for m, c in pr.items() if pc.get(m) != c}
            if len(oc) == 1 and len(orr) == 1:
                (mc, cc), (mr, cr) = *oc.items(), *orr.items()
                if cc == cr:
                    ac = [x for x in mc if x not in mr]
                    ar = [x for x in mr if x not in mc]
                    if len(ac) == 1 and len(ar) == 1 and ac[0][1] == ar[0][1]:
                        yield from go(ac[0][0], ar[0][0], depth + 1, ctx)
                        return
            if oc or orr:
                yield C.mkpoly(oc), C.mkpoly(orr), ctx
            return
        yield cur, ref, ctx

    return go(cur, ref, 0, ())


def full_slice(x):
    return x.kind == "slice" and all(k is NONE for k in x.kids)


def newaxis(i):
    """Axis added by an index that does nothing else."""
    if i is NONE:
        return 0
    if i.kind != "seq":
        return None
    full = full_slice
    dots = lambda x: x.kind == "const" and x.data is Ellipsis
    ks = i.kids
    if sum(k is NONE for k in ks) != 1 or not all(k is NONE or full(k) or dots(k) for k in ks) or sum(map(dots, ks)) > 1:
        return None
    n = next(j for j, k in enumerate(ks) if k is NONE)
    return n - len(ks) if any(map(dots, ks[:n])) else n


def conditions(t, memo=None):
    """Atomic conditions of the conditionals in a term, those that hold no others and are not about items the term runs over."""
    memo = {} if memo is None else memo
    if t not in memo:
        out, seen, st = set(), set(), [(t, ())]
        while st:
            x, over = st.pop()
            if (x, over) in seen:
                continue
            seen.add((x, over))
            if x.kind == "dd":
                at = x.kids[0]
                if not (over and any(y.kind in ("elem", "idx") and any(k in over for k in y.kids) for y in at.walk())) and not conditions(at, memo):
                    out.add(at)
            elif x.kind in BINDERS:
                over = tuple(dict.fromkeys((*over, *x.kids[2 if x.kind == "map_over" else 1:])))
            st += [(y, over) for y in x.kids]
        memo[t] = out
    return memo[t]


class Budget:
    """Limits how many cases are looked at."""

    def __init__(self, n=400):
        self.n, self.t0, self.first = n, time.monotonic(), True

    def over(self):
        return time.monotonic() - self.t0 >= CASES_S

    def spend(self):
        self.n -= 1
        return self.n >= 0 and not self.over()


def feasible(path):
    """Whether a combination of conditions is not contradictory as far as numbers and types tell."""
    C = Canon()
    if len(set(path)) != len(dict(path)):
        return False
    bounds, eqs, none = {}, {}, set()
    for at, v in path:
        if at.kind == "f" and at.data == ("is", ()) and NONE in at.kids and v:
            none.add(at.kids[0] if at.kids[1] is NONE else at.kids[1])
        if at.kind != "f" or at.data[0] not in ("gt0", "ge0", "eq0"):
            continue
        p = C.topoly(at.kids[0])
        c = p.pop((), Fraction(0))
        if not p:
            continue
        lead = p[max(p, key=mono_key)]
        q = tuple(sorted(((mono_key(m), k / lead) for m, k in p.items()), key=repr))
        x = -c / lead
        whole = all(len(m) == 1 and m[0][1] == 1 and is_len(m[0][0]) for m in p)
        lo, hi, out = bounds.setdefault(q, [(Fraction(-1) if whole and len(p) == 1 else None, True), (None, True), set()])
        how = at.data[0]
        if how == "eq0":
            if v:
                if lo[0] is None or x >= lo[0]:
                    lo = (x, False)
                if hi[0] is None or x <= hi[0]:
                    hi = (x, False)
                eqs.setdefault(q, set()).add(x)
            else:
                out.add(x)
        else:
            up = (lead > 0) == v  # a lower bound
            strict = (how == "gt0") == v
            if up:
                if lo[0] is None or x > lo[0] or x == lo[0] and strict:
                    lo = (x, strict)
            elif hi[0] is None or x < hi[0] or x == hi[0] and strict:
                hi = (x, strict)
        bounds[q] = [lo, hi, out]
        if len(eqs.get(q, ())) > 1:
            return False
        e = next(iter(eqs.get(q, ())), None)
        if e is not None:
            if e in out or lo[0] is not None and (e < lo[0] or e == lo[0] and lo[1]) or hi[0] is not None and (e > hi[0] or e == hi[0] and hi[1]):
                return False
        if lo[0] is not None and hi[0] is not None:
            if lo[0] > hi[0] or lo[0] == hi[0] and (lo[1] or hi[1] or lo[0] in out):
                return False
            if whole and (lo[1] or hi[1]):
                a = lo[0] // 1 + 1 if lo[1] else -(-lo[0] // 1)
                b = -(-hi[0] // 1) - 1 if hi[1] else hi[0] // 1
                if a > b or a == b and a in out:
                    return False
    zero = {at.kids[0]: v for at, v in path if at.kind == "f" and at.data == ("eq0", ())}
    if zero and any(zero.get(C.mkpoly(C.topoly(at))) is v for at, v in path):
        return False
    for at, v in path:
        if v and at.kind == "f" and at.data == ("==", ()):
            for x, w in path:
                if x is not at:
                    y = C.truthy(*C.given([x], at, True))
                    if y is TRUE and not w or y is FALSE and w:
                        return False
    classes = {}
    for at, v in path:
        if v and at.kind == "f" and at.data == ("isinstance", ()) and class_name(at.kids[1]) in APART:
            if classes.setdefault(at.kids[0], class_name(at.kids[1])) != class_name(at.kids[1]):
                return False
    some = [(at, v) for at, v in path if at.kind == "exists"]
    if some:
        facts = {at: v for at, v in path if at.kind != "exists"}
        some = [(C.truthy(C.again(at.kids[0], {}, facts)), at.kids[1:], v) for at, v in some]
        for c, its, v in some:
            if v and C.band([c, C.bnot(C.bor([d for d, i, w in some if not w and i == its]))]) is FALSE:
                return False  # an item of which none of what no item satisfies is true
            if not v and c is TRUE and any(x.kind == "elem" and x.kids == its for a in facts for x in a.walk()):
                return False
    for at, v in path:
        if v and at.kind == "f" and at.data == ("in", ()) and T("sub", (at.kids[1], at.kids[0])) in none:
            return False  # mappings hold no None
        if v and at in none or v and at.kind == "f" and at.data == ("isinstance", ()) and at.kids[0] in none:
            return False
    return True


OPAQUE_KINDS = {"unknown", "undef", "while", "mu", "mut", "func", "lambda", "ref", "alloc", "bound", "obj"}


def opaque(x):
    return x.kind in OPAQUE_KINDS and not (x.kind == "func" and isinstance(x.data, str))


def weird(t):
    """Kinds of parts whose value is not known; objects and their methods are named, like functions."""
    return {x.kind for x in t.walk() if opaque(x)} - {"obj", "bound"}


def vocab(t):
    """Function names used in a canonical term."""
    out = set()
    for x in t.walk():
        if x.kind == "f":
            out.add(x.data[0])
        elif x.kind == "app" and x.kids[0].kind in ("func", "bound"):
            out.add("func")
    return out


KNOWN_F = set(SIGS) | {"exp", "log", "log1p", "expm1", "abs", "sign", "sqrt", "pow", "len", "range", "isinstance", "gammaln", "inv", "diag",
                       "diagonal", "concatenate", "stack", "arange", "reshape", "ravel", "flatten", "floor", "ceil", "round", "isnan",
                       "isnull", "any", "all", "switch", "cholesky", "solve", "pinv", "kron", "outer", "trace", "det", "slogdet", "logdet",
                       "fstr", "list", "zip", "enumerate", "sorted", "reversed", "set", "str", "int", "min", "max", "sum", "==", "is", "in", "gt0", "ge0", "eq0",
                       "factorln", "logit", "sigmoid", "tanh", "erf", "erfc", "allclose", "isclose", "atleast_1d", "block_diag", "triu", "tril",
                       "maximum", "minimum", "shape", "join", "split", "lower", "upper", "strip", "replace", "startswith", "endswith", "get",
                       "pop", "items", "keys", "values", "index", "count", "mod", "//", "%", "nan_to_num", "full_like", "zeros_like", "ones_like"}


def size(t, cap=40):
    n, st = 0, [t]
    while st and n < cap:
        n += 1
        st += st.pop().kids
    return n


UNSET = T("const", (), "unset")
EMPTY = T("seq")
SLICE = T("glob", (), "slice")
LEAF = {"const", "sym", "glob", "cls", "lib", "func", "obj", "undef"}


def leafish(t):
    while t.kind in ("attr",) or t.kind == "sub" and t.kids[1].kind == "const" or t.kind == "poly" and len(t.kids) <= 1:
        if not t.kids:
            return True
        t = t.kids[0]
    return t.kind in LEAF


def spine(t):
    """Conditions and results of a conditional term."""
    conds, leaves, st, seen = set(), set(), [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "dd":
            conds.add(x.kids[0])
            st += x.kids[1:]
        else:
            leaves.add(x)
    return conds, leaves


def subseq(xs, ys):
    it = iter(ys)
    return all(any(x is y for y in it) for x in xs)


def within(x, t, depth):
    return depth >= 0 and any(k is x or within(x, k, depth - 1) for k in t.kids)


class Near:
    """Whether two different canonical terms differ the way a changed program does, not the way a rewritten one does:
    by a part that is another one, left out, added, applied or combined differently. Other differences may be due to a
    way of writing the theory does not relate to the specification's."""

    def __init__(self, ref, extra=()):
        self.parts = set(ref.walk())
        self.vocab = KNOWN_F | vocab(ref) | set(extra)
        self.attrs = {x.data for x in self.parts if x.kind in ("attr", "glob", "lib")} | {"shape", "ndim", "size", "name", "dtype", "type", "values"}

    def known(self, t):
        """Uses only functions and attributes the specification uses or the theory has a meaning for."""
        return not (vocab(t) - self.vocab) and all(x.data in self.attrs for x in t.walk() if x.kind in ("attr", "glob", "lib") and x not in self.parts)

    def __call__(self, c, r, d=0):
        if c is r or d > 12:
            return False
        if weird(c) - weird(r) or weird(r) - weird(c) or opaque(c) or opaque(r):
            return False
        ck, rk = c.kind, r.kind
        if UNSET in (c, r):
            return True  # done or not done
        if ck == "dd" or rk == "dd":
            return self.conditional(c, r, d)
        if ck == "poly" or rk == "poly":
            return self.arithmetic(c, r, d)
        # one applied to the other
        if within(c, r, 1) or within(r, c, 1):
            return True
        if ck == "const" or rk == "const":
            return leafish(c) and leafish(r) or size(c if rk == "const" else r) <= 12
        if leafish(c) and leafish(r):
            return True
        # the value of another part of the computation
        if c in self.parts and size(c) > 1:
            return True
        if ck == rk and ck in ("seq", "matmul", "concat", "set", "fstr"):
            a, b = c.kids, r.kids
            if subseq(a, b) or subseq(b, a) or sorted(a, key=key) == sorted(b, key=key):
                return True
            if len(a) == len(b):
                return self.pairs(zip(a, b), d)
            return False
        if ck == rk == "map":
            a, b = dict(zip(c.kids[::2], c.kids[1::2])), dict(zip(r.kids[::2], r.kids[1::2]))
            gone, new = [k for k in b if k not in a], [k for k in a if k not in b]
            if bool(gone) != bool(new):
                return all(k.kind == "const" for k in gone + new) or len(gone + new) == 1
            if gone and len(gone) == len(new) == 1 and a[new[0]] is b[gone[0]]:
                return self(new[0], gone[0], d + 1)
            return self.pairs([(a[k], b[k]) for k in b if k in a], d) and (not gone or all(k.kind == "const" for k in gone + new))
        if ck == rk and ck in ("f", "app"):
            a, b = args_of(c), args_of(r)
            if c.kids == r.kids and ck == "f":
                return True
            if ck == "app" and c.kids[1:] == r.kids[1:] and c.data == r.data and self.known(c.kids[0]):
                return True
            if c.data[0] == r.data[0] and (ck == "f" or c.kids[0] is r.kids[0]):
                if sorted(c.kids, key=key) == sorted(r.kids, key=key):
                    return True
                shared = [k for k in a if k in b]
                if len(a) != len(b) or len(shared) != len(a):
                    short, long = (a, b) if len(a) < len(b) else (b, a)
                    if subseq(list(short.values()), list(long.values())) or all(k in long and short[k] is long[k] for k in short):
                        return True
                return self.pairs([(a[k], b[k]) for k in shared], d) if len(shared) == len(a) == len(b) else False
            return size(c) <= 8 and size(r) <= 8 and self.known(c) and any(x is y for x in c.kids for y in r.kids) and len(c.kids) == len(r.kids)
        if ck == rk == "sub" and all(x is not y for x, y in zip(c.kids, r.kids)) and not all(leafish(x) for x in (*c.kids, *r.kids)):
            return False  # perhaps the same item of another collection
        if ck == rk and c.data == r.data and len(c.kids) == len(r.kids):
            return self.pairs(zip(c.kids, r.kids), d)
        if ck == rk:
            return size(c) <= 10 and size(r) <= 10 and self.known(c) and any(x is y for x in c.kids for y in r.kids)
        return False

    def plain(self, t):
        """A part of the specification's own data."""
        if t in self.parts or leafish(t):
            return self.known(t)
        if t.kind in ("idx", "elem"):
            return self.plain(t.kids[0])
        return t.kind == "sub" and self.plain(t.kids[0]) and (const_of(t.kids[1]) is not None or self.plain(t.kids[1]))

    def pairs(self, ps, d):
        ps = [(x, y) for x, y in ps if x is not y]
        return bool(ps) and all(self(x, y, d + 1) for x, y in ps)

    def arithmetic(self, c, r, d):
        C = Canon()
        pc, pr = C.topoly(c), C.topoly(r)
        oc = {m: k for m, k in pc.items() if pr.get(m) != k}
        orr = {m: k for m, k in pr.items() if pc.get(m) != k}
        ac, ar = ({a for m in p for a, e in m} for p in (oc, orr))
        new, gone = ac - {a for m in pr for a, e in m}, ar - {a for m in pc for a, e in m}
        if c.kind != "poly" and r.kind == "poly" and within(c, r, 0) or r.kind != "poly" and c.kind == "poly" and within(r, c, 0):
            return True
        if not new or all(a in self.parts or leafish(a) and self.known(a) for a in new) and (not gone or all(leafish(a) or a in new or size(a) < 12 for a in gone)):
            return True
        if all(self.plain(a) for a in new) and not any(measure(a) for a in gone):
            return True
        if len(new) == len(gone) <= 3:
            left = list(gone)
            for x in sorted(new, key=key):
                y = next((y for y in left if self(x, y, d + 1)), None)
                if y is None:
                    return False
                left.remove(y)
            return True
        return not gone and all(size(a) <= 8 and self.known(a) for a in new)

    def asked(self, new, gone, d=0):
        """Whether conditions `new` in place of `gone` are other conditions, not other ways to ask."""
        if new and gone:
            return all(x in self.parts or any(self(x, y, d + 1) for y in gone) for x in new)
        return all(x in self.parts or self.known(x) and size(x) < 25 for x in new)

    def case(self, path, c, r):
        """Whether the conditions of a case in which `c` and `r` differ mean the same to both."""
        cc, cr = asked_in(c), asked_in(r)
        new = {at for at, v in path if at not in cr and at in cc}
        if any(v and at in new and absent(at) for at, v in path):
            return False
        return not new or self.asked(new, cr - cc) or any(x is y for x in spine(c)[1] for y in [r]) and all(self.known(x) for x in new)

    def conditional(self, c, r, d):
        (cc, lc), (cr, lr) = spine(c), spine(r)
        new, gone = cc - cr, cr - cc
        ln, lg = lc - lr, lr - lc
        if new and not gone and ln and all(any(x.kind != "const" and self(x, y, d + 1) for y in lr) for x in ln):
            return True
        if not self.asked(new, gone, d):
            return False
        if not ln or not lg:
            return all(x.kind == "const" or leafish(x) or x in self.parts or size(x) <= 12 for x in ln)
        return all(any(self(x, y, d + 1) for y in lr) for x in ln)


def absent(at):
    """The condition that a computed value is None."""
    if at.kind != "f" or at.data != ("is", ()) or NONE not in at.kids:
        return False
    z = at.kids[0] if at.kids[1] is NONE else at.kids[1]
    item = z.kind == "sub"
    while z.kind == "sub":
        z = z.kids[0]
    return z.kind == "app" or item and z.kind == "f"


def asked_in(t):
    return {x.kids[0] for x in t.walk() if x.kind == "dd"}


def measure(t):
    """Sizes can be obtained in many ways."""
    return any(x.kind == "f" and x.data[0] in ("len", "prod") and x is t or x.kind == "attr" and x.data in ("shape", "ndim", "size") for x in t.walk())


def args_of(t):
    names = t.data[1]
    ks = t.kids if t.kind == "f" else t.kids[1:]
    n = len(ks) - len(names)
    return {**dict(enumerate(ks[:n])), **dict(zip(names, ks[n:]))}


def decided(pairs, ref, extra=()):
    """True when every differing pair differs the way a changed program does."""
    near = Near(ref, extra)
    return all(near(c, r) for c, r in pairs)


def pp(t, depth=8):
    """Readable form of a canonical term."""
    if depth < 0:
        return "…"
    g = lambda x: pp(x, depth - 1)
    k = t.kind
    if k == "poly":
        parts = []
        for m, c in t_unpack(t):
            f = [g(a) + (f"^{e}" if e != 1 else "") for a, e in m]
            if c != 1 or not f:
                f.insert(0, str(c))
            parts.append("*".join(f))
        return "(" + " + ".join(parts) + ")" if len(parts) != 1 else parts[0]
    if k == "f":
        name, names = t.data
        n = len(t.kids) - len(names)
        return f"{name}(" + ", ".join([g(x) for x in t.kids[:n]] + [f"{a}={g(x)}" for a, x in zip(names, t.kids[n:])]) + ")"
    if k == "dd":
        c, a, b = t.kids
        if a is TRUE and b is FALSE:
            return g(c)
        if a is FALSE and b is TRUE:
            return f"not {g(c)}"
        return f"({g(a)} if {g(c)} else {g(b)})"
    if k == "matmul":
        return " @ ".join(g(x) for x in t.kids)
    if k == "transpose":
        return g(t.kids[0]) + "'"
    if k == "elem":
        return f"each({g(t.kids[0])})"
    if k == "map_over":
        return f"[{g(t.kids[0])} for {', '.join(g(x) for x in t.kids[2:])}" + ("" if t.kids[1] is TRUE else f" if {g(t.kids[1])}") + "]"
    if k == "seq":
        return "[" + ", ".join(g(x) for x in t.kids) + "]"
    if k == "lib":
        return t.data
    if k == "sub":
        return f"{g(t.kids[0])}[{g(t.kids[1])}]"
    if k == "attr":
        return f"{g(t.kids[0])}.{t.data}"
    if k == "map":
        return "{" + ", ".join(f"{g(t.kids[i])}: {g(t.kids[i+1])}" for i in range(0, len(t.kids), 2)) + "}"
    if k == "exists":
        return f"any({g(t.kids[0])} over {', '.join(g(x) for x in t.kids[1:])})"
    if k in ("const", "sym", "glob", "func", "cls", "obj", "undef"):
        return show(t)
    d = t.data if not isinstance(t.data, tuple) else (t.data[0] if t.data else "")
    return f"{k}[{d}](" + ", ".join(g(x) for x in t.kids) + ")"
