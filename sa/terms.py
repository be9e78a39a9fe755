"""Hash-consed value-graph terms.

A term is an immutable, globally interned node (op, args).  Two source
constructs that compute the same expression over the same leaves get the *same*
Python object, so value-number equality is `is`.
"""
from __future__ import annotations

_TABLE: dict = {}
_COUNT = [0]


class Term:
    __slots__ = ("op", "args", "id", "bvmax", "_leaves")

    def __init__(self, op, args, id_, bvmax):
        self.op = op
        self.args = args
        self.id = id_
        self.bvmax = bvmax
        self._leaves = None

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.id < other.id

    # terms are interned: identity is equality
    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return self.id


def _key(a):
    if isinstance(a, Term):
        return a
    return (type(a).__name__, repr(a) if isinstance(a, float) else a)


def mk(op, *args):
    """Intern without simplification."""
    key = (op, tuple(_key(a) for a in args))
    t = _TABLE.get(key)
    if t is None:
        bv = 0
        for a in args:
            if isinstance(a, Term) and a.bvmax > bv:
                bv = a.bvmax
        if op == "bv":
            bv = args[0] + 1
        _COUNT[0] += 1
        t = Term(op, args, _COUNT[0], bv)
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def is_key(t):
    """a constant dictionary key: a constant or a tuple of constants"""
    return isinstance(t, Term) and (t.op == "const" or t.op == "tuple" and all(is_key(a) for a in t.args))


def cval(t):
    return t.args[0]


def sym(name, kind="any"):
    return mk("sym", name, kind)


def _num(t):
    return is_const(t) and isinstance(t.args[0], (int, float)) and not isinstance(
        t.args[0], bool
    )


def _numb(t):
    return is_const(t) and isinstance(t.args[0], (int, float))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if is_const(a):
        return const(not a.args[0])
    return mk("not", a)


def and_(*xs):
    out = []
    for x in xs:
        if x.op == "and":
            items = x.args
        else:
            items = (x,)
        for i in items:
            if i is TRUE:
                continue
            if i is FALSE:
                return FALSE
            if i not in out:
                out.append(i)
    for i in out:
        if not_(i) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*xs):
    out = []
    for x in xs:
        items = x.args if x.op == "or" else (x,)
        for i in items:
            if i is FALSE:
                continue
            if i is TRUE:
                return TRUE
            if i not in out:
                out.append(i)
    for i in out:
        if not_(i) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *out)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # same-condition collapse
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


_CMP = {
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
}


def cmp(op, a, b):
    if is_const(a) and is_const(b):
        try:
            return const(bool(_CMP[op](a.args[0], b.args[0])))
        except TypeError:
            return mk(op, a, b) if op not in ("eq", "ne") else const(op == "ne")
    if op == "ne":
        return not_(cmp("eq", a, b))
    if op == "eq":
        if a is b and a.op != "const" and a.op in ("tuple", "list", "slice"):
            return TRUE
        if a.op in ("tuple", "list") and b.op == a.op:
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[cmp("eq", x, y) for x, y in zip(a.args, b.args)])
        if a.op == "ite" and is_const(b):
            return _cmp_ite(op, a, b)
        if b.op == "ite" and is_const(a):
            return _cmp_ite(op, b, a)
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(b) and b.id < a.id:
            a, b = b, a
        # a list / tuple display is never equal to a scalar constant
        if a.op in ("tuple", "list") and is_const(b):
            return FALSE
        return mk("eq", a, b)
    if op == "gt":
        return mk("lt", b, a)
    if op == "ge":
        return mk("le", b, a)
    return mk(op, a, b)


def _cmp_ite(op, t, c):
    """compare ite-tree of constants against a constant"""
    if t.op == "ite":
        x = _cmp_ite(op, t.args[1], c)
        y = _cmp_ite(op, t.args[2], c)
        if is_const(x) or is_const(y):
            return or_(and_(t.args[0], x), and_(not_(t.args[0]), y))
        return ite(t.args[0], x, y)
    return cmp(op, t, c)


def add(a, b):
    if _num(a) and _num(b):
        return const(a.args[0] + b.args[0])
    if is_const(a) and is_const(b) and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if _num(a) and a.args[0] == 0 and isinstance(a.args[0], int):
        return b
    if _num(b) and b.args[0] == 0 and isinstance(b.args[0], int):
        return a
    if a.op in ("list", "tuple") and b.op == a.op:
        return mk(a.op, *(a.args + b.args))
    return mk("add", a, b)


def sub(a, b):
    if _num(a) and _num(b):
        return const(a.args[0] - b.args[0])
    if _num(b) and b.args[0] == 0 and isinstance(b.args[0], int):
        return a
    return mk("sub", a, b)


def mul(a, b):
    if _num(a) and _num(b):
        return const(a.args[0] * b.args[0])
    if _num(a) and a.args[0] == 1:
        return b
    if _num(b) and b.args[0] == 1:
        return a
    return mk("mul", a, b)


def div(a, b):
    if _num(b) and b.args[0] == 1:
        return a
    return mk("div", a, b)


def power(a, b):
    if _num(a) and _num(b) and isinstance(a.args[0], int) and isinstance(b.args[0], int) and 0 <= b.args[0] < 64:
        return const(a.args[0] ** b.args[0])
    if _num(b) and b.args[0] == 1:
        return a
    return mk("pow", a, b)


def neg(a):
    if _num(a):
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def subst(t, mapping, memo=None):
    """Replace sub-terms (keys of mapping) everywhere; rebuild with simplification."""
    if memo is None:
        memo = {}
    if not mapping:
        return t
    return _subst(t, mapping, memo, min(k.id for k in mapping))


def _subst(t, mapping, memo, low):
    # arguments are created before the terms that use them: older terms cannot mention a key
    if not isinstance(t, Term) or t.id < low:
        return t
    r = mapping.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(a, Term) for a in t.args):
        memo[t] = t
        return t
    new = tuple(_subst(a, mapping, memo, low) for a in t.args)
    if all(x is y for x, y in zip(new, t.args)):
        r = t
    else:
        r = rebuild(t.op, new)
    memo[t] = r
    return r


def rebuild(op, args):
    if op == "ite":
        return ite(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "not":
        return not_(*args)
    if op in ("lt", "le", "eq", "ne", "gt", "ge"):
        return cmp(op, *args)
    f = {"add": add, "sub": sub, "mul": mul, "div": div, "pow": power, "neg": neg}.get(op)
    if f:
        return f(*args)
    if op == "getitem":
        return getitem(*args)
    if op == "isnone":
        return is_none(args[0])
    return mk(op, *args)


def is_none(t):
    if t is NONE:
        return TRUE
    if is_const(t):
        return FALSE
    if t.op == "ite":
        a, b = is_none(t.args[1]), is_none(t.args[2])
        return or_(and_(t.args[0], a), and_(not_(t.args[0]), b))
    if t.op in ("tuple", "list", "add", "mul", "div", "sub", "array", "obj", "dict", "zeros", "ones", "validX", "validy", "sw"):
        return FALSE
    return mk("isnone", t)


def getitem(b, i):
    if b.op in ("tuple", "list") and is_const(i) and isinstance(i.args[0], int) and not isinstance(i.args[0], bool):
        k = i.args[0]
        if -len(b.args) <= k < len(b.args):
            return b.args[k]
    if b.op == "ite" and is_const(i) and (b.args[1].op in ("tuple", "list") and b.args[2].op in ("tuple", "list")):
        return ite(b.args[0], getitem(b.args[1], i), getitem(b.args[2], i))
    if b.op == "setitem" and b.args[1] is i:
        return b.args[2]
    if b.op == "setitem" and is_const(b.args[1]) and is_const(i) and type(i.args[0]) is type(b.args[1].args[0]):
        # distinct constant keys/indices (mixed-sign indices are not compared)
        x, y = i.args[0], b.args[1].args[0]
        if x != y and not (isinstance(x, int) and (x < 0) != (y < 0)):
            return getitem(b.args[0], i)
    if b.op == "full" and is_const(b.args[1]) and is_const(i) and isinstance(i.args[0], int):
        n = b.args[0].args[0] if b.args[0].op == "tuple" and len(b.args[0].args) == 1 else b.args[0]
        if is_const(n) and isinstance(n.args[0], int) and -n.args[0] <= i.args[0] < n.args[0]:
            return b.args[1]
    if b.op == "repeat" and is_const(b.args[0]) and b.args[2] is NONE and is_const(i) and isinstance(i.args[0], int) and is_const(b.args[1]) and isinstance(b.args[1].args[0], int) and -b.args[1].args[0] <= i.args[0] < b.args[1].args[0]:
        return b.args[0]
    if b.op == "lamseq":  # lamseq(domain, body with bv)
        dom, k, body = b.args
        if dom.op == "range1":
            return subst(body, {mk("bv", k): i})
    if b.op == "filldict":
        ini, l = b.args
        return ite(mk("in", i, ini), getitem(ini, i), getitem(l, i))
    if b.op in ("lamdict", "mapdict"):
        dom, k, body = b.args
        return subst(body, {mk("bv", k): i})
    if b.op == "dictdisp" and is_const(i):
        for k in range(0, len(b.args), 2):
            if b.args[k] is i:
                return b.args[k + 1]
    return mk("getitem", b, i)


def lam(op, dom, var, body):
    """Bind placeholder `var` in body canonically (height-based bound variable)."""
    k = max(body.bvmax, 0)
    # avoid capture: domain terms are outside the binder
    return mk(op, dom, k, subst(body, {var: mk("bv", k)}))


def leaves(t):
    """All sub-terms (set)"""
    if t._leaves is not None:
        return t._leaves
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, Term) and a not in seen:
                stack.append(a)
    t._leaves = frozenset(seen)
    return t._leaves


def contains(t, needle):
    return needle in leaves(t)


def find(t, pred):
    return [x for x in leaves(t) if pred(x)]


_INF = {
    "add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**", "matmul": "@",
    "lt": "<", "le": "<=", "eq": "==", "and": " and ", "or": " or ",
}


def show(t, depth=12):
    if not isinstance(t, Term):
        return repr(t)
    if depth == 0:
        return "…"
    d = depth - 1
    o = t.op
    if o == "const":
        return repr(t.args[0])
    if o == "sym":
        return str(t.args[0])
    if o == "bv":
        return f"#{t.args[0]}"
    if o in _INF:
        return "(" + _INF[o].join(show(a, d) for a in t.args) + ")"
    if o == "neg":
        return f"-{show(t.args[0], d)}"
    if o == "not":
        return f"!{show(t.args[0], d)}"
    if o == "getitem":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if o == "attr":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if o == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args)
    if o == "tuple":
        return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    if o == "list":
        return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    if o == "ite":
        return f"ite({show(t.args[0], d)}, {show(t.args[1], d)}, {show(t.args[2], d)})"
    return f"{o}({', '.join(show(a, d) for a in t.args)})"
