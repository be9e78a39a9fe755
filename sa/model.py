"""Extraction helpers shared by the checks: from public names of the package to
value-graph terms."""
from __future__ import annotations

import functools
import os

import numpy as np

from . import terms as tm
from .evalt import Eval, Fault, Unknown, close
from .frontend import Cls, Func, Program  # noqa: F401
from .interp import ArrC, DictC, Interp, ListC, ObjC, PhiV, Ref, State, TupleV, Unsupported
from .report import HOLDS, PROVED, REFUTED, UNDECIDED, AnchorLost
from .terms import FALSE, NONE, TRUE, Term, and_, const, mk, not_, sym


@functools.lru_cache(None)
def prog():
    return Program()


def func(modname, name):
    """public function `name`; looked up where documented, else anywhere in the package"""
    p = prog()
    ms = [m for m in [p.modules.get("ondil." + modname)] if m is not None] + list(p.modules.values())
    for m in ms:
        f = p.resolve(m, name) if name in m.defs else None
        if isinstance(f, Func):
            return f
    raise AnchorLost(f"{modname}.{name}")


def cls(name):
    c = prog().classes.get(name)
    if c is None:
        raise AnchorLost(name)
    return c


def method(c, name):
    c = cls(c) if isinstance(c, str) else c
    f = c.lookup(name)
    if not isinstance(f, Func):
        raise AnchorLost(f"{c.name}.{name}")
    return f


class Ext:
    """result of abstract interpretation of one function"""

    def __init__(self, it, value, st, selfref, f):
        self.it, self.value, self.st, self.selfref, self.f = it, value, st, selfref, f

    @property
    def term(self):
        if self.value is None:
            return None
        return self.it.to_term(self.st, self.value)

    def attr(self, name):
        """post-state value of self.<name> as a term"""
        v = self.st.heap[self.selfref.oid].get(name)
        if v is None:
            return None
        return self.it.to_term(self.st, v)

    def attrs(self):
        return {k: self.it.to_term(self.st, v) for k, v in self.st.heap[self.selfref.oid].attrs}

    def raises(self):
        return [e for e in self.it.events if e.kind == "raise"]

    def raise_cond(self, pred=lambda e: True):
        """disjunction of the path conditions of explicit raises (outside loops)"""
        out = []
        for e in self.raises():
            if pred(e):
                out.append(pc_term(e.pc))
        return tm.or_(*out) if out else FALSE

    @property
    def loops(self):
        return self.it.loops

    def where(self):
        return f"{os.path.relpath(self.f.module.path, prog().repo)}:{self.f.node.lineno} {self.f.qual}"


def pc_term(pc):
    return and_(*[c if p else not_(c) for c, p in pc]) if pc else TRUE


def ext(f, args=None, self_cls=None, it=None, st=None, self_ref=None, pc=()):
    """interpret f on symbolic arguments (every parameter not given keeps its name as a leaf)"""
    it = it or Interp(prog())
    st = st or State()
    if pc:
        st.pc = tuple(pc)
    a = {}
    params = [x for x in f.params()]
    if self_cls is not None and not f.is_static:
        params = params[1:]
    for k in params:
        if args is not None and k in args:
            a[k] = args[k]
        elif args is None or args.get("*", True):
            a[k] = sym(k)
    v, s, r = it.entry(f, self_cls, a, st=st, self_ref=self_ref)
    return Ext(it, v, s, r, f)


def new_obj(c, args=None, it=None, st=None):
    """abstract instance of class c built by its own constructor"""
    it = it or Interp(prog())
    st = st or State()
    r = it.construct(st, c, [], args or {})
    return it, st, r


def rng(k=0):
    return np.random.default_rng(20240 + k)


def arr(r, *shape, lo=-2.0, hi=2.0):
    return r.uniform(lo, hi, size=shape)


def ident(rep, rule, construct, e, term, points, spec, where=None, rtol=1e-7, atol=1e-9, calls=None, pre=None):
    """identity test of an extracted term against the prescribed expression.

    points: list of dicts {leaf name or Term: value};  spec(point) -> prescribed value
    """
    where = where or e.where()
    rep.count("identity_points", len(points))
    if term is None:
        rep.ob(rule, construct, REFUTED, where, "no path returns a value")
        return False
    n = 0
    for p in points:
        env = {(sym(k) if isinstance(k, str) else k): v for k, v in p.items()}
        want = spec(p)
        try:
            got = Eval(env, e.loops if e is not None else {}, calls)(term)
        except Fault as f:
            rep.ob(rule, construct, REFUTED, where, f"no value at {short(p)} ({f}), prescribed {short(want)}")
            return False
        if not close(got, want, rtol, atol):
            rep.ob(rule, construct, REFUTED, where, f"at {short(p)} the extracted expression is {short(got)}, prescribed {short(want)}")
            return False
        n += 1
    rep.ob(rule, construct, HOLDS, where, f"{n} generic points")
    return True


def short(v, n=260):
    def f(x):
        if isinstance(x, np.ndarray):
            return np.array2string(x, precision=6, separator=",", threshold=12).replace("\n", "")
        if isinstance(x, dict):
            return "{" + ", ".join(f"{k if not isinstance(k, Term) else tm.show(k, 3)}: {f(y)}" for k, y in x.items()) + "}"
        if isinstance(x, float):
            return "%.9g" % x
        return str(x)
    s = f(v)
    return s if len(s) <= n else s[:n] + "…"


def seen(rep, e):
    rep.functions |= e.it.funcs_seen
    rep.count("events", len(e.it.events))
    rep.count("loops", len(e.it.loops))
    rep.count("entry_points")


class Machine:
    """Composition of the extracted transfer functions of an object's methods.

    The state is a valuation of *all* attributes (whatever they are called); a step
    evaluates the post-state terms of one method over the pre-state valuation.
    """

    def __init__(self, cname, state, mk_interp=None, calls=None):
        self.c = cls(cname) if isinstance(cname, str) else cname
        self.state = dict(state)
        self.cache = {}
        self.mk = mk_interp or (lambda: Interp(prog()))
        self.calls = calls
        self.self_ = sym("self", "opaque")

    def clone(self):
        m = Machine(self.c, self.state, self.mk, self.calls)
        m.cache = self.cache
        return m

    def ext(self, name, nones=()):
        k = (name, tuple(sorted(nones)))
        if k not in self.cache:
            f = method(self.c, name)
            args = {p: (NONE if p in nones else sym(p)) for p in f.params() if p != "self"}
            self.cache[k] = ext(f, args, self.c, it=self.mk())
        return self.cache[k]

    def env(self, values):
        env = {mk("attr", self.self_, k): v for k, v in self.state.items()}
        env.update({sym(k): v for k, v in values.items()})
        return env

    def hasattr_call(self, ev, t):
        if t.args[0] is self.self_ or (t.args[0].op in ("objref",)):
            return tm.cval(t.args[1]) in self.state
        return NotImplemented

    def apply(self, name, /, **values):
        nones = [k for k, v in values.items() if v is None]
        f = method(self.c, name)
        e = self.ext(name, [p for p in f.params() if p in nones])
        calls = dict(self.calls or {})
        calls.setdefault("hasattr", self.hasattr_call)
        ev = Eval(self.env(values), e.loops, calls)
        new = dict(self.state)
        for k, v in e.st.heap[e.selfref.oid].attrs:
            t = e.it.to_term(e.st, v)
            if t is mk("attr", self.self_, k):
                continue
            new[k] = ev(t)
        out = None
        if e.value is None:
            raise Fault("every path raises")
        if not (isinstance(e.value, Ref) and e.value == e.selfref):
            out = ev(e.term)
        self.state = new
        return out

    def raising(self, name, /, **values):
        nones = [k for k, v in values.items() if v is None]
        e = self.ext(name, nones)
        calls = dict(self.calls or {})
        calls.setdefault("hasattr", self.hasattr_call)
        ev = Eval(self.env(values), e.loops, calls)
        return any(bool(np.all(ev(pc_term(r.pc)))) for r in e.raises() if not r.loops)


def smooth(name, args, shape):
    """generic smooth random function of its arguments (reading of an uninterpreted operation)"""
    import hashlib
    tags, vals = [str(name)], []

    def go(x):
        if x is None or isinstance(x, (str, bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype == bool) or isinstance(x, slice):
            tags.append(repr(np.asarray(x).tolist()) if isinstance(x, np.ndarray) else repr(x))
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                tags.append(str(k))
                go(x[k])
        elif isinstance(x, (list, tuple)):
            tags.append(f"seq{len(x)}")
            for e in x:
                go(e)
        else:
            a = np.asarray(x, dtype=float)
            tags.append(repr(a.shape))
            vals.append(np.nan_to_num(np.ravel(a), posinf=7.7, neginf=-7.3, nan=3.3))
    go(args)
    seed = int.from_bytes(hashlib.sha256("|".join(tags).encode()).digest()[:8], "big")
    r = np.random.default_rng(seed)
    v = np.concatenate(vals) if vals else np.zeros(1)
    n = int(np.prod(shape)) if shape else 1
    W = r.normal(size=(n, v.size)) / np.sqrt(v.size)
    out = np.sin(W @ np.arcsinh(v / 3) * 3 + r.normal(size=n))
    return out.reshape(shape) if shape else float(out[0])


def fargs(ev, t):
    """name and evaluated keyword arguments of an fcall/icall term"""
    if t.op == "fcall":
        return t.args[0], {tm.cval(t.args[i]): ev(t.args[i + 1]) for i in range(1, len(t.args), 2)}
    return t.args[0], {tm.cval(t.args[i]): ev(t.args[i + 1]) for i in range(2, len(t.args), 2)}


def param_writes(e, allow=()):
    """events that modify an object owned by the caller (a parameter of the analysed function)"""
    out = []
    for v in e.it.events:
        if v.kind == "write" and v.data[1] and v.data[1][0] == "caller" and v.data[1][1] not in allow:
            out.append(v)
        if v.kind in ("write_opaque", "setattr_opaque"):
            out.append(v)
    return out
