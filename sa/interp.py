"""Gated value-graph abstract interpreter for the analysed Python subset.

The interpreter maps every reachable expression of a function (and of everything
it calls inside the package) to a value-graph term over symbolic inputs.  `if`
joins become gated phi nodes (`ite`), loops over unknown iterables become mu
nodes with an inductively closed transition (no unrolling, no path enumeration,
no solver).  A small heap models attributes, dicts, lists and arrays with
aliasing (views, copies), and every state write, raise, library call and
interface call is recorded as an event with its gate (path condition).
"""
from __future__ import annotations

import ast
import math
import functools
import os
from dataclasses import dataclass, field

from . import terms as tm
from .frontend import REPO, Cls, Func, Program
from .terms import (FALSE, NONE, TRUE, UNDEF, Term, add, and_, cmp, const, div,
                    getitem, is_const, is_key, is_none, ite, lam, mk, mul, neg, not_,
                    or_, power, sub, subst, sym)


class Unsupported(Exception):
    pass


# ----------------------------------------------------------------- values
class TupleV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Ref:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __repr__(self):
        return f"Ref({self.oid})"


class FuncV:
    def __init__(self, func, fid=None):
        self.func = func
        self.fid = fid


class BoundV:
    def __init__(self, selfv, func, cls):
        self.selfv = selfv
        self.func = func
        self.cls = cls  # dynamic class


class ClassV:
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClassV) and o.cls is self.cls

    def __hash__(self):
        return hash(("cls", self.cls.name))


class LibV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, LibV) and o.name == self.name

    def __hash__(self):
        return hash(("lib", self.name))


class ModV:
    def __init__(self, mod):
        self.mod = mod


class SuperV:
    def __init__(self, cls, selfv, dyn):
        self.cls = cls
        self.selfv = selfv
        self.dyn = dyn


class BoundLib:
    """attribute `name` of a non-package value"""

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class PhiV:
    def __init__(self, cond, a, b):
        self.cond = cond
        self.a = a
        self.b = b


class SymIter:
    def __init__(self, length, var, elem):
        self.length = length
        self.var = var
        self.elem = elem


# ----------------------------------------------------------------- heap cells
@dataclass(frozen=True)
class ObjC:
    cls: object
    attrs: tuple  # tuple of (name, value)
    name: Term | None = None  # pre-state identity
    owner: tuple = ("fresh",)

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def set(self, n, v):
        return ObjC(self.cls, tuple((k, x) for k, x in self.attrs if k != n) + ((n, v),), self.name, self.owner)


@dataclass(frozen=True)
class DictC:
    entries: tuple  # ((constkey Term, Value), ...)
    owner: tuple = ("fresh",)

    def get(self, k):
        for a, v in self.entries:
            if a is k:
                return v
        return None

    def set(self, k, v):
        if self.get(k) is not None:
            return DictC(tuple((a, v if a is k else x) for a, x in self.entries), self.owner)
        return DictC(self.entries + ((k, v),), self.owner)

    def delete(self, k):
        return DictC(tuple((a, x) for a, x in self.entries if a is not k), self.owner)


@dataclass(frozen=True)
class ListC:
    items: tuple
    owner: tuple = ("fresh",)


@dataclass(frozen=True)
class ArrC:
    content: Term
    owner: tuple = ("fresh",)


@dataclass(frozen=True)
class ViewC:
    base: object  # Ref or PhiV
    op: tuple  # ('getitem', idx) | ('valid', ..) | ('T',) ...
    owner: tuple = ("fresh",)


@dataclass
class Event:
    kind: str
    data: tuple
    pc: tuple
    stack: tuple
    file: str
    line: int
    loops: tuple
    seq: int = 0

    def where(self):
        return f"{self.file}:{self.line} in {self.stack[-1] if self.stack else '?'}"


class State:
    __slots__ = ("frames", "heap", "pc", "loops", "types")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.loops = ()
        self.types = {}

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.loops = self.loops
        s.types = self.types
        return s


@dataclass
class Flow:
    normal: State | None
    exits: list = field(default_factory=list)  # (kind, value, state)



@functools.lru_cache(None)
def _rel(path, repo):
    return os.path.relpath(path, repo)


@dataclass
class LoopDesc:
    id: int
    where: str
    length: Term | None
    var: Term | None
    locs: dict  # loc -> (init Term, mu Term, next Term)
    breaks: list  # list of (guard Term, {loc: Term})
    test: Term | None = None
    func: str = ""
    events: tuple = ()


class Frame:
    pass


ELEMENTWISE1 = {
    "log", "exp", "sqrt", "sign", "sinh", "cosh", "tanh", "arcsinh", "arctan",
    "sin", "cos", "tan", "digamma", "gammaln", "gamma", "floor", "ceil", "isnan",
    "isinf", "isfinite", "norm_cdf", "norm_ppf", "erf", "log10", "log2", "rint",
    "arccosh", "arctanh", "arcsin", "arccos", "expit", "logit", "ndtr", "ndtri", "erfinv", "erfc",
}


class Interp:
    def __init__(self, prog: Program, opaque=(), opaque_funcs=(), attr_types=None, elem_types=None):
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_funcs = set(opaque_funcs)
        self.attr_types = dict(attr_types or {})
        self._tyof, self._scal = {}, {}
        self.elem_types = dict(elem_types or {})
        self.attr_dicts = {}  # (attr name) -> length Term: pre-state dicts keyed 0..n-1
        self.events = []
        self.loops = {}
        self._oid = 0
        self._fid = 0
        self._ph = 0
        self.stack = []
        self.funcs_seen = set()
        self.defaults = {}
        self.depth = 0
        self.cur = ("?", 0)
        self.ncalls = 0
        self.warn_notes = set()
        self.aliases = {}
        self.default_state = None
        from . import libmodel
        self.lib = libmodel.LibModel(self)

    # ------------------------------------------------------------ helpers
    def new_oid(self):
        self._oid += 1
        return self._oid

    def placeholder(self, hint="i"):
        self._ph += 1
        return sym(f"{hint}${self._ph}", "int")

    def event(self, st, kind, *data):
        e = Event(kind, data, st.pc, tuple(self.stack), self.cur[0], self.cur[1], st.loops, len(self.events))
        self.events.append(e)
        if self.on_event is not None:
            self.on_event(st, e)
        return e

    on_event = None

    def reject_if(self, st, cond, what):
        """a library validator rejects the input under this condition"""
        if cond is not FALSE:
            pc = st.pc
            st.pc = pc + ((cond, True),)
            self.event(st, "reject", what)
            st.pc = pc

    def alloc(self, st, cell):
        o = self.new_oid()
        st.heap[o] = cell
        return Ref(o)

    def bind(self, st, v):
        """give identity to array-like terms when they are bound"""
        if isinstance(v, Term):
            if v.op == "objref":
                return Ref(v.args[0])
            if self.scalarish(v):
                return v
            return self.alloc(st, ArrC(v))
        return v

    def scalarish(self, t):
        r = self._scal.get(t.id)
        if r is None:
            r = self._scal[t.id] = self._scalarish(t)
        return r

    def _scalarish(self, t):
        if t.op in ("const", "undef", "class", "lib", "func", "slice", "dim", "len", "str", "fstr", "count_nonzero_all", "isinstance", "hasattr", "isnone", "call:type"):
            return True
        if t.op == "sym":
            return t.args[1] in ("scalar", "int", "str", "bool", "opaque")
        if t.op in ("add", "sub", "mul", "div", "pow", "neg", "lt", "le", "eq", "and", "or", "not", "max2", "min2", "abs", "mod", "floordiv") or t.op in ELEMENTWISE1:
            return all(self.scalarish(a) for a in t.args if isinstance(a, Term))
        if t.op == "ite":
            return self.scalarish(t.args[1]) and self.scalarish(t.args[2])
        if t.op in ("sum", "mean", "max", "min", "any", "all", "std", "var", "prod", "median", "argmin", "argmax") and len(t.args) > 1 and t.args[1] is NONE:
            return True
        if t.op in ("py_float", "py_int", "py_bool", "item", "forcedscalar"):
            return True
        if t.op == "attr":
            return t.args[1] in self.scalar_attrs
        return False

    scalar_attrs = {"n_params", "max_it_outer", "max_it_inner", "min_it_outer", "verbose", "debug", "forget", "ic", "criterion", "model_selection", "fit_intercept", "regularize_intercept", "n_observations_", "prefit_initial", "prefit_update", "abs_tol_outer", "abs_tol_inner", "rel_tol_outer", "rel_tol_inner", "cautious_updates", "cond_start_val", "lambda_n", "lambda_eps", "alpha", "early_stop", "tolerance", "max_iterations", "selection", "start_value_initial", "start_value_update", "dtype", "ndim", "value"}

    # ---- cell reading
    def read(self, st, ref):
        """Term content of a heap reference"""
        if isinstance(ref, PhiV):
            return ite(ref.cond, self.to_term(st, ref.a), self.to_term(st, ref.b))
        c = st.heap.get(ref.oid)
        if c is None:
            return mk("objref", ref.oid, "?")
        if isinstance(c, ArrC):
            return c.content
        if isinstance(c, ViewC):
            b = self.to_term(st, c.base)
            return self.view_read(b, c.op)
        if isinstance(c, DictC):
            args = []
            for k, v in c.entries:
                args.append(k)
                args.append(self.to_term(st, v))
            return mk("dictdisp", *args)
        if isinstance(c, ListC):
            return mk("list", *[self.to_term(st, v) for v in c.items])
        if isinstance(c, ObjC):
            if c.name is not None:
                return c.name
            return mk("objref", ref.oid, c.cls.name if c.cls else "?")
        raise Unsupported("cell")

    def view_read(self, b, op):
        if op[0] == "getitem":
            return self.lib.index(b, op[1])
        if op[0] == "op":
            return self.lib.viewop(op[1], b, *op[2:])
        if op[0] == "wrap":  # validX etc
            if b.op == op[1] and op[1] in ("validX", "validy"):
                return b
            return mk(op[1], b)
        if op[0] == "alias":
            return b
        raise Unsupported("view")

    def to_term(self, st, v):
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            return self.read(st, v)
        if isinstance(v, PhiV):
            return ite(v.cond, self.to_term(st, v.a), self.to_term(st, v.b))
        if isinstance(v, TupleV):
            return mk("tuple", *[self.to_term(st, x) for x in v.items])
        if isinstance(v, ClassV):
            return mk("class", v.cls.name)
        if isinstance(v, LibV):
            return self.lib.const_term(v.name)
        if isinstance(v, FuncV):
            return mk("func", v.func.qual)
        if isinstance(v, BoundV):
            return mk("boundmethod", self.to_term(st, v.selfv), v.func.name)
        if isinstance(v, ModV):
            return mk("module", v.mod.name)
        if isinstance(v, BoundLib):
            return mk("attr", self.to_term(st, v.recv), v.name)
        if isinstance(v, SymIter):
            return lam("lamseq", mk("range1", v.length), v.var, self.to_term(st, v.elem))
        raise Unsupported(f"to_term {type(v).__name__}")

    # ---- writes
    def owner_root(self, st, ref):
        seen = 0
        while True:
            if isinstance(ref, PhiV):
                return ("phi",)
            c = st.heap.get(ref.oid)
            if isinstance(c, ViewC):
                ref = c.base
                seen += 1
                continue
            return c.owner if c is not None else ("?",)

    def write_index(self, st, ref, idx, val, how="setitem"):
        if isinstance(ref, PhiV):
            tv = self.to_term(st, val)
            for cond, r in ((ref.cond, ref.a), (not_(ref.cond), ref.b)):
                if isinstance(r, Ref) or isinstance(r, PhiV):
                    old = self.to_term(st, r)
                    self.write_content(st, r, ite(cond, self.lib.setitem(old, idx, tv), old), ("setitem", idx))
            return
        c = st.heap[ref.oid]
        if isinstance(c, DictC):
            if is_key(idx):
                st.heap[ref.oid] = c.set(idx, val if not isinstance(val, Term) else self.bind(st, val))
                self.event(st, "write", ref.oid, c.owner, ("dict", idx))
                return
            content = self.read(st, ref)
            st.heap[ref.oid] = ArrC(self.lib.setitem(content, idx, self.to_term(st, val)), c.owner)
            self.event(st, "write", ref.oid, c.owner, ("dict", idx))
            return
        if isinstance(c, ListC):
            if is_const(idx) and isinstance(idx.args[0], int) and -len(c.items) <= idx.args[0] < len(c.items):
                items = list(c.items)
                items[idx.args[0]] = val
                st.heap[ref.oid] = ListC(tuple(items), c.owner)
            else:
                st.heap[ref.oid] = ArrC(self.lib.setitem(self.read(st, ref), idx, self.to_term(st, val)), c.owner)
            self.event(st, "write", ref.oid, c.owner, ("list", idx))
            return
        content = self.read(st, ref)
        self.write_content(st, ref, self.lib.setitem(content, idx, self.to_term(st, val)), ("setitem", idx))

    def write_content(self, st, ref, new, why):
        if isinstance(ref, PhiV):
            for cond, r in ((ref.cond, ref.a), (not_(ref.cond), ref.b)):
                if isinstance(r, (Ref, PhiV)):
                    old = self.to_term(st, r)
                    self.write_content(st, r, ite(cond, new, old), why)
            return
        c = st.heap[ref.oid]
        if isinstance(c, ViewC):
            base = self.to_term(st, c.base)
            if c.op[0] == "getitem":
                nb = self.lib.setitem(base, c.op[1], new)
            elif c.op[0] in ("wrap", "alias"):
                nb = new
            else:
                nb = mk("setview", base, *[x if isinstance(x, (Term, str, int)) else str(x) for x in c.op[1:]], new)
            self.write_content(st, c.base, nb, why)
            return
        if isinstance(c, ArrC):
            st.heap[ref.oid] = ArrC(new, c.owner)
        elif isinstance(c, (DictC, ListC)):
            st.heap[ref.oid] = ArrC(new, c.owner)
        else:
            raise Unsupported("write to object content")
        self.event(st, "write", ref.oid, c.owner, why)

    def own_attr(self, name):
        """is the attribute assigned by the code of the program itself (not by a library base class)?"""
        if self._own_attrs is None:
            Interp._own_attrs = {n.attr for m in self.prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        return name in self._own_attrs

    _own_attrs = None

    def set_attr(self, st, v, name, val):
        if isinstance(v, PhiV):
            for cond, r in ((v.cond, v.a), (not_(v.cond), v.b)):
                if isinstance(r, Ref) and isinstance(st.heap.get(r.oid), ObjC):
                    old = self.get_attr(st, r, name, missing=UNDEF)
                    self.set_attr(st, r, name, self.merge_val(st, cond, val, old, st, st))
            return
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ObjC):
                # property setter
                st.heap[v.oid] = c.set(name, val)
                self.event(st, "setattr", v.oid, c.owner, name)
                return
            self.event(st, "setattr", v.oid, self.owner_root(st, v), name)
            return
        if isinstance(v, ClassV):
            self.event(st, "classwrite", v.cls.name, name)
            return
        if isinstance(v, (ModV, LibV)):
            self.event(st, "globalwrite", getattr(v, "name", None) or v.mod.name, name)
            return
        self.event(st, "setattr_opaque", self.to_term(st, v), name)

    # ------------------------------------------------------------ attribute access
    def typeof(self, t):
        """class of an opaque term, if known"""
        if not isinstance(t, Term):
            return None
        try:
            return self._tyof[t.id]
        except KeyError:
            r = self._tyof[t.id] = self._typeof(t)
            return r

    def _typeof(self, t):
        n = None
        if t.op == "attr":
            n = self.attr_types.get(t.args[1])
        elif t.op == "typed":
            n = t.args[1]
        elif t.op == "getitem":
            b = t.args[0]
            if b.op == "attr":
                n = self.elem_types.get(b.args[1])
            elif b.op in ("lamdict", "mapdict", "lamseq"):
                return self.typeof(b.args[2])
            elif b.op == "ite":
                return self.typeof(mk("getitem", b.args[1], t.args[1])) or self.typeof(mk("getitem", b.args[2], t.args[1]))
            elif b.op == "setitem":
                return self.typeof(mk("getitem", b.args[0], t.args[1])) or self.typeof(b.args[2])
        elif t.op == "ite":
            return self.typeof(t.args[1]) or self.typeof(t.args[2])
        elif t.op in ("fcall", "new"):
            n = self.func_types.get(t.args[0]) if t.op == "fcall" else t.args[0]
        elif t.op == "copyobj":
            return self.typeof(t.args[0])
        elif t.op == "sym":
            n = self.attr_types.get("sym:" + str(t.args[0]))
        if n and n in self.prog.classes:
            return self.prog.classes[n]
        return None

    func_types = {"get_estimation_method": "EstimationMethod"}

    def opaque_root(self, cls):
        for c in cls.repo_mro():
            if c.name in self.opaque:
                return c
        return None

    def get_attr(self, st, v, name, missing=None):
        if isinstance(v, PhiV):
            a = self.get_attr(st, v.a, name, missing)
            b = self.get_attr(st, v.b, name, missing)
            return self.phi(v.cond, a, b)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ObjC):
                if name == "__class__":
                    return ClassV(c.cls)
                if name == "__dict__":
                    return mk("attr", self.read(st, v), "__dict__")
                val = c.get(name)
                if val is not None:
                    return val
                if c.cls is not None:
                    r = c.cls.lookup(name)
                    if r is None and c.name is not None and self.opaque_root(c.cls):
                        # interface operation every implementation provides although the base class does not declare it
                        r = next((d.lookup(name) for d in self.prog.classes.values()
                                  if d is not c.cls and c.cls in d.mro() and isinstance(d.lookup(name), Func)), None)
                    if isinstance(r, Func):
                        if r.is_property:
                            if self.opaque_root(c.cls) and c.name is not None:
                                return mk("attr", c.name, name)
                            return self.call_func(st, r, [v], {}, None)
                        if r.is_static:
                            return FuncV(r)
                        if r.is_class:
                            return BoundV(ClassV(c.cls), r, c.cls)
                        return BoundV(v, r, c.cls)
                    if r is not None:
                        return self.class_attr(st, r[0], name, r[1])
                if c.name is not None:
                    if missing is not None and c.owner[0] == "fresh":
                        return missing
                    # lazily materialise pre-state attribute
                    t = mk("attr", c.name, name)
                    val = self.materialise(st, t, name, c.owner)
                    st.heap[v.oid] = st.heap[v.oid].set(name, val)
                    return val
                if missing is not None:
                    return missing
                ext = [b for b in c.cls.mro() if not isinstance(b, Cls)] if c.cls else []
                if name in ("__class__",):
                    return ClassV(c.cls)
                self.event(st, "noattr", v.oid, c.cls.name if c.cls else "?", name)
                return mk("noattr", mk("objref", v.oid, c.cls.name), name, self.own_attr(name))
            if isinstance(c, (ArrC, ViewC, DictC, ListC)):
                return self.lib.attr(st, v, name)
        if isinstance(v, SuperV):
            r = v.dyn.lookup_after(v.cls, name)
            if isinstance(r, Func):
                if r.is_property:
                    return self.call_func(st, r, [v.selfv], {}, None)
                if r.is_static:
                    return FuncV(r)
                return BoundV(v.selfv, r, v.dyn)
            if r is not None:
                return self.class_attr(st, r[0], name, r[1])
            return BoundLib(v.selfv, "super." + name)
        if isinstance(v, ClassV):
            if name == "__name__":
                return const(v.cls.name)
            r = v.cls.lookup(name)
            if isinstance(r, Func):
                if r.is_class:
                    return BoundV(v, r, v.cls)
                return FuncV(r)
            if r is not None:
                return self.class_attr(st, r[0], name, r[1])
            return mk("attr", mk("class", v.cls.name), name)
        if isinstance(v, ModV):
            r = self.prog.resolve(v.mod, name)
            return self.global_value(st, r, v.mod, name)
        if isinstance(v, LibV):
            return self.lib.libattr(v.name, name)
        if isinstance(v, Term):
            return self.lib.attr(st, v, name)
        if isinstance(v, TupleV):
            return BoundLib(v, name)
        if isinstance(v, (BoundV, FuncV)):
            return BoundLib(v, name)
        if isinstance(v, BoundLib):
            return BoundLib(v, name)
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def materialise(self, st, t, name, owner=("pre",)):
        cls = self.prog.classes.get(self.attr_types.get(name, "")) if name in self.attr_types else None
        if cls is not None and not self.opaque_root(cls):
            return self.alloc(st, ObjC(cls, (), t, ("pre", name)))
        if cls is not None:
            return self.alloc(st, ObjC(cls, (), t, ("pre", name)))
        if name in self.attr_dicts:
            n = self.attr_dicts[name]
            ph = self.placeholder("k")
            return self.alloc(st, ArrC(lam("lamdict", mk("range1", n), ph, mk("getitem", t, ph)), ("pre", name)))
        if self.scalarish(t):
            return t
        return self.alloc(st, ArrC(t, ("pre", name)))

    def class_attr(self, st, cls, name, node):
        key = ("cattr", cls.module.name, cls.name, name)
        if key in self.defaults:
            val, cells = self.defaults[key]
            for o, c in cells.items():
                st.heap.setdefault(o, c)
            return val
        return self._static_eval(st, cls.module, node, key, cls)

    def _static_eval(self, st, module, node, key, cls=None):
        """evaluate a module/class level expression once; share identity"""
        s0 = State()
        self._fid += 1
        s0.frames[self._fid] = {}
        sv_stack, sv_cur = self.stack, self.cur
        ev = len(self.events)
        try:
            v = self.bind(s0, self.eval(s0, node, _Ctx(module, self._fid, cls)))
        finally:
            self.stack, self.cur = sv_stack, sv_cur
        del self.events[ev:]
        cells = {o: _tag(c, ("static", key[-1])) for o, c in s0.heap.items()}
        self.defaults[key] = (v, cells)
        for o, c in cells.items():
            st.heap.setdefault(o, c)
        return v

    def global_value(self, st, r, module, name):
        if isinstance(r, Func):
            return FuncV(r)
        if isinstance(r, Cls):
            return ClassV(r)
        if r is None:
            if name in BUILTINS:
                return LibV("builtins." + name)
            raise Unsupported(f"unresolved name {name} in {module.name}")
        if r[0] == "lib":
            return LibV(r[1])
        if r[0] == "mod":
            return ModV(r[1])
        if r[0] == "assign":
            key = ("glob", r[1].name, r[3])
            if key in self.defaults:
                val, cells = self.defaults[key]
                for o, c in cells.items():
                    st.heap.setdefault(o, c)
                return val
            return self._static_eval(st, r[1], r[2], key)
        if r[0] == "opaque":
            return sym(r[1], "opaque")
        raise Unsupported("global")

    # ------------------------------------------------------------ merging
    def phi(self, cond, a, b):
        if cond is TRUE:
            return a
        if cond is FALSE:
            return b
        if a is b or (type(a) is type(b) and isinstance(a, (Ref, ClassV, LibV)) and a == b):
            return a
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(cond, a, b)
        return PhiV(cond, a, b)

    def merge_val(self, st, cond, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return a
            return PhiV(cond, a, b)
        if isinstance(a, Term) and isinstance(b, Term):
            return ite(cond, a, b)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_val(st, cond, x, y, sa, sb) for x, y in zip(a.items, b.items)])
        if isinstance(a, (ClassV, LibV)) and a == b:
            return a
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.func is b.func:
            return a
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func is b.func and a.selfv == b.selfv:
            return a
        return PhiV(cond, a, b)

    def merge_states(self, cond, sa, sb, pc):
        """state = sa if cond else sb"""
        if sa is None:
            return sb
        if sb is None:
            return sa
        out = State()
        out.pc = pc
        out.loops = sa.loops
        heap = {}
        for o in sa.heap.keys() | sb.heap.keys():
            ca, cb = sa.heap.get(o), sb.heap.get(o)
            if ca is None:
                heap[o] = cb
            elif cb is None:
                heap[o] = ca
            elif ca is cb or ca == cb:
                heap[o] = ca
            else:
                heap[o] = self.merge_cell(cond, ca, cb, sa, sb, heap)
        out.heap = heap
        for f in sa.frames.keys() & sb.frames.keys():
            fa, fb = sa.frames[f], sb.frames[f]
            fr = {}
            for n in fa.keys() | fb.keys():
                a, b = fa.get(n, UNDEF), fb.get(n, UNDEF)
                fr[n] = self.merge_val(out, cond, a, b, sa, sb)
            out.frames[f] = fr
        return out

    def merge_cell(self, cond, ca, cb, sa, sb, heap):
        if isinstance(ca, ArrC) and isinstance(cb, ArrC):
            return ArrC(ite(cond, ca.content, cb.content), ca.owner)
        if isinstance(ca, ObjC) and isinstance(cb, ObjC) and ca.cls is cb.cls:
            names = [k for k, _ in ca.attrs]
            names += [k for k, _ in cb.attrs if k not in names]
            attrs = []
            for n in names:
                a, b = ca.get(n), cb.get(n)
                if a is None:
                    a = self._lazy_pre(ca, n, sa, b, sb, heap)
                if b is None:
                    b = self._lazy_pre(cb, n, sb, a, sa, heap)
                attrs.append((n, self.merge_val(None, cond, a, b, sa, sb)))
            return ObjC(ca.cls, tuple(attrs), ca.name, ca.owner)
        if isinstance(ca, DictC) and isinstance(cb, DictC):
            ks = [k for k, _ in ca.entries] + [k for k, _ in cb.entries if ca.get(k) is None]
            if len(ks) == len(ca.entries) == len(cb.entries):
                return DictC(tuple((k, self.merge_val(None, cond, ca.get(k), cb.get(k), sa, sb)) for k in ks), ca.owner)
        if isinstance(ca, ListC) and isinstance(cb, ListC) and len(ca.items) == len(cb.items):
            return ListC(tuple(self.merge_val(None, cond, x, y, sa, sb) for x, y in zip(ca.items, cb.items)), ca.owner)
        if isinstance(ca, ViewC) and isinstance(cb, ViewC) and ca == cb:
            return ca
        return ArrC(ite(cond, self._cell_term(ca, sa), self._cell_term(cb, sb)), ca.owner)

    def _cell_term(self, c, s):
        tmp = self.new_oid()
        s.heap[tmp] = c
        t = self.read(s, Ref(tmp))
        del s.heap[tmp]
        return t

    def _lazy_pre(self, cell, n, s, other, so, heap):
        """value of attribute n in a state that never touched it"""
        if cell.name is None:
            return UNDEF
        # if the other side's value is the lazily materialised pre-state cell,
        # it is the same (unmodified) cell on this side
        t = mk("attr", cell.name, n)
        if isinstance(other, Ref):
            oc = so.heap.get(other.oid)
            if oc is not None and getattr(oc, "owner", None) == ("pre", n):
                # materialised from pre-state: same identity here, with pre-state content
                if other.oid not in s.heap:
                    if isinstance(oc, ArrC):
                        if n in self.attr_dicts:
                            ph = self.placeholder("k")
                            cont = lam("lamdict", mk("range1", self.attr_dicts[n]), ph, mk("getitem", t, ph))
                        else:
                            cont = t
                        pre = ArrC(cont, oc.owner)
                        heap[other.oid] = pre if oc == pre else ArrC(oc.content, oc.owner)
                        if oc != pre:
                            s.heap[other.oid] = pre
                            heap[other.oid] = None
                            return _Pending(other)
                return other
        if self.scalarish(t):
            return t
        s0 = s
        o = self.new_oid()
        s.heap[o] = ArrC(t, ("pre", n))
        heap[o] = s.heap[o]
        return Ref(o)

    # ------------------------------------------------------------ functions
    def make_obj(self, st, cls, name=None, owner=("fresh",)):
        return self.alloc(st, ObjC(cls, (), name, owner))

    def construct(self, st, cls, args, kwargs):
        root = self.opaque_root(cls)
        if root is not None and cls.name in self.opaque:
            init = cls.lookup("__init__")
            bound = self.bind_terms(st, init, [UNDEF] + args, kwargs) if isinstance(init, Func) else None
            if bound is not None:
                items = []
                for k, v in bound.items():
                    if k == "self":
                        continue
                    items += [const(k), v]
                t = mk("new", cls.name, *items)
                self.event(st, "new", cls.name, t)
                return self.alloc(st, ObjC(cls, (), t, ("new", cls.name)))
        o = self.alloc(st, ObjC(cls, (), None, ("fresh",)))
        init = cls.lookup("__init__")
        if isinstance(init, Func):
            self.call_func(st, init, [o] + args, kwargs, None, dyn=cls)
        else:
            self.event(st, "new", cls.name, mk("objref", o.oid, cls.name))
        return o

    def bad_call(self, st, kwargs, why):
        """a call that does not fit the callee's signature raises TypeError"""
        if "**" in kwargs:
            raise Unsupported(why)
        self.event(st, "raise", "TypeError: " + why)
        raise _Dead()

    def bind_params(self, st, func, args, kwargs, ctx_mod):
        """Return ordered dict name->Value; defaults evaluated statically"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        for n in names:
            if args:
                out[n] = args.pop(0)
        if args:
            if a.vararg:
                out[a.vararg.arg] = TupleV(args)
            else:
                self.bad_call(st, kwargs, f"too many positional arguments for {func.qual}")
        elif a.vararg:
            out[a.vararg.arg] = TupleV([])
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in defaults:
                    out[n] = self.default_value(st, func, n, defaults[n])
                else:
                    self.bad_call(st, kwargs, f"missing argument {n} for {func.qual}")
        if kw:
            if a.kwarg:
                o = self.alloc(st, DictC(tuple((const(k), v) for k, v in kw.items())))
                out[a.kwarg.arg] = o
            elif "**" in kw:
                raise Unsupported("symbolic **kwargs")
            else:
                self.bad_call(st, kwargs, f"unexpected keyword {list(kw)} for {func.qual}")
        elif a.kwarg:
            out[a.kwarg.arg] = self.alloc(st, DictC(()))
        return out

    def default_value(self, st, func, n, node):
        key = ("def", func.module.name, func.qual, n)
        if key in self.defaults:
            val, cells = self.defaults[key]
            for o, c in cells.items():
                st.heap.setdefault(o, c)
            return val
        return self._static_eval(st, func.module, node, key, func.cls)

    def bind_terms(self, st, func, args, kwargs):
        b = self.bind_params(st, func, args, kwargs, func.module)
        return {k: self.to_term(st, v) for k, v in b.items()}

    def call_func(self, st, func, args, kwargs, closure_fid, dyn=None):
        """Interpret a package function on `st` (mutated in place to the merged exit state)."""
        if self.depth > 60:
            raise Unsupported("call depth")
        bound = self.bind_params(st, func, args, kwargs, func.module)
        self._fid += 1
        fid = self._fid
        env = {k: self.bind(st, v) for k, v in bound.items()}
        st.frames[fid] = env
        ctx = _Ctx(func.module, fid, func.cls, closure_fid, dyn, func)
        self.funcs_seen.add(func.module.name + "." + func.qual)
        self.ncalls += 1
        self.depth += 1
        self.stack.append(func.module.name + "." + func.qual)
        sv = self.cur
        base_pc = st.pc
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.eval(st, func.node.body, ctx)
                return v
            flow = self.exec_block(st, func.node.body, ctx)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur = sv
        exits = [(v, s) for k, v, s in flow.exits if k == "return"]
        if flow.normal is not None:
            exits.append((NONE, flow.normal))
        if not exits:
            raise _Dead()
        # fold exits into one gated state/value
        val, fs = self.fold_exits(exits, base_pc)
        st.frames, st.heap = fs.frames, fs.heap
        # survivors' assumptions (a raise on the other side) stay in the path condition
        st.pc = fs.pc if len(exits) == 1 else self._common_pc([s.pc for _, s in exits], base_pc)
        st.frames.pop(fid, None) if not self._closure_alive(fid) else None
        return val

    _alive = None

    def _closure_alive(self, fid):
        return self._alive is not None and fid in self._alive

    def _common_pc(self, pcs, base):
        out = list(base)
        i = len(base)
        while all(len(p) > i for p in pcs) and all(p[i] == pcs[0][i] for p in pcs):
            out.append(pcs[0][i])
            i += 1
        return tuple(out)

    def fold_exits(self, exits, base_pc):
        n = len(base_pc)
        if len(exits) == 1:
            return exits[0]
        lits = []
        for v, s in exits:
            lits.append([l for l in s.pc[n:]])
        # drop literals common to all (raise guards etc.)
        common = [l for l in lits[0] if all(l in ls for ls in lits)]
        lits = [[l for l in ls if l not in common] for ls in lits]
        val, st = exits[-1]
        known_after = []
        acc_v, acc_s = val, st
        # simplify guards left to right
        guards = []
        known = []
        for ls in lits[:-1]:
            g = [l for l in ls if l not in known]
            guards.append(and_(*[c if p else not_(c) for c, p in g]) if g else TRUE)
            if len(g) == 1:
                known.append((g[0][0], not g[0][1]))
        for (v, s), g in list(zip(exits[:-1], guards))[::-1]:
            acc_s2 = self.merge_states(g, s, acc_s, base_pc)
            acc_v = self.merge_val(acc_s2, g, v, acc_v, s, acc_s)
            acc_s = acc_s2
        return acc_v, acc_s

    def call(self, st, f, args, kwargs):
        if isinstance(f, PhiV):
            # evaluate both alternatives under their gates
            sa, sb = st.copy(), st.copy()
            sa.pc = st.pc + ((f.cond, True),)
            sb.pc = st.pc + ((f.cond, False),)
            va = vb = None
            try:
                va = self.call(sa, f.a, args, kwargs)
            except _Dead:
                sa = None
            try:
                vb = self.call(sb, f.b, args, kwargs)
            except _Dead:
                sb = None
            if sa is None and sb is None:
                raise _Dead()
            if sa is None or sb is None:
                s = sa or sb
                st.frames, st.heap, st.pc = s.frames, s.heap, s.pc
                return va if sa is not None else vb
            m = self.merge_states(f.cond, sa, sb, st.pc)
            st.frames, st.heap = m.frames, m.heap
            return self.merge_val(st, f.cond, va, vb, sa, sb)
        if isinstance(f, BoundV):
            root = self.opaque_root(f.cls) if isinstance(f.cls, Cls) else None
            if root is not None and f.func.cls is not None:
                return self.icall(st, root, f.selfv, f.func, args, kwargs)
            return self.call_func(st, f.func, [f.selfv] + list(args), kwargs, None, dyn=f.cls)
        if isinstance(f, FuncV):
            if f.func.cls is None and f.func.name in self.opaque_funcs:
                b = self.bind_terms(st, f.func, args, kwargs)
                t = mk("fcall", f.func.name, *[x for k, v in b.items() for x in (const(k), v)])
                self.event(st, "fcall", f.func.name, tuple(b.items()), t)
                return t
            if f.func.cls is not None:
                root = self.opaque_root(f.func.cls)
                if root is not None and f.func.is_static:
                    return self.icall(st, root, ClassV(f.func.cls), f.func, args, kwargs)
            return self.call_func(st, f.func, args, kwargs, f.fid)
        if isinstance(f, ClassV):
            return self.construct(st, f.cls, list(args), kwargs)
        if isinstance(f, LibV):
            return self.lib.call(st, f.name, list(args), kwargs)
        if isinstance(f, BoundLib):
            return self.lib.method(st, f.recv, f.name, list(args), kwargs)
        if isinstance(f, Ref):
            c = st.heap.get(f.oid)
            if isinstance(c, ObjC) and c.cls is not None:
                m = c.cls.lookup("__call__")
                if isinstance(m, Func):
                    return self.call(st, BoundV(f, m, c.cls), args, kwargs)
        if isinstance(f, (Term, Ref)):
            t = self.to_term(st, f)
            return mk("apply", t, *[self.to_term(st, a) for a in args])
        raise Unsupported(f"call {type(f).__name__}")

    def icall(self, st, root, selfv, func, args, kwargs):
        """uninterpreted interface call, arguments bound by the interface signature"""
        sig = root.lookup(func.name)
        if not isinstance(sig, Func):
            sig = func
        try:
            use = func if func.is_static else sig
            pre = [] if (func.is_static) else [selfv]
            b = self.bind_terms(st, use if not func.is_static else func, pre + list(args), kwargs)
        except Unsupported:
            b = self.bind_terms(st, func, ([] if func.is_static else [selfv]) + list(args), kwargs)
        names = [p for p in b if p != "self"]
        recv = self.to_term(st, selfv)
        # normalise order by sorted parameter name: signature order differs between classes
        items = []
        for k in sorted(names):
            items += [const(k), b[k]]
        t = mk("icall", f"{root.name}.{func.name}", recv, *items)
        self.event(st, "icall", f"{root.name}.{func.name}", recv, tuple((k, b[k]) for k in names), t)
        return t

    # ------------------------------------------------------------ statements
    def exec_block(self, st, stmts, ctx):
        flow = Flow(st)
        for s in stmts:
            if flow.normal is None:
                break
            try:
                f = self.exec_stmt(flow.normal, s, ctx)
            except _Dead:
                f = Flow(None)
            flow.exits += f.exits
            flow.normal = f.normal
        return flow

    def exec_stmt(self, st, s, ctx):
        self.cur = (_rel(ctx.module.path, self.prog.repo), s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        r = m(st, s, ctx)
        return r if r is not None else Flow(st)

    def s_Pass(self, st, s, ctx):
        return None

    def s_Expr(self, st, s, ctx):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(st, s.value, ctx)

    def s_Import(self, st, s, ctx):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            st.frames[ctx.fid][nm] = LibV(a.name if a.asname else nm)

    def s_ImportFrom(self, st, s, ctx):
        base = ctx.module._rel(s)
        for a in s.names:
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                st.frames[ctx.fid][a.asname or a.name] = self.global_value(st, r, ctx.module, a.name)
            else:
                st.frames[ctx.fid][a.asname or a.name] = LibV(base + "." + a.name)

    def s_FunctionDef(self, st, s, ctx):
        f = Func(ctx.module, s, None)
        if self._alive is None:
            self._alive = set()
        self._alive.add(ctx.fid)
        st.frames[ctx.fid][s.name] = FuncV(f, ctx.fid)

    def s_Return(self, st, s, ctx):
        v = self.eval(st, s.value, ctx) if s.value is not None else NONE
        return Flow(None, [("return", v, st)])

    def s_Break(self, st, s, ctx):
        return Flow(None, [("break", None, st)])

    def s_Continue(self, st, s, ctx):
        return Flow(None, [("continue", None, st)])

    def s_Raise(self, st, s, ctx):
        name = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                # evaluate the arguments for effects only
                for a in list(e.args) + [k.value for k in e.keywords]:
                    try:
                        self.eval(st, a, ctx)
                    except (Unsupported, _Dead):
                        pass
                name = ast.unparse(e.func)
            else:
                name = ast.unparse(e)
        self.event(st, "raise", name)
        return Flow(None)

    def s_Assert(self, st, s, ctx):
        t = self.truth(st, self.eval(st, s.test, ctx))
        if t is FALSE:
            self.event(st, "raise", "AssertionError")
            return Flow(None)
        if t is not TRUE:
            s2 = st.copy()
            s2.pc = st.pc + ((t, False),)
            self.event(s2, "raise", "AssertionError")
            st.pc = st.pc + ((t, True),)

    def s_Global(self, st, s, ctx):
        self.event(st, "globalwrite", ctx.module.name, ",".join(s.names))

    def s_Nonlocal(self, st, s, ctx):
        raise Unsupported("nonlocal")

    def s_Delete(self, st, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[ctx.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(st, t.value, ctx)
                i = self.to_term(st, self.eval(st, t.slice, ctx))
                if isinstance(b, Ref):
                    c = st.heap.get(b.oid)
                    if isinstance(c, DictC) and is_key(i):
                        st.heap[b.oid] = c.delete(i)
                        self.event(st, "write", b.oid, c.owner, ("del", i))
                    else:
                        self.write_content(st, b, mk("delitem", self.read(st, b), i), ("del", i))
            elif isinstance(t, ast.Attribute):
                o = self.eval(st, t.value, ctx)
                self.set_attr(st, o, t.attr, UNDEF)

    def s_Assign(self, st, s, ctx):
        v = self.eval(st, s.value, ctx)
        v = self.bind(st, v)
        for t in s.targets:
            self.assign(st, t, v, ctx)

    def s_AnnAssign(self, st, s, ctx):
        if s.value is not None:
            self.assign(st, s.target, self.bind(st, self.eval(st, s.value, ctx)), ctx)

    def s_AugAssign(self, st, s, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            load = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            load = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            load = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        ast.copy_location(load, t)
        old = self.eval(st, load, ctx)
        rhs = self.eval(st, s.value, ctx)
        new = self.binop(st, s.op, old, rhs)
        if isinstance(old, (Ref, PhiV)) and not isinstance(t, ast.Subscript):
            # arrays / lists are updated in place
            c = st.heap.get(old.oid) if isinstance(old, Ref) else None
            if isinstance(old, PhiV) or isinstance(c, (ArrC, ViewC)):
                self.write_content(st, old, self.to_term(st, new), ("aug",))
                if isinstance(t, ast.Attribute):
                    self.assign(st, t, old, ctx)
                return
            if isinstance(c, ListC):
                r = rhs
                items = None
                rc = st.heap.get(r.oid) if isinstance(r, Ref) else None
                if isinstance(rc, ListC):
                    items = rc.items
                elif isinstance(r, TupleV):
                    items = r.items
                if items is not None:
                    st.heap[old.oid] = ListC(c.items + tuple(items), c.owner)
                    self.event(st, "write", old.oid, c.owner, ("aug",))
                    return
        self.assign(st, t, self.bind(st, new), ctx)

    def assign(self, st, t, v, ctx):
        if isinstance(t, ast.Name):
            fid = ctx.fid
            st.frames[fid][t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value, ctx)
            self.set_attr(st, o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.eval(st, t.value, ctx)
            i = self.to_term(st, self.eval(st, t.slice, ctx))
            if isinstance(b, (Ref, PhiV)):
                self.write_index(st, b, i, v)
            elif isinstance(b, Term):
                # element of an opaque container: write through is unknown
                self.event(st, "write_opaque", b, i)
            else:
                raise Unsupported("subscript assignment")
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts), t.elts)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(st, e.value, x, ctx)
                else:
                    self.assign(st, e, self.bind(st, x), ctx)
        else:
            raise Unsupported("assign target")

    def unpack(self, st, v, n, elts=None):
        if isinstance(v, PhiV):
            a, b = self.unpack(st, v.a, n), self.unpack(st, v.b, n)
            return [self.phi(v.cond, x, y) for x, y in zip(a, b)]
        if isinstance(v, TupleV):
            if elts and any(isinstance(e, ast.Starred) for e in elts):
                raise Unsupported("starred unpack")
            if len(v.items) != n:
                raise Unsupported("unpack length")
            return list(v.items)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ListC) and len(c.items) == n:
                return list(c.items)
        t = self.to_term(st, v)
        return [getitem(t, const(i)) for i in range(n)]

    def s_If(self, st, s, ctx):
        c = self.truth(st, self.eval(st, s.test, ctx))
        c = self.under_pc(st, c)
        if c is TRUE:
            return self.exec_block(st, s.body, ctx)
        if c is FALSE:
            return self.exec_block(st, s.orelse, ctx)
        return self.branch(st, c, lambda x: self.exec_block(x, s.body, ctx), lambda x: self.exec_block(x, s.orelse, ctx))

    def under_pc(self, st, c):
        for l, p in st.pc:
            if l is c:
                return const(p)
            if not_(l) is c:
                return const(not p)
        if c.op == "not":
            r = self.under_pc(st, c.args[0])
            return not_(r)
        if c.op == "and":
            return and_(*[self.under_pc(st, x) for x in c.args])
        if c.op == "or":
            return or_(*[self.under_pc(st, x) for x in c.args])
        return c

    def branch(self, st, c, fa, fb):
        base = st.pc
        if c.op == "not":
            c, fa, fb = c.args[0], fb, fa
        sa, sb = st.copy(), st.copy()
        sa.pc = base + ((c, True),)
        sb.pc = base + ((c, False),)
        A = fa(sa)
        B = fb(sb)
        exits = A.exits + B.exits
        if A.normal is None and B.normal is None:
            return Flow(None, exits)
        if A.normal is None:
            return Flow(B.normal, exits)
        if B.normal is None:
            return Flow(A.normal, exits)
        pa, pb = A.normal.pc, B.normal.pc
        extra_a = pa[len(base) + 1:]
        extra_b = pb[len(base) + 1:]
        if extra_a or extra_b:
            ga = and_(*[x if p else not_(x) for x, p in extra_a])
            gb = and_(*[x if p else not_(x) for x, p in extra_b])
            g = ite(c, ga, gb) if not (ga is TRUE and gb is TRUE) else TRUE
            pc = base + (((g, True),) if g is not TRUE else ())
        else:
            pc = base
        m = self.merge_states(c, A.normal, B.normal, pc)
        # resolve pending cells
        self._fix_pending(m, c, A.normal, B.normal)
        return Flow(m, exits)

    def _fix_pending(self, m, c, sa, sb):
        for o, cell in list(m.heap.items()):
            if cell is None:
                ca, cb = sa.heap.get(o), sb.heap.get(o)
                if ca is None or cb is None:
                    m.heap[o] = ca or cb
                else:
                    m.heap[o] = self.merge_cell(c, ca, cb, sa, sb, m.heap)
        for o, cell in list(m.heap.items()):
            if isinstance(cell, ObjC) and any(isinstance(v, (_Pending,)) or (isinstance(v, PhiV) and (isinstance(v.a, _Pending) or isinstance(v.b, _Pending))) for _, v in cell.attrs):
                na = []
                for k, v in cell.attrs:
                    if isinstance(v, _Pending):
                        v = v.ref
                    elif isinstance(v, PhiV):
                        a = v.a.ref if isinstance(v.a, _Pending) else v.a
                        b = v.b.ref if isinstance(v.b, _Pending) else v.b
                        v = self.phi(v.cond, a, b)
                    na.append((k, v))
                m.heap[o] = ObjC(cell.cls, tuple(na), cell.name, cell.owner)

    def s_With(self, st, s, ctx):
        for i in s.items:
            v = self.eval(st, i.context_expr, ctx)
            if i.optional_vars is not None:
                self.assign(st, i.optional_vars, v, ctx)
        return self.exec_block(st, s.body, ctx)

    def s_Try(self, st, s, ctx):
        # an exception from a library call is a free choice; explicit raises happen exactly under their path condition
        free = sym(f"exc${ctx.module.name}:{self.stack[-1] if self.stack else ''}:{len(self.events)}", "opaque")
        pre = st.copy()
        ev0 = len(self.events)
        flow = self.exec_block(st, s.body, ctx)
        known = []
        for e in self.events[ev0:]:
            if e.kind == "raise" and any(self._catches(h, e.data[0]) for h in s.handlers):
                e.kind = "raise_caught"
                extra = e.pc[len(pre.pc):]
                known.append(and_(*[c if p else not_(c) for c, p in extra]) if extra else TRUE)
        c = or_(free, *known)
        if s.orelse and flow.normal is not None:
            f2 = self.exec_block(flow.normal, s.orelse, ctx)
            flow.exits += f2.exits
            flow.normal = f2.normal
        for h in s.handlers:
            hs = pre.copy()
            if c is not TRUE:
                hs.pc = hs.pc + ((c, True),)
            if h.name:
                hs.frames[ctx.fid][h.name] = sym("exc", "opaque")
            f3 = self.exec_block(hs, h.body, ctx)
            flow.exits += f3.exits
            if f3.normal is not None:
                if flow.normal is None:
                    flow.normal = f3.normal
                else:
                    m = self.merge_states(c, f3.normal, flow.normal, pre.pc)
                    self._fix_pending(m, c, f3.normal, flow.normal)
                    flow.normal = m
        if s.finalbody:
            if flow.normal is not None:
                f4 = self.exec_block(flow.normal, s.finalbody, ctx)
                flow.normal = f4.normal
                more = f4.exits
            else:
                more = []
            exits = []
            for kind, v, es in flow.exits:
                f5 = self.exec_block(es, s.finalbody, ctx)
                exits += f5.exits
                if f5.normal is not None:
                    exits.append((kind, v, f5.normal))
            flow.exits = exits + more
        return flow

    def _catches(self, h, name):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = {ast.unparse(t).split(".")[-1] for t in ts}
        if names & {"Exception", "BaseException"}:
            return True
        name = str(name).split(".")[-1]
        if name in ("KeyError", "IndexError"):
            return bool(names & {name, "LookupError"})
        if name == "AttributeError":
            return name in names
        # subclasses defined in the package may derive from the caught type
        return name in names or (name not in _BUILTIN_EXC and bool(names - {"KeyError", "IndexError", "LookupError", "AttributeError"}))

    def s_Match(self, st, s, ctx):
        """literal / wildcard / or patterns become an if-chain"""
        subj = ast.copy_location(ast.Name(id="$match", ctx=ast.Load()), s)
        st.frames[ctx.fid]["$match"] = self.bind(st, self.eval(st, s.subject, ctx))

        def cond(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=subj, ops=[ast.Eq()], comparators=[p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=subj, ops=[ast.Is()], comparators=[ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(op=ast.Or(), values=[cond(q) for q in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            raise Unsupported("match pattern")

        chain = []
        for case in reversed(s.cases):
            test = cond(case.pattern)
            if case.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, case.guard])
            chain = [ast.If(test=test, body=case.body, orelse=chain)]
        for n in chain:
            ast.copy_location(n, s)
            ast.fix_missing_locations(n)
        return self.exec_block(st, chain, ctx)

    # ------------------------------------------------------------ loops
    def s_For(self, st, s, ctx):
        it = self.iterate(st, self.eval(st, s.iter, ctx))
        if self.unroll and isinstance(it, SymIter) and is_const(it.length) and isinstance(it.length.args[0], int) and it.length.args[0] <= self.unroll:
            it = [subst(it.elem, {it.var: const(i)}) if isinstance(it.elem, Term) else it.elem for i in range(it.length.args[0])]
        if isinstance(it, list):
            flow = Flow(st)
            for v in it:
                if flow.normal is None:
                    break
                cur = flow.normal
                self.assign(cur, s.target, self.bind(cur, v), ctx)
                f = self.exec_block(cur, s.body, ctx)
                nxt = f.normal
                conts = [x for x in f.exits if x[0] == "continue"]
                brks = [x for x in f.exits if x[0] == "break"]
                rest = [x for x in f.exits if x[0] == "return"]
                flow.exits += rest
                states = [(None, z) for _, _, z in conts]
                if nxt is not None:
                    states.append((None, nxt))
                if states:
                    _, nxt = self.fold_exits(states, self._common_pc([z.pc for _, z in states], ())) if len(states) > 1 else states[0]
                else:
                    nxt = None
                if brks:
                    flow.exits += [("break_c", None, z) for _, _, z in brks]
                flow.normal = nxt
            bs = [x for x in flow.exits if x[0] == "break_c"]
            flow.exits = [x for x in flow.exits if x[0] != "break_c"]
            if flow.normal is not None and s.orelse:
                f = self.exec_block(flow.normal, s.orelse, ctx)
                flow.exits += f.exits
                flow.normal = f.normal
            if bs:
                states = [(None, z) for _, _, z in bs]
                if flow.normal is not None:
                    states.append((None, flow.normal))
                _, flow.normal = self.fold_exits(states, self._common_pc([z.pc for _, z in states], ()))
            return flow
        return self.sym_loop(st, s, ctx, it)

    columns = ()  # column names of the data frames of a scenario
    unroll = 0  # bound for loops whose trip count is decided by constants

    def s_While(self, st, s, ctx):
        if self.unroll:
            f = self.unrolled(st, s, ctx)
            if f is not None:
                return f
        return self.sym_loop(st, s, ctx, None)

    def unrolled(self, st, s, ctx):
        """expand a while loop that ends within the bound on every path; None if it does not"""
        mark, oid, nl = len(self.events), self._oid, getattr(self, "_loopn", 0)
        cur, outs, exits = st.copy(), [], []
        for _ in range(self.unroll + 1):
            test = self.under_pc(cur, self.truth(cur, self.eval(cur, s.test, ctx)))
            if test is FALSE:
                outs.append(cur)
                cur = None
                break
            if test is not TRUE:
                x = cur.copy()
                x.pc = x.pc + ((test, False),)
                outs.append(x)
                cur.pc = cur.pc + ((test, True),)
            f = self.exec_block(cur, s.body, ctx)
            outs += [z for k, _, z in f.exits if k == "break"]
            exits += [x for x in f.exits if x[0] == "return"]
            ends = [(None, z) for k, _, z in f.exits if k == "continue"] + ([(None, f.normal)] if f.normal is not None else [])
            if not ends:
                cur = None
                break
            cur = ends[0][1] if len(ends) == 1 else self.fold_exits(ends, self._common_pc([z.pc for _, z in ends], ()))[1]
        if cur is not None or s.orelse:
            del self.events[mark:]
            self._loopn = nl
            return None
        flow = Flow(None, exits)
        if outs:
            flow.normal = outs[0] if len(outs) == 1 else self.fold_exits([(None, z) for z in outs], self._common_pc([z.pc for z in outs], ()))[1]
        return flow

    def sym_loop(self, st, s, ctx, it):
        self._loopn = getattr(self, "_loopn", 0) + 1
        lid = self._loopn
        H = {}
        ev_mark = len(self.events)
        base_pc = st.pc
        oid_mark = self._oid
        for rounds in range(12):
            del self.events[ev_mark:]
            s0 = st.copy()
            s0.loops = st.loops + (lid,)
            for loc in H:
                self.havoc(s0, loc, lid, st)
            start = s0.copy()
            test = None
            exits0 = []
            if it is not None:
                self.assign(s0, s.target, self.bind(s0, it.elem), ctx)
            else:
                test = self.truth(s0, self.eval(s0, s.test, ctx))
                test = self.under_pc(s0, test)
                if test is not TRUE:
                    s0.pc = s0.pc + ((test, True),)
            f = self.exec_block(s0, s.body, ctx)
            ends = [(None, z) for k, _, z in f.exits if k == "continue"]
            if f.normal is not None:
                ends.append((None, f.normal))
            brks = [z for k, _, z in f.exits if k == "break"]
            rets = [(k, v, z) for k, v, z in f.exits if k == "return"]
            end = None
            if ends:
                _, end = self.fold_exits(ends, self._common_pc([z.pc for _, z in ends], ())) if len(ends) > 1 else ends[0]
            diff = set()
            for z in ([end] if end is not None else []) + brks:
                diff |= self.state_diff(start, z, st, oid_mark)
            new = [d for d in diff if d not in H]
            if not new:
                break
            for d in new:
                H[d] = True
        else:
            raise Unsupported("loop fixpoint")
        # build descriptor
        locs = {}
        for loc in H:
            ini = self.loc_term(st, loc)
            mu = self.loc_term(start, loc)
            nxt = self.loc_term(end, loc) if end is not None else UNDEF
            locs[loc] = (ini, mu, nxt)
        bl = []
        for z in brks:
            lits = z.pc[len(base_pc):]
            g = and_(*[c if p else not_(c) for c, p in lits])
            bl.append((g, {loc: self.loc_term(z, loc) for loc in H}))
        desc = LoopDesc(lid, f"{self.cur[0]}:{s.lineno}", it.length if it is not None else None, it.var if it is not None else None, locs, bl, test, self.stack[-1] if self.stack else "", tuple(self.events[ev_mark:]))
        self.loops[lid] = desc
        out = st.copy()
        # cells allocated in the loop stay readable
        for z in [end] + brks:
            if z is not None:
                for o, c in z.heap.items():
                    out.heap.setdefault(o, c)
        for loc in H:
            closed = self.close_idiom(desc, loc) if not bl and it is not None else None
            val = closed if closed is not None else self.loopval(lid, loc, desc)
            self.set_loc(out, loc, val, end)
        out.pc = base_pc
        if it is None and test is not None and test is not TRUE and not bl:
            pass
        flow = Flow(out, rets)
        if it is None and test is TRUE and not brks:
            flow.normal = None
        if s.orelse and flow.normal is not None:
            f2 = self.exec_block(flow.normal, s.orelse, ctx)
            flow.exits += f2.exits
            flow.normal = f2.normal
        return flow

    def loopval(self, lid, loc, desc):
        return mk("loopval", lid, repr(loc))

    def havoc(self, s, loc, lid, st0):
        if loc[0] == "env":
            _, fid, n = loc
            mu = mk("mu", lid, f"{n}")
            old = st0.frames.get(fid, {}).get(n, UNDEF)
            if isinstance(old, Term) and self.scalarish(old) and old is not UNDEF:
                s.frames[fid][n] = mk("forcedscalar", mu)
                s.frames[fid][n] = mu if False else mk("mus", lid, n)
            else:
                o = self.alloc(s, ArrC(mu, ("mu", n)))
                s.frames[fid][n] = o
        elif loc[0] == "cell":
            c = s.heap[loc[1]]
            s.heap[loc[1]] = ArrC(mk("mu", lid, f"cell{loc[1]}"), c.owner)
        elif loc[0] == "attr":
            c = s.heap[loc[1]]
            mu = mk("mu", lid, f"attr{loc[1]}.{loc[2]}")
            old = c.get(loc[2])
            if isinstance(old, Term) and self.scalarish(old):
                s.heap[loc[1]] = c.set(loc[2], mk("mus", lid, f"attr{loc[1]}.{loc[2]}"))
            else:
                o = self.alloc(s, ArrC(mu, ("mu", loc[2])))
                s.heap[loc[1]] = c.set(loc[2], o)

    def state_diff(self, a, b, st0, oid_mark):
        out = set()
        for fid, fa in a.frames.items():
            fb = b.frames.get(fid)
            if fb is None:
                continue
            for n in fa.keys() | fb.keys():
                x, y = fa.get(n, UNDEF), fb.get(n, UNDEF)
                if not self.same_val(a, b, x, y):
                    out.add(("env", fid, n))
        for o, ca in a.heap.items():
            cb = b.heap.get(o)
            if cb is None or ca is cb or ca == cb:
                continue
            if o not in st0.heap:
                continue
            if isinstance(ca, ObjC) and isinstance(cb, ObjC):
                for n in {k for k, _ in ca.attrs} | {k for k, _ in cb.attrs}:
                    x, y = ca.get(n), cb.get(n)
                    if x is None and y is not None:
                        # lazily materialised pre-state attribute?
                        if self._is_pre(b, ca, n, y):
                            continue
                        out.add(("attr", o, n))
                    elif y is None or not self.same_val(a, b, x, y):
                        out.add(("attr", o, n))
            elif isinstance(ca, ViewC) and isinstance(cb, ViewC):
                continue
            else:
                out.add(("cell", o))
        # pre-state attributes materialised inside the body and then modified
        for o, cb in b.heap.items():
            if o in a.heap:
                continue
            if isinstance(cb, ArrC) and cb.owner[0] == "pre":
                n = cb.owner[1]
                if not (cb.content.op == "attr" and cb.content.args[1] == n) and not (
                    n in self.attr_dicts and cb.content.op == "lamdict"
                ):
                    # force materialisation in the pre-loop state
                    for oo, cc in b.heap.items():
                        if isinstance(cc, ObjC) and isinstance(cc.get(n), Ref) and cc.get(n).oid == o and oo in st0.heap:
                            c0 = st0.heap[oo]
                            if c0.get(n) is None:
                                self.get_attr(st0, Ref(oo), n)
                                out.add(("cell", st0.heap[oo].get(n).oid))
        return out

    def _is_pre(self, s, cell, n, y):
        if cell.name is None:
            return False
        t = mk("attr", cell.name, n)
        if y is t:
            return True
        if isinstance(y, Ref):
            c = s.heap.get(y.oid)
            return getattr(c, "owner", None) == ("pre", n)
        return False

    def same_val(self, a, b, x, y):
        if x is y:
            return True
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y:
                return True
            return False
        if isinstance(x, (Term, TupleV)) and isinstance(y, (Term, TupleV)):
            try:
                return self.to_term(a, x) is self.to_term(b, y)
            except Unsupported:
                return False
        if type(x) is type(y) and isinstance(x, (ClassV, LibV)):
            return x == y
        if isinstance(x, FuncV) and isinstance(y, FuncV):
            return x.func is y.func
        if isinstance(x, PhiV) and isinstance(y, PhiV):
            return x.cond is y.cond and self.same_val(a, b, x.a, y.a) and self.same_val(a, b, x.b, y.b)
        return False

    def loc_term(self, s, loc):
        if loc[0] == "env":
            v = s.frames.get(loc[1], {}).get(loc[2], UNDEF)
            return self.to_term(s, v)
        if loc[0] == "cell":
            if loc[1] not in s.heap:
                return UNDEF
            return self.read(s, Ref(loc[1]))
        c = s.heap[loc[1]]
        v = c.get(loc[2])
        if v is None:
            if c.name is not None:
                return mk("attr", c.name, loc[2])
            return UNDEF
        return self.to_term(s, v)

    def set_loc(self, s, loc, t, end):
        if loc[0] == "env":
            old = s.frames.get(loc[1], {}).get(loc[2], UNDEF)
            if loc[1] in s.frames:
                if isinstance(old, Term) and old is not UNDEF and self.scalarish(old):
                    s.frames[loc[1]][loc[2]] = mk("forcedscalar", t) if not self.scalarish(t) else t
                else:
                    s.frames[loc[1]][loc[2]] = self.bind(s, t)
        elif loc[0] == "cell":
            c = s.heap[loc[1]]
            s.heap[loc[1]] = ArrC(t, c.owner)
        else:
            c = s.heap[loc[1]]
            old = c.get(loc[2])
            if isinstance(old, Term) and self.scalarish(old):
                s.heap[loc[1]] = c.set(loc[2], mk("forcedscalar", t) if not self.scalarish(t) else t)
            else:
                s.heap[loc[1]] = c.set(loc[2], self.bind(s, t))

    def close_idiom(self, desc, loc):
        """closed forms of map-building and accumulation loops"""
        ini, mu, nxt = desc.locs[loc]
        mus = {m for _, m, _ in desc.locs.values()}

        def free(t):
            return not any(x in mus for x in tm.leaves(t))

        n, var = desc.length, desc.var
        if nxt.op == "setitem" and nxt.args[0] is mu and nxt.args[1] is var and free(nxt.args[2]):
            if ini.op == "dictdisp" and not ini.args:
                return lam("lamdict", mk("range1", n), var, nxt.args[2])
            if ini.op in ("zeros", "ones", "empty", "full") or ini.op.endswith("_like"):
                return lam("lamseq", mk("range1", n), var, nxt.args[2])
            if ini.op == "lamdict" and ini.args[0] is mk("range1", n):
                return lam("lamdict", mk("range1", n), var, nxt.args[2])
        if nxt.op == "ite" and nxt.args[0] is mk("in", var, mu) and nxt.args[1] is mu and nxt.args[2].op == "setitem" \
                and nxt.args[2].args[0] is mu and nxt.args[2].args[1] is var and free(nxt.args[2].args[2]):
            # fill-missing-keys loop
            return mk("filldict", ini, lam("lamdict", mk("range1", n), var, nxt.args[2].args[2]))
        if nxt.op == "append" and nxt.args[0] is mu and free(nxt.args[1]):
            l = lam("lamseq", mk("range1", n), var, nxt.args[1])
            if ini.op == "list" and not ini.args:
                return l
            return mk("concat", ini, l)
        if nxt.op == "add" and (nxt.args[0] is mu or nxt.args[1] is mu):
            e = nxt.args[1] if nxt.args[0] is mu else nxt.args[0]
            if free(e):
                return add(ini, lam("sumover", mk("range1", n), var, e))
        return None

    # ------------------------------------------------------------ iteration
    def iterate(self, st, v):
        """list of Values, or SymIter"""
        if isinstance(v, SymIter):
            return v
        if isinstance(v, PhiV):
            a, b = self.iterate(st, v.a), self.iterate(st, v.b)
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                return [self.phi(v.cond, x, y) for x, y in zip(a, b)]
            t = self.to_term(st, v)
            return self.iter_term(st, t)
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ListC):
                return list(c.items)
            if isinstance(c, DictC):
                return [k for k, _ in c.entries]
            return self.iter_term(st, self.read(st, v))
        if isinstance(v, Term):
            return self.iter_term(st, v)
        raise Unsupported(f"iterate {type(v).__name__}")

    def iter_term(self, st, t):
        if t.op in ("tuple", "list"):
            return list(t.args)
        if t.op == "set" and all(is_const(x) for x in t.args):
            try:
                return sorted(t.args, key=lambda x: x.args[0])
            except TypeError:
                return list(t.args)
        if t.op == "array" and len(t.args) == 1 and isinstance(t.args[0], Term) and t.args[0].op in ("tuple", "list") and all(is_const(x) for x in t.args[0].args):
            return list(t.args[0].args)
        if t.op == "range":
            lo, hi, step = t.args
            if all(is_const(x) for x in t.args):
                r = range(lo.args[0], hi.args[0], step.args[0])
                if len(r) <= 64:
                    return [const(i) for i in r]
            ph = self.placeholder("i")
            if lo is const(0) and step is const(1):
                return SymIter(hi, ph, ph)
            if step is const(1):
                return SymIter(sub(hi, lo), ph, add(lo, ph))
            if step is const(-1):
                return SymIter(sub(lo, hi), ph, sub(lo, ph))
            return SymIter(mk("rangelen", lo, hi, step), ph, add(lo, mul(step, ph)))
        if t.op == "arange":
            return self.iter_term(st, mk("range", *t.args))
        if t.op == "lamseq" or t.op == "lamdict":
            dom, k, body = t.args
            n = dom.args[0]
            ph = self.placeholder("i")
            if t.op == "lamdict":
                return SymIter(n, ph, ph)
            return SymIter(n, ph, subst(body, {mk("bv", k): ph}))
        if is_const(t) and isinstance(t.args[0], str):
            return [const(ch) for ch in t.args[0]]
        if t.op == "dictdisp":
            return list(t.args[0::2])
        vals = self.fold(t)
        if vals is not None:
            return vals
        ph = self.placeholder("i")
        return SymIter(mk("dim", t, 0), ph, getitem(t, ph))

    def fold(self, t):
        """elements of a short sequence computed from constants alone"""
        if any(x.op in ("sym", "bv", "mu", "loopval", "obj", "param_obj") or not x.args and x.op not in ("tuple", "list") for x in tm.leaves(t)):
            return None
        from .evalt import Eval, Fault, Unknown
        try:
            v = Eval({}, {}, {})(t)
        except (Unknown, Fault, Exception):
            return None
        import numpy as np
        if isinstance(v, np.ndarray) and v.ndim == 1 and v.size <= 32 and v.dtype.kind in "iub":
            return [const(x) for x in v.tolist()]
        return None

    # ------------------------------------------------------------ expressions
    def truth(self, st, v):
        if isinstance(v, PhiV):
            return ite(v.cond, self.truth(st, v.a), self.truth(st, v.b))
        if isinstance(v, TupleV):
            return const(len(v.items) > 0)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, DictC):
                return const(len(c.entries) > 0)
            if isinstance(c, ListC):
                return const(len(c.items) > 0)
            if isinstance(c, ObjC):
                return TRUE
            return self.truth(st, self.read(st, v))
        if isinstance(v, (ClassV, FuncV, LibV, BoundV)):
            return TRUE
        if isinstance(v, Term):
            if is_const(v):
                return const(bool(v.args[0]))
            return self._truth_term(v)
        if isinstance(v, BoundLib):
            return self.to_term(st, v)
        raise Unsupported("truth")

    _truths = {}

    def _truth_term(self, v):
        if is_const(v):
            return const(bool(v.args[0]))
        if v.op == "ite":
            r = self._truths.get(v)
            if r is None:
                r = self._truths[v] = ite(v.args[0], self._truth_term(v.args[1]), self._truth_term(v.args[2]))
            return r
        if v.op == "py_bool":
            return v.args[0]
        if v.op in ("dictdisp", "list", "tuple"):
            return const(len(v.args) > 0)
        return v

    def eval(self, st, e, ctx):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        if hasattr(e, "lineno"):
            self.cur = (_rel(ctx.module.path, self.prog.repo), e.lineno)
        return m(st, e, ctx)

    def e_Constant(self, st, e, ctx):
        return const(e.value)

    def e_Name(self, st, e, ctx):
        fid = ctx.fid
        c = ctx
        fr = st.frames.get(fid, {})
        if e.id in fr:
            v = fr[e.id]
            if v is UNDEF:
                self.event(st, "unbound", e.id)
            return v
        cf = ctx.closure_fid
        if cf is not None and e.id in st.frames.get(cf, {}):
            return st.frames[cf][e.id]
        if ctx.func is not None and e.id in self._locals_of(ctx.func):
            self.event(st, "unbound", e.id)
            return UNDEF
        r = self.prog.resolve(ctx.module, e.id)
        return self.global_value(st, r, ctx.module, e.id)

    def _locals_of(self, func):
        c = getattr(func, "_locals", None)
        if c is None:
            c = set()
            todo = list(func.node.body) if not isinstance(func.node, ast.Lambda) else []
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    c.add(n.id)
                todo.extend(ast.iter_child_nodes(n))
            try:
                func._locals = c
            except Exception:
                pass
        return c

    def e_Attribute(self, st, e, ctx):
        return self.get_attr(st, self.eval(st, e.value, ctx), e.attr)

    def e_Tuple(self, st, e, ctx):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(st, self.eval(st, x.value, ctx))
                if not isinstance(it, list):
                    raise Unsupported("starred")
                out += it
            else:
                out.append(self.bind(st, self.eval(st, x, ctx)))
        return TupleV(out)

    def e_List(self, st, e, ctx):
        t = self.e_Tuple(st, e, ctx)
        return self.alloc(st, ListC(t.items))

    def e_Set(self, st, e, ctx):
        t = self.e_Tuple(st, e, ctx)
        return mk("set", *sorted([self.to_term(st, x) for x in t.items]))

    def e_Dict(self, st, e, ctx):
        ent = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(st, v, ctx)
                c = st.heap.get(src.oid) if isinstance(src, Ref) else None
                if isinstance(c, DictC):
                    for a, b in c.entries:
                        ent = [x for x in ent if x[0] is not a] + [(a, b)]
                    continue
                base = self.to_term(st, src)
                if not ent and len(e.keys) == 1:
                    return self.alloc(st, ArrC(base))
                if not ent:
                    t = base
                    rest = list(zip(e.keys, e.values))[1:]
                    for kk, vv in rest:
                        if kk is None:
                            raise Unsupported("dict **")
                        t = self.lib.setitem(t, self.to_term(st, self.eval(st, kk, ctx)), self.to_term(st, self.eval(st, vv, ctx)))
                    return self.alloc(st, ArrC(t))
                raise Unsupported("dict **")
            kt = self.to_term(st, self.eval(st, k, ctx))
            vv = self.bind(st, self.eval(st, v, ctx))
            ent = [x for x in ent if x[0] is not kt] + [(kt, vv)]
        return self.alloc(st, DictC(tuple(ent)))

    def e_Slice(self, st, e, ctx):
        f = lambda x: NONE if x is None else self.to_term(st, self.eval(st, x, ctx))
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, st, e, ctx):
        b = self.eval(st, e.value, ctx)
        i = self.eval(st, e.slice, ctx)
        return self.subscript(st, b, i)

    def subscript(self, st, b, i):
        if isinstance(b, PhiV):
            return self.phi(b.cond, self.subscript(st, b.a, i), self.subscript(st, b.b, i))
        if isinstance(i, PhiV):
            it = self.to_term(st, i)
        else:
            it = self.to_term(st, i)
        if isinstance(b, TupleV):
            if is_const(it) and isinstance(it.args[0], int):
                if not -len(b.items) <= it.args[0] < len(b.items):
                    self.event(st, "raise", "IndexError")
                    raise _Dead()
                return b.items[it.args[0]]
            if it.op == "slice" and all(is_const(a) for a in it.args):
                return TupleV(b.items[slice(*[a.args[0] for a in it.args])])
            return self.lift(st, getitem(self.to_term(st, b), it))
        if isinstance(b, Ref):
            c = st.heap.get(b.oid)
            if isinstance(c, DictC):
                if is_key(it):
                    v = c.get(it)
                    if v is not None:
                        return v
                    if all(is_key(k) for k, _ in c.entries):
                        self.event(st, "raise", "KeyError")
                        raise _Dead()
                    return mk("getitem", self.read(st, b), it)
                # symbolic key over a concrete dict
                t = mk("getitem", self.read(st, b), it)
                return t
            if isinstance(c, ListC):
                if is_const(it) and isinstance(it.args[0], int) and -len(c.items) <= it.args[0] < len(c.items):
                    return c.items[it.args[0]]
                if it.op == "slice" and all(is_const(a) for a in it.args):
                    return self.alloc(st, ListC(c.items[slice(*[a.args[0] for a in it.args])]))
                return self.lift(st, getitem(self.read(st, b), it))
            if isinstance(c, (ArrC, ViewC)):
                if self.lib.is_view_index(it):
                    return self.alloc(st, ViewC(b, ("getitem", it)))
                t = self.lib.index(self.read(st, b), it)
                r = self.lift(st, t)
                if isinstance(r, Term) and not self.scalarish(r):
                    # element of a container: keep the alias to the container
                    if t.op == "getitem" and not self.lib.is_fancy(it):
                        return self.elem_alias(st, b, it, t)
                return r
            if isinstance(c, ObjC):
                if c.name is not None:
                    return self.lift(st, getitem(c.name, it))
                m = c.cls.lookup("__getitem__") if c.cls else None
                if isinstance(m, Func):
                    return self.call(st, BoundV(b, m, c.cls), [i], {})
        if isinstance(b, Term):
            return self.lift(st, self.lib.index(b, it))
        if isinstance(b, (LibV, ClassV, BoundLib)):
            return mk("getitem", self.to_term(st, b), it)
        if isinstance(b, SymIter):
            return self.lift(st, getitem(self.to_term(st, b), it))
        raise Unsupported("subscript")

    def elem_alias(self, st, b, it, t):
        """element of an opaque container; remembers where it came from (owner)"""
        own = self.owner_root(st, b)
        cls = self.typeof(t)
        if cls is not None:
            return self.alloc(st, ObjC(cls, (), t, own))
        return self.alloc(st, ArrC(t, ("elem",) + own if own[0] in ("pre", "caller") else own))

    def lift(self, st, t):
        if isinstance(t, Term):
            if t.op == "objref" and t.args[0] in st.heap:
                return Ref(t.args[0])
            if t.op == "tuple":
                return TupleV([self.lift(st, a) for a in t.args])
            if t.op == "ite" and any(x.op == "objref" for x in t.args[1:]):
                return self.phi(t.args[0], self.lift(st, t.args[1]), self.lift(st, t.args[2]))
        return t

    def e_Starred(self, st, e, ctx):
        raise Unsupported("starred expr")

    def e_JoinedStr(self, st, e, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                try:
                    parts.append(self.to_term(st, self.eval(st, v.value, ctx)))
                except Unsupported:
                    parts.append(const("?"))
        if all(is_const(p) for p in parts):
            return const("".join(str(p.args[0]) for p in parts))
        return mk("fstr", *parts)

    def e_Lambda(self, st, e, ctx):
        if self._alive is None:
            self._alive = set()
        self._alive.add(ctx.fid)
        return FuncV(Func(ctx.module, e, None), ctx.fid)

    def e_IfExp(self, st, e, ctx):
        c = self.under_pc(st, self.truth(st, self.eval(st, e.test, ctx)))
        if c is TRUE:
            return self.eval(st, e.body, ctx)
        if c is FALSE:
            return self.eval(st, e.orelse, ctx)
        return self.gated(st, c, lambda s: self.eval(s, e.body, ctx), lambda s: self.eval(s, e.orelse, ctx))

    def gated(self, st, c, fa, fb):
        flip = False
        if c.op == "not":
            c, fa, fb = c.args[0], fb, fa
        sa, sb = st.copy(), st.copy()
        sa.pc = st.pc + ((c, True),)
        sb.pc = st.pc + ((c, False),)
        va = vb = None
        try:
            va = self.bind(sa, fa(sa))
        except _Dead:
            sa = None
        try:
            vb = self.bind(sb, fb(sb))
        except _Dead:
            sb = None
        if sa is None and sb is None:
            raise _Dead()
        if sa is None or sb is None:
            s = sa or sb
            st.frames, st.heap, st.pc = s.frames, s.heap, s.pc
            return va if sa is not None else vb
        m = self.merge_states(c, sa, sb, st.pc)
        self._fix_pending(m, c, sa, sb)
        st.frames, st.heap = m.frames, m.heap
        return self.merge_val(st, c, va, vb, sa, sb)

    def e_BoolOp(self, st, e, ctx):
        isand = isinstance(e.op, ast.And)

        def go(s, vals):
            v = self.eval(s, vals[0], ctx)
            if len(vals) == 1:
                return v
            t = self.under_pc(s, self.truth(s, v))
            if is_const(t):
                if bool(t.args[0]) == isand:
                    return go(s, vals[1:])
                return v if not isinstance(v, Term) or is_const(v) else t
            s2 = s.copy()
            # the remaining operands are evaluated under the gate
            base = s.pc
            s.pc = base + ((t, isand),)
            try:
                w = go(s, vals[1:])
            finally:
                s.pc = base
            tw = self.truth(s, w)
            return and_(t, tw) if isand else or_(t, tw)

        return go(st, e.values)

    def e_UnaryOp(self, st, e, ctx):
        v = self.eval(st, e.operand, ctx)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        t = self.to_term(st, v)
        if isinstance(e.op, ast.USub):
            return neg(t)
        if isinstance(e.op, ast.UAdd):
            return t
        return not_(t) if not tm._num(t) else const(~t.args[0])

    def e_BinOp(self, st, e, ctx):
        a = self.eval(st, e.left, ctx)
        b = self.eval(st, e.right, ctx)
        return self.binop(st, e.op, a, b)

    def binop(self, st, op, a, b):
        if isinstance(a, TupleV) and isinstance(b, TupleV) and isinstance(op, ast.Add):
            return TupleV(a.items + b.items)
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, ast.Add):
            ca, cb = st.heap.get(a.oid), st.heap.get(b.oid)
            if isinstance(ca, ListC) and isinstance(cb, ListC):
                return self.alloc(st, ListC(ca.items + cb.items))
        if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, ast.BitOr):
            ca, cb = st.heap.get(a.oid), st.heap.get(b.oid)
            if isinstance(ca, DictC) and isinstance(cb, DictC):
                out = ca
                for k, v in cb.entries:
                    out = out.set(k, v)
                return self.alloc(st, DictC(out.entries))
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and isinstance(st.heap.get(a.oid), ListC):
            n = self.to_term(st, b)
            if is_const(n):
                return self.alloc(st, ListC(st.heap[a.oid].items * n.args[0]))
            items = st.heap[a.oid].items
            if len(items) == 1 and not isinstance(items[0], (Ref, TupleV)):
                return self.alloc(st, ArrC(mk("full", n, self.to_term(st, items[0]))))
            return mk("listrep", self.to_term(st, a), n)
        x, y = self.to_term(st, a), self.to_term(st, b)
        if x.op == "set" and y.op == "set" and all(is_const(v) for v in x.args + y.args):
            l, r = set(x.args), set(y.args)
            if isinstance(op, ast.Sub):
                return mk("set", *sorted(l - r))
            if isinstance(op, ast.BitOr):
                return mk("set", *sorted(l | r))
            if isinstance(op, ast.BitAnd):
                return mk("set", *sorted(l & r))
        return self.lib.arith(type(op).__name__, x, y)

    def e_Compare(self, st, e, ctx):
        left = self.eval(st, e.left, ctx)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(st, r, ctx)
            out.append(self.compare(st, op, left, right))
            left = right
        return and_(*out)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, Term) and b is NONE:
                r = self.v_is_none(st, a)
            elif isinstance(a, Term) and a is NONE:
                r = self.v_is_none(st, b)
            else:
                x, y = self.to_term(st, a), self.to_term(st, b)
                r = TRUE if x is y else (cmp("eq", x, y) if is_const(x) and is_const(y) else mk("is", x, y))
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return r if isinstance(op, ast.In) else not_(r)
        x, y = self.to_term(st, a), self.to_term(st, b)
        n = {"Lt": "lt", "LtE": "le", "Gt": "gt", "GtE": "ge", "Eq": "eq", "NotEq": "ne"}[type(op).__name__]
        return self.lib.compare(n, x, y)

    def v_is_none(self, st, v):
        if isinstance(v, PhiV):
            return ite(v.cond, self.v_is_none(st, v.a), self.v_is_none(st, v.b))
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ArrC):
                return is_none(c.content)
            if isinstance(c, ViewC):
                return FALSE
            return FALSE
        if isinstance(v, Term):
            return is_none(v)
        return FALSE

    def contains(self, st, a, b):
        x = self.to_term(st, a)
        if isinstance(b, PhiV):
            return ite(b.cond, self.contains(st, a, b.a), self.contains(st, a, b.b))
        if isinstance(b, Ref):
            c = st.heap.get(b.oid)
            if isinstance(c, DictC):
                items = [k for k, _ in c.entries]
                return or_(*[cmp("eq", x, k) for k in items]) if items else FALSE
            if isinstance(c, ListC):
                return or_(*[cmp("eq", x, self.to_term(st, k)) for k in c.items]) if c.items else FALSE
            t = self.read(st, b)
        elif isinstance(b, TupleV):
            return or_(*[cmp("eq", x, self.to_term(st, k)) for k in b.items]) if b.items else FALSE
        else:
            t = self.to_term(st, b)
        if t.op in ("set", "list", "tuple"):
            return or_(*[cmp("eq", x, k) for k in t.args]) if t.args else FALSE
        if is_const(t) and is_const(x) and isinstance(t.args[0], str):
            return const(x.args[0] in t.args[0])
        if t.op == "keysof":
            t = t.args[0]
        if t.op == "range" and all(is_const(k) for k in t.args):
            if is_const(x):
                return const(x.args[0] in range(*[k.args[0] for k in t.args]))
            if len(t.args) <= 2:
                lo, hi = t.args if len(t.args) == 2 else (const(0), t.args[0])
                return and_(cmp("ge", x, lo), cmp("lt", x, hi))
        return mk("in", x, t)

    # comprehensions -----------------------------------------------------
    def _split_iter(self, st, v):
        """(cond, a, b) when the iterable is a choice between two iterables"""
        if isinstance(v, PhiV):
            a, b = self.iterate(st, v.a), self.iterate(st, v.b)
            if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
                return None
            return (v.cond, v.a, v.b)
        t = v
        if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), (ArrC, ViewC)):
            t = self.read(st, v)
        if isinstance(t, Term) and t.op == "ite":
            return t.args
        return None

    def comp_split(self, st, e, ctx, build):
        """build(preset) -> Value; distributes a comprehension over a choice of iterables"""
        def go(s, preset):
            try:
                return build(s, preset)
            except _SplitComp as sc:
                c, a, b = sc.parts
                return self.gated(s, c, lambda x: go(x, [a]), lambda x: go(x, [b]))
        return go(st, [])

    def comp(self, st, gens, ctx, leaf, preset=()):
        """yield list of (Value...) from concrete generators or ('sym', iter, value)"""
        out = []

        def go(s, k):
            if k == len(gens):
                out.append(leaf(s))
                return
            g = gens[k]
            it = preset[0] if (k == 0 and preset) else None
            if it is None:
                v0 = self.eval(s, g.iter, ctx)
                ph = self._split_iter(s, v0) if k == 0 else None
                if ph is not None:
                    raise _SplitComp(ph)
                it = self.iterate(s, v0)
            else:
                it = self.iterate(s, it)
            if isinstance(it, list):
                for v in it:
                    self.assign(s, g.target, self.bind(s, v), ctx)
                    cs = []
                    ok = TRUE
                    for c in g.ifs:
                        ok = and_(ok, self.truth(s, self.eval(s, c, ctx)))
                    if ok is FALSE:
                        continue
                    if ok is not TRUE:
                        raise Unsupported("symbolic comprehension filter")
                    go(s, k + 1)
                return
            raise _SymComp(it, k)

        # bindings of comprehension variables are local
        saved = dict(st.frames[ctx.fid])
        try:
            go(st, 0)
            return out
        except _SymComp as sc:
            if sc.k != 0 or len(gens) != 1:
                raise Unsupported("nested symbolic comprehension")
            it = sc.it
            g = gens[0]
            lp = st.loops
            self.assign(st, g.target, self.bind(st, it.elem), ctx)
            conds = [self.truth(st, self.eval(st, c, ctx)) for c in g.ifs]
            self._loopn = getattr(self, "_loopn", 0) + 1
            st.loops = lp + (self._loopn,)
            base = st.pc
            for c in conds:
                st.pc = st.pc + ((c, True),)
            try:
                v = leaf(st)
            finally:
                st.loops = lp
                st.pc = base
            return ("sym", it, v, and_(*conds) if conds else TRUE)
        finally:
            fr = st.frames[ctx.fid]
            for g in gens:
                for nme in [n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)]:
                    if nme in saved:
                        fr[nme] = saved[nme]
                    else:
                        fr.pop(nme, None)

    def e_ListComp(self, st, e, ctx):
        return self.comp_split(st, e, ctx, lambda s, p: self._ListComp(s, e, ctx, p))

    def _ListComp(self, st, e, ctx, preset):
        r = self.comp(st, e.generators, ctx, preset=preset, leaf=lambda s: self.bind(s, self.eval(s, e.elt, ctx)))
        if isinstance(r, tuple):
            _, it, v, c = r
            return self.alloc(st, ArrC(self.seq_of(st, it, v, c)))
        return self.alloc(st, ListC(tuple(r)))

    def seq_of(self, st, it, v, c):
        body = self.to_term(st, v)
        if c is not TRUE:
            return mk("filterseq", lam("lamseq", mk("range1", it.length), it.var, mk("tuple", c, body)))
        return lam("lamseq", mk("range1", it.length), it.var, body)

    def e_GeneratorExp(self, st, e, ctx):
        return self.comp_split(st, e, ctx, lambda s, p: self._GeneratorExp(s, e, ctx, p))

    def _GeneratorExp(self, st, e, ctx, preset):
        r = self.comp(st, e.generators, ctx, preset=preset, leaf=lambda s: self.bind(s, self.eval(s, e.elt, ctx)))
        if isinstance(r, tuple):
            _, it, v, c = r
            return self.seq_of(st, it, v, c)
        return TupleV(r)

    def e_SetComp(self, st, e, ctx):
        return self.comp_split(st, e, ctx, lambda s, p: self._SetComp(s, e, ctx, p))

    def _SetComp(self, st, e, ctx, preset):
        r = self.comp(st, e.generators, ctx, preset=preset, leaf=lambda s: self.to_term(s, self.eval(s, e.elt, ctx)))
        if isinstance(r, tuple):
            _, it, v, c = r
            return mk("setof", self.seq_of(st, it, v, c))
        return mk("set", *sorted(set(r)))

    def e_DictComp(self, st, e, ctx):
        return self.comp_split(st, e, ctx, lambda s, p: self._DictComp(s, e, ctx, p))

    def _DictComp(self, st, e, ctx, preset):
        r = self.comp(st, e.generators, ctx, preset=preset, leaf=lambda s: TupleV([self.to_term(s, self.eval(s, e.key, ctx)), self.bind(s, self.eval(s, e.value, ctx))]))
        if isinstance(r, tuple):
            _, it, v, c = r
            k, val = v.items
            body = self.to_term(st, val)
            if k is it.var and c is TRUE:
                return self.alloc(st, ArrC(lam("lamdict", mk("range1", it.length), it.var, body)))
            if k.op == "getitem" and k.args[0].op == "keysof" and k.args[1] is it.var and c is TRUE:
                # keyed by the keys of another mapping
                src = k.args[0].args[0]
                ph = self.placeholder("key")
                b2 = subst(body, {k: ph})
                if not tm.contains(b2, it.var):
                    return self.alloc(st, ArrC(lam("mapdict", src, ph, b2)))
            return self.alloc(st, ArrC(mk("dictfrom", lam("lamseq", mk("range1", it.length), it.var, mk("tuple", k, body)))))
        return self.alloc(st, DictC(tuple({x.items[0]: x.items[1] for x in r}.items())))

    def e_NamedExpr(self, st, e, ctx):
        v = self.bind(st, self.eval(st, e.value, ctx))
        self.assign(st, e.target, v, ctx)
        return v

    def e_Call(self, st, e, ctx):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = st.frames[ctx.fid]
            f = ctx.func
            first = f.node.args.args[0].arg
            sv = fr[first]
            dyn = ctx.dyn
            if dyn is None and isinstance(sv, Ref) and isinstance(st.heap.get(sv.oid), ObjC):
                dyn = st.heap[sv.oid].cls
            return SuperV(ctx.cls, sv, dyn or ctx.cls)
        f = self.eval(st, e.func, ctx)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(st, self.eval(st, a.value, ctx))
                if not isinstance(it, list):
                    raise Unsupported("*args symbolic")
                args += it
            else:
                args.append(self.bind_arg(st, self.eval(st, a, ctx)))
        kwargs = {}
        for k in e.keywords:
            v = self.bind_arg(st, self.eval(st, k.value, ctx))
            if k.arg is None:
                c = st.heap.get(v.oid) if isinstance(v, Ref) else None
                if isinstance(c, DictC) and all(is_const(a) for a, _ in c.entries):
                    for a, b in c.entries:
                        kwargs[a.args[0]] = b
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        self.cur = (_rel(ctx.module.path, self.prog.repo), e.lineno)
        return self.call(st, f, args, kwargs)

    def bind_arg(self, st, v):
        return v

    # ------------------------------------------------------------ entry
    def entry(self, func, self_cls=None, args=None, self_name="self", dyn=None, st=None, self_ref=None):
        """Run a function on symbolic arguments. args: name -> Value/Term."""
        st = st or State()
        argv = {}
        if self_cls is not None and not func.is_static:
            if self_ref is None:
                self_ref = self.alloc(st, ObjC(self_cls, (), sym(self_name, "opaque"), ("pre", "self")))
            argv[func.node.args.args[0].arg] = self_ref
        for k, v in (args or {}).items():
            if isinstance(v, Term) and not self.scalarish(v):
                v = self.alloc(st, ArrC(v, ("caller", k)))
            argv[k] = v
        names = func.params()
        pos = []
        kw = {k: v for k, v in argv.items() if k in names}
        try:
            val = self.call_func(st, func, [], kw, None, dyn=self_cls)
        except _Dead:
            val = None
        return val, st, self_ref


class _Pending:
    def __init__(self, ref):
        self.ref = ref


class _SplitComp(Exception):
    def __init__(self, parts):
        self.parts = parts


class _SymComp(Exception):
    def __init__(self, it, k):
        self.it = it
        self.k = k


_BUILTIN_EXC = {"ValueError", "TypeError", "KeyError", "IndexError", "RuntimeError", "NotImplementedError", "AttributeError", "ZeroDivisionError", "AssertionError", "ArithmeticError", "OverflowError"}


class _Dead(Exception):
    """every path raised"""


class _Ctx:
    __slots__ = ("module", "fid", "cls", "closure_fid", "dyn", "func")

    def __init__(self, module, fid, cls=None, closure_fid=None, dyn=None, func=None):
        self.module = module
        self.fid = fid
        self.cls = cls
        self.closure_fid = closure_fid
        self.dyn = dyn
        self.func = func


def _tag(c, owner):
    if isinstance(c, ObjC):
        return ObjC(c.cls, c.attrs, c.name, owner)
    if isinstance(c, DictC):
        return DictC(c.entries, owner)
    if isinstance(c, ListC):
        return ListC(c.items, owner)
    if isinstance(c, ArrC):
        return ArrC(c.content, owner)
    return c


BUILTINS = {
    "len", "range", "enumerate", "zip", "int", "float", "bool", "str", "isinstance", "hasattr", "getattr",
    "setattr", "max", "min", "abs", "sum", "any", "all", "sorted", "list", "tuple", "dict", "set", "print",
    "super", "type", "map", "filter", "round", "reversed", "ValueError", "NotImplementedError", "TypeError", "KeyError",
    "RuntimeWarning", "DeprecationWarning", "UserWarning", "Exception", "object", "callable", "repr", "id",
    "issubclass", "property", "staticmethod", "classmethod", "vars", "iter", "next", "slice", "AttributeError",
    "IndexError", "RuntimeError", "frozenset", "NotImplemented", "Ellipsis", "pow", "divmod", "format", "dir", "globals", "locals", "delattr", "complex", "bytes", "AssertionError", "ZeroDivisionError", "StopIteration", "FutureWarning", "ArithmeticError", "OverflowError", "hash",
}
