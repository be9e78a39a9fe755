"""Model of the library surface (numpy, scipy, sklearn validation, builtins).

Calls are mapped to value-graph operators; spelling variants of one operation
(np.sum(x) / x.sum(), np.clip / min(max()), np.where / if, keyword / positional)
map to the same operator.  Library calls without a specific model become an
uninterpreted operator carrying their dotted name.
"""
from __future__ import annotations

import math
import sys

from . import terms as tm
from .frontend import Cls, Func
from .terms import (FALSE, NONE, TRUE, UNDEF, Term, add, and_, cmp, const, div,
                    getitem, is_const, is_key, is_none, ite, lam, mk, mul, neg, not_,
                    or_, power, sub, subst, sym)

FULL = mk("slice", NONE, NONE, NONE)

CANON = {"np": "numpy", "sp": "scipy"}

UNARY = {
    "log": "log", "exp": "exp", "sqrt": "sqrt", "sign": "sign", "sinh": "sinh", "cosh": "cosh",
    "tanh": "tanh", "arcsinh": "arcsinh", "arctan": "arctan", "sin": "sin", "cos": "cos", "tan": "tan",
    "floor": "floor", "ceil": "ceil", "isnan": "isnan", "isinf": "isinf", "isfinite": "isfinite",
    "log10": "log10", "log2": "log2", "abs": "abs", "absolute": "abs", "fabs": "abs", "rint": "rint",
    "asinh": "arcsinh", "atan": "arctan", "arccosh": "arccosh", "arctanh": "arctanh", "arcsin": "arcsin", "arccos": "arccos",
}
SPECIAL1 = {
    "digamma": "digamma", "psi": "digamma", "gammaln": "gammaln", "loggamma": "gammaln", "gamma": "gamma",
    "erf": "erf", "erfc": "erfc", "expit": "expit", "logit": "logit", "ndtr": "ndtr", "ndtri": "ndtri", "erfinv": "erfinv",
}
BINARY = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
    "power": "Pow", "float_power": "Pow", "matmul": "MatMult", "mod": "Mod", "floor_divide": "FloorDiv",
    "logical_and": "BitAnd", "logical_or": "BitOr", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "remainder": "Mod",
}
BCMP = {"equal": "eq", "not_equal": "ne", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge"}
REDUCE = {"sum", "mean", "max", "min", "any", "all", "std", "var", "prod", "median", "argmin", "argmax", "count_nonzero", "cumsum", "cumprod", "nansum", "nanmean", "nanmax", "nanmin", "amax", "amin", "ptp", "nanargmin"}
ALIAS_RED = {"amax": "max", "amin": "min"}
SHAPES = {
    "norm": [], "t": ["df"], "gamma": ["a"], "beta": ["a", "b"], "johnsonsu": ["a", "b"], "lognorm": ["s"],
    "logistic": [], "expon": [], "gumbel_r": [], "gumbel_l": [], "invgauss": ["mu"], "invgamma": ["a"],
    "uniform": [], "bernoulli": ["p"], "weibull_min": ["c"], "chi2": ["df"], "laplace": [], "skewnorm": ["a"], "genlogistic": ["c"], "binom": ["n", "p"], "cauchy": [], "halfnorm": [], "pareto": ["b"], "poisson": ["mu"], "truncnorm": ["a", "b"],
}
INPLACE = {"fill", "sort", "partition", "put", "resize", "itemset", "setflags", "byteswap"}
LISTMUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse"}


def strip_wrap(t):
    while t.op in ("validX", "validy"):
        t = t.args[0]
    return t


class LibModel:
    def __init__(self, it):
        self.it = it

    # ------------------------------------------------------------ constants
    def const_term(self, name):
        n = self.canon(name)
        if n in ("numpy.inf", "math.inf", "numpy.Inf"):
            return const(float("inf"))
        if n in ("numpy.pi", "math.pi"):
            return sym("pi", "scalar")
        if n in ("numpy.nan", "math.nan"):
            return mk("nan")
        if n == "numpy.newaxis":
            return NONE
        if n == "sys.maxsize":
            return const(sys.maxsize)
        if n in ("numpy.e", "math.e"):
            return mk("exp", const(1))
        if n == "numpy.euler_gamma":
            return sym("euler_gamma", "scalar")
        return mk("lib", n)

    def canon(self, name):
        return name

    def libattr(self, libname, attr):
        from .interp import LibV
        n = libname + "." + attr
        t = self.const_term(n)
        if t.op != "lib":
            return t
        return LibV(n)

    # ------------------------------------------------------------ indexing
    def is_view_index(self, i):
        if i.op == "slice":
            return True
        if i.op == "tuple":
            # basic indexing only
            return any(a.op == "slice" or a is NONE for a in i.args) and not any(self._fancy1(a) for a in i.args)
        return i is NONE

    def _fancy1(self, a):
        if a.op in ("slice", "const", "ellipsis"):
            return False
        return not self.it.scalarish(a) and a.op not in ("mus", "loopval", "getitem", "bv")

    def is_fancy(self, i):
        if i.op == "tuple":
            return any(self._fancy1(a) for a in i.args)
        return self._fancy1(i)

    def norm_index(self, i):
        if i.op == "tuple":
            a = list(i.args)
            while len(a) > 1 and a[-1] is FULL:
                a.pop()
            if len(a) == 1:
                return a[0]
            return mk("tuple", *a)
        return i

    def index(self, b, i):
        i = self.norm_index(i)
        if i is FULL:
            return b
        if b.op == "shape":
            if is_const(i):
                return self.dim(b.args[0], i.args[0])
        if b.op == "setitem":
            j = b.args[1]
            if j is i:
                return b.args[2]
            if self.disjoint(i, j):
                return self.index(b.args[0], i)
        if b.op == "ite" and b.args[1].op in ("dictdisp",) and b.args[2].op in ("dictdisp",):
            return ite(b.args[0], self.index(b.args[1], i), self.index(b.args[2], i))
        return getitem(b, i)

    def disjoint(self, i, j):
        if i.op == "tuple" and j.op == "tuple" and len(i.args) == len(j.args):
            return any(self.disjoint(x, y) for x, y in zip(i.args, j.args))
        if is_const(i) and is_const(j) and isinstance(i.args[0], int) and isinstance(j.args[0], int):
            return i.args[0] != j.args[0] and (i.args[0] < 0) == (j.args[0] < 0)
        if is_const(i) and is_const(j) and isinstance(i.args[0], str) and isinstance(j.args[0], str):
            return i.args[0] != j.args[0]
        return False

    def dim(self, x, k):
        x = strip_wrap(x)
        if isinstance(k, int):
            if x.op == "T" and k in (0, 1):
                return self.dim(x.args[0], 1 - k)
            if x.op in ("zeros", "ones", "empty") and x.args[0].op == "tuple" and 0 <= k < len(x.args[0].args):
                return x.args[0].args[k]
            if x.op in ("zeros", "ones", "empty") and k == 0 and x.args[0].op != "tuple":
                return x.args[0]
            if x.op in ("zeros_like", "ones_like", "empty_like", "neg", "log", "exp", "sqrt", "abs"):
                return self.dim(x.args[0], k)
            if x.op == "setitem":
                return self.dim(x.args[0], k)
            if x.op == "lamseq" and k == 0:
                return x.args[0].args[0]
            if x.op == "arange" and k == 0 and x.args and all(is_const(a) and isinstance(a.args[0], int) for a in x.args):
                return const(len(range(*[a.args[0] for a in x.args])))
            if x.op in ("list", "tuple") and k == 0:
                return const(len(x.args))
        return mk("dim", x, k)

    def viewop(self, name, b, *extra):
        if name == "T" and b.op == "T":
            return b.args[0]
        return mk(name, b, *extra)

    def setitem(self, base, idx, val):
        idx = self.norm_index(idx)
        if not isinstance(val, Term):
            raise AssertionError
        if base.op == "setitem" and base.args[1] is idx:
            base = base.args[0]
        return mk("setitem", base, idx, val)

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, x, y):
        if op == "Add":
            return add(x, y)
        if op == "Sub":
            return sub(x, y)
        if op == "Mult":
            return mul(x, y)
        if op == "Div":
            return div(x, y)
        if op == "Pow":
            if is_const(y) and y.args[0] == 0.5:
                return mk("sqrt", x)
            return power(x, y)
        if op == "MatMult":
            return mk("matmul", x, y)
        if op == "BitOr":
            return or_(x, y)
        if op == "BitAnd":
            return and_(x, y)
        if op == "BitXor":
            return mk("xor", x, y)
        if op in ("FloorDiv", "Mod") and tm._num(x) and tm._num(y) and y.args[0] != 0:
            return const(x.args[0] // y.args[0] if op == "FloorDiv" else x.args[0] % y.args[0])
        if op == "Mod" and is_const(x) and isinstance(x.args[0], str):
            return mk("fstr", x, y)
        return mk(op.lower(), x, y)

    def compare(self, op, x, y):
        return cmp(op, x, y)

    def mm(self, op, a, b):
        if tm._num(a) and tm._num(b):
            return const((max if op == "max2" else min)(a.args[0], b.args[0]))
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(a) and not is_const(b) and b.id < a.id:
            a, b = b, a
        if tm._num(b) and math.isinf(b.args[0]):
            if (op == "max2") == (b.args[0] < 0):
                return a
        return mk(op, a, b)

    # ------------------------------------------------------------ attributes
    def attr(self, st, v, name):
        from .interp import ArrC, BoundLib, BoundV, DictC, ListC, Ref, ViewC
        it = self.it
        t = it.to_term(st, v)
        c = st.heap.get(v.oid) if isinstance(v, Ref) else None
        cls = it.typeof(t) if not isinstance(c, (DictC, ListC)) else None
        if cls is not None:
            r = cls.lookup(name)
            if isinstance(r, Func):
                if r.is_property:
                    return mk("attr", t, name)
                return BoundV(t, r, cls)
            if r is not None and it.opaque_root(cls) is None:
                return it.class_attr(st, r[0], name, r[1])
            return mk("attr", t, name)
        if name == "shape":
            return mk("shape", strip_wrap(t))
        if name == "T":
            if isinstance(v, Ref):
                return it.alloc(st, ViewC(v, ("op", "T")))
            return self.viewop("T", t)
        if name in ("ndim", "size", "dtype"):
            return mk("nd_" + name, t)
        if name in ("values",) and not isinstance(c, DictC) and t.op not in ("lamdict", "dictdisp", "setitem", "mu", "mapdict", "attr", "getitem", "ite", "loopval", "sym"):
            return t
        if t.op == "call" or t.op == "sym" and t.args[1] == "opaque":
            if name in ("x", "success", "message"):
                return mk("attr", t, name)
        return BoundLib(v, name)

    # ------------------------------------------------------------ calls
    def T(self, st, v):
        return self.it.to_term(st, v)

    def bindargs(self, names, args, kwargs):
        out = dict(zip(names, args))
        for k, v in kwargs.items():
            out[k] = v
        return out

    def call(self, st, name, args, kwargs):
        from .interp import (ArrC, BoundLib, ClassV, DictC, FuncV, LibV, ListC,
                             ObjC, PhiV, Ref, SymIter, TupleV, Unsupported, ViewC)
        it = self.it
        parts = name.split(".")
        if parts[0] == "builtins" and len(parts) > 2:
            if parts[1:] == ["dict", "fromkeys"] and not kwargs:
                x = it.iterate(st, args[0])
                v = args[1] if len(args) > 1 else NONE
                if isinstance(x, list):
                    d = DictC(())
                    for k in x:
                        d = d.set(self.T(st, k), v)
                    return it.alloc(st, d)
                if self.T(st, x.elem) is x.var:
                    return it.alloc(st, ArrC(lam("lamdict", mk("range1", x.length), x.var, self.T(st, v))))
            raise Unsupported(name)
        if parts[0] == "builtins":
            return self.builtin(st, parts[1], args, kwargs)
        last = parts[-1]
        if name.startswith("copy."):
            return self.copy(st, args[0])
        if name in ("warnings.warn",):
            it.event(st, "warn", *[self.T(st, a) for a in args[:1]])
            return NONE
        if last in ("validate_data", "check_X_y", "check_array") and "sklearn" in name:
            return self.validate(st, last, args, kwargs)
        if last == "_check_sample_weight":
            b = self.bindargs(["sample_weight", "X"], args, kwargs)
            it.event(st, "mayraise", last, (self.T(st, b["sample_weight"]), self.T(st, b["X"])))
            sw = b["sample_weight"]
            if isinstance(sw, PhiV):
                return it.gated(st, sw.cond, *[lambda s, v=v: self.call(s, name, [v, b["X"]], {}) for v in (sw.a, sw.b)])
            if isinstance(sw, Term) and sw.op == "ite" and any(v is NONE for v in sw.args[1:]):
                return it.gated(st, sw.args[0], *[lambda s, v=v: self.call(s, name, [v, b["X"]], {}) for v in sw.args[1:]])
            if isinstance(sw, Term) and sw is NONE:
                return mk("ones", self.dim(self.T(st, b["X"]), 0))
            ts = self.T(st, sw)
            if not is_const(ts):
                it.reject_if(st, mk("any", not_(mk("isfinite", ts)), NONE), "ValueError: sample_weight contains NaN or infinity")
                it.reject_if(st, cmp("ne", self.dim(ts, 0), self.dim(self.T(st, b["X"]), 0)), "ValueError: wrong number of sample weights")
            if isinstance(sw, (Ref, PhiV)):
                return it.alloc(st, ViewC(sw, ("wrap", "sw")))
            return mk("sw", self.T(st, sw))
        if last in ("check_is_fitted", "type_of_target"):
            it.event(st, "mayraise", last, (self.T(st, args[0] if args else next(iter(kwargs.values()))),))
            if last == "check_is_fitted":
                it.event(st, "check_fitted", self.T(st, args[0]))
            return NONE
        if parts[0] == "numba":
            if last == "prange":
                return self.builtin(st, "range", args, kwargs)
            return mk("lib", name)
        if parts[0] == "numpy":
            return self.numpy(st, name, parts, args, kwargs)
        if name.startswith("scipy.special."):
            return self.special(st, name, last, args, kwargs)
        if name.startswith("scipy.stats."):
            return self.stats(st, name, parts, args, kwargs)
        if parts[0] == "math":
            if last in UNARY or last in ("pow", "log1p", "expm1"):
                return self.numpy(st, "numpy." + {"pow": "power"}.get(last, last), ["numpy", {"pow": "power"}.get(last, last)], args, kwargs)
            if last == "lgamma":
                return mk("gammaln", self.T(st, args[0]))
        if name in ("scipy.optimize.minimize", "scipy.optimize.minimize_scalar"):
            return self.minimize(st, name, args, kwargs)
        if name == "numbers" or parts[0] in ("typing", "importlib"):
            return mk("lib", name)
        return self.generic(st, name, args, kwargs)

    def generic(self, st, name, args, kwargs):
        ks = sorted(k for k in kwargs)
        it = self.it
        a = [self.T(st, x) for x in args] + [self.T(st, kwargs[k]) for k in ks]
        it.event(st, "libcall", name, tuple(a))
        if ".random." in name or name.endswith(".rvs"):
            it.event(st, "random", name)
        return mk("call", name, ",".join(ks), *a)

    def minimize(self, st, name, args, kwargs):
        """the optimiser is uninterpreted; what is extracted is the objective as a function of the decision"""
        from .interp import TupleV
        it = self.it
        b = self.bindargs(["fun", "x0", "args", "method", "jac", "hess", "hessp", "bounds"] if name.endswith("minimize") else ["fun", "bracket", "bounds", "args", "method"], args, kwargs)
        extra = b.get("args", NONE)
        extra = list(extra.items) if isinstance(extra, TupleV) else [] if isinstance(extra, Term) and extra is NONE else [extra]
        it.nmin = getattr(it, "nmin", 0) + 1
        x = sym(f"opt$x{it.nmin}")
        s2 = st.copy()
        obj = it.to_term(s2, it.call(s2, b["fun"], [x] + extra, {}))
        x0 = self.T(st, b["x0"]) if "x0" in b else NONE
        bounds = self.T(st, b["bounds"]) if "bounds" in b else NONE
        t = mk("minimize", name, obj, x, x0, bounds)
        it.event(st, "minimize", t)
        return t

    def copy(self, st, v):
        from .interp import ArrC, DictC, ListC, ObjC, PhiV, Ref, ViewC
        it = self.it
        if isinstance(v, PhiV):
            return it.phi(v.cond, self.copy(st, v.a), self.copy(st, v.b))
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ObjC):
                nm = mk("copyobj", c.name) if c.name is not None else None
                return it.alloc(st, ObjC(c.cls, c.attrs, nm, ("fresh",)))
            if isinstance(c, DictC):
                return it.alloc(st, DictC(c.entries))
            if isinstance(c, ListC):
                return it.alloc(st, ListC(c.items))
            return it.alloc(st, ArrC(it.read(st, v)))
        if isinstance(v, Term):
            cls = it.typeof(v)
            if cls is not None:
                return mk("copyobj", v)
        return v

    def validate(self, st, last, args, kwargs):
        from .interp import ObjC, PhiV, Ref, TupleV, ViewC
        it = self.it
        names = ["estimator", "X", "y"] if last == "validate_data" else ["X", "y"]
        b = self.bindargs(names, args, kwargs)
        it.event(st, "mayraise", last, tuple(self.T(st, b[k]) for k in ("X", "y") if k in b))
        it.event(st, "validate", last, tuple(sorted((k, self.T(st, v)) for k, v in b.items() if k not in ("estimator",))))
        copying = self.T(st, b["copy"]) if "copy" in b else FALSE

        def wrap(v, w):
            if isinstance(v, (Ref, PhiV)) and copying is not TRUE:
                return it.alloc(st, ViewC(v, ("wrap", w)))
            t = self.T(st, v)
            return t if t.op == w else mk(w, t)

        y = b.get("y")
        X = wrap(b["X"], "validX")
        est = b.get("estimator")
        tx = self.T(st, b["X"])
        fin = self.T(st, b.get("ensure_all_finite", b.get("force_all_finite", TRUE)))
        bad = lambda t: mk("any", not_(mk("isfinite", t)), NONE)
        arrays = [tx] + ([self.T(st, y)] if y is not None and y is not NONE and last != "check_array" else [])
        if fin is TRUE:
            for t in arrays:
                it.reject_if(st, bad(t), "ValueError: input contains NaN or infinity")
        if len(arrays) == 2:
            it.reject_if(st, cmp("ne", self.dim(tx, 0), self.dim(arrays[1], 0)), "ValueError: inconsistent numbers of samples")
        if isinstance(est, Ref) and isinstance(st.heap.get(est.oid), ObjC) and "reset" in b and self.T(st, b["reset"]) is FALSE:
            k = st.heap[est.oid].get("n_features_in_")
            if k is not None:
                it.reject_if(st, cmp("ne", self.dim(tx, 1), self.T(st, k)), "ValueError: wrong number of features")
        if isinstance(est, Ref) and isinstance(st.heap.get(est.oid), ObjC) and ("reset" not in b or self.T(st, b["reset"]) is TRUE):
            st.heap[est.oid] = st.heap[est.oid].set("n_features_in_", getitem(mk("shape", self.T(st, X)), const(1)))
            if it.columns:  # the scenario is about data frames with these columns
                st.heap[est.oid] = st.heap[est.oid].set("feature_names_in_", TupleV([const(c) for c in it.columns]))
        if y is None or (isinstance(y, Term) and y is NONE) or last == "check_array":
            return X
        return TupleV([X, wrap(y, "validy")])

    # ---- numpy
    def numpy(self, st, name, parts, args, kwargs):
        from .interp import (ArrC, DictC, LibV, ListC, ObjC, PhiV, Ref, SymIter,
                             TupleV, Unsupported, ViewC)
        it = self.it
        fn = parts[-1]
        sub_ = parts[1] if len(parts) > 2 else None
        T = lambda v: self.T(st, v)
        if sub_ == "linalg":
            if fn in ("inv", "matrix_rank"):
                return mk(fn, T(args[0] if args else list(kwargs.values())[0]))
            return self.generic(st, name, args, kwargs)
        if sub_ == "random":
            return self.generic(st, name, args, kwargs)
        if sub_ is not None:
            return self.generic(st, name, args, kwargs)
        outkw = kwargs.pop("out", None) if "out" in kwargs else None
        if outkw is not None and not (isinstance(outkw, Term) and outkw is NONE):
            r = self.numpy(st, name, parts, args, kwargs)
            if isinstance(outkw, (Ref, PhiV)):
                it.write_content(st, outkw, T(r), ("out",))
            return outkw
        if fn in UNARY and len(args) == 1 and not kwargs:
            x = T(args[0])
            if fn in ("abs", "absolute", "fabs") and tm._num(x):
                return const(abs(x.args[0]))
            return mk(UNARY[fn], x)
        if fn in UNARY and not args and len(kwargs) == 1:
            return mk(UNARY[fn], T(list(kwargs.values())[0]))
        if fn == "log1p":
            return mk("log", add(const(1), T(args[0])))
        if fn == "expm1":
            return sub(mk("exp", T(args[0])), const(1))
        if fn == "square":
            return power(T(args[0]), const(2))
        if fn == "reciprocal":
            return div(const(1), T(args[0]))
        if fn == "negative":
            return neg(T(args[0]))
        if fn == "logical_not" or fn == "invert":
            return not_(T(args[0]))
        if fn in BINARY and len(args) == 2:
            return self.arith(BINARY[fn], T(args[0]), T(args[1]))
        if fn in BCMP and len(args) == 2:
            return cmp(BCMP[fn], T(args[0]), T(args[1]))
        if fn in ("maximum", "fmax"):
            return self.mm("max2", T(args[0]), T(args[1]))
        if fn in ("minimum", "fmin"):
            return self.mm("min2", T(args[0]), T(args[1]))
        if fn == "clip":
            b = self.bindargs(["a", "a_min", "a_max"], args, kwargs)
            return self.clip(T(b["a"]), T(b.get("a_min", b.get("min", NONE))), T(b.get("a_max", b.get("max", NONE))))
        if fn == "where":
            b = self.bindargs(["condition", "x", "y"], args, kwargs)
            if "x" in b:
                return ite(self.elem_truth(T(b["condition"])), T(b["x"]), T(b["y"]))
            return self.generic(st, name, args, kwargs)
        if fn in REDUCE:
            fn = ALIAS_RED.get(fn, fn)
            order = {"std": ["a", "axis", "dtype", "out", "ddof"], "var": ["a", "axis", "dtype", "out", "ddof"]}.get(fn, ["a", "axis"])
            b = self.bindargs(order, args, kwargs)
            return self.reduce(fn, T(b["a"]), {k: T(v) for k, v in b.items() if k != "a"})
        if fn == "average":
            b = self.bindargs(["a", "axis", "weights"], args, kwargs)
            w = T(b.get("weights", NONE))
            if w is NONE:
                return mk("mean", T(b["a"]), T(b.get("axis", NONE)))
            return mk("average", T(b["a"]), T(b.get("axis", NONE)), w)
        if fn in ("zeros", "ones", "empty"):
            b = self.bindargs(["shape", "dtype"], args, kwargs)
            sh = T(b["shape"])
            if sh.op == "tuple" and len(sh.args) == 1:
                sh = sh.args[0]
            return mk(fn, sh)
        if fn == "full":
            b = self.bindargs(["shape", "fill_value"], args, kwargs)
            return mk("full", T(b["shape"]), T(b["fill_value"]))
        if fn in ("zeros_like", "ones_like", "empty_like"):
            return mk(fn, T(args[0] if args else kwargs["a"]))
        if fn == "full_like":
            b = self.bindargs(["a", "fill_value"], args, kwargs)
            return mk(fn, T(b["a"]), T(b["fill_value"]))
        if fn == "arange":
            a = [T(x) for x in args]
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            return mk("arange", *a)
        if fn == "repeat":
            b = self.bindargs(["a", "repeats", "axis"], args, kwargs)
            return mk("repeat", T(b["a"]), T(b["repeats"]), T(b.get("axis", NONE)))
        if fn == "tile":
            b = self.bindargs(["A", "reps"], args, kwargs)
            return mk("tile", T(b["A"]), T(b["reps"]))
        if fn == "outer":
            b = self.bindargs(["a", "b"], args, kwargs)
            return mk("outer", T(b["a"]), T(b["b"]))
        if fn == "dot":
            return mk("dot", T(args[0]), T(args[1]))
        if fn == "diag":
            return mk("diag", T(args[0]))
        if fn == "geomspace":
            b = self.bindargs(["start", "stop", "num", "endpoint"], args, kwargs)
            return mk("geomspace", T(b["start"]), T(b["stop"]), T(b.get("num", const(50))), T(b.get("endpoint", TRUE)))
        if fn == "expand_dims":
            b = self.bindargs(["a", "axis"], args, kwargs)
            ax = T(b["axis"])
            if isinstance(b["a"], Ref):
                return it.alloc(st, ViewC(b["a"], ("op", "expand_dims", ax)))
            return mk("expand_dims", T(b["a"]), ax)
        if fn == "transpose" and len(args) == 1:
            return self.attr(st, args[0], "T")
        if fn in ("squeeze", "ravel", "reshape"):
            return self.method(st, args[0], fn, args[1:], kwargs)
        if fn in ("copy", "array"):
            v = args[0] if args else list(kwargs.values())[0]
            t = T(v)
            dt = kwargs.get("dtype", args[1] if fn == "array" and len(args) > 1 else NONE)
            if fn == "array" and "copy" in kwargs and T(kwargs["copy"]) is FALSE and self.cast(t, T(dt)) is t:
                return v
            return self.cast(t if t.op not in ("list", "tuple") else mk("array", t), T(dt))
        if fn in ("asarray", "atleast_1d", "ascontiguousarray", "asanyarray", "atleast_2d"):
            v = args[0] if args else list(kwargs.values())[0]
            t = T(v)
            if fn.startswith("atleast_2d"):
                return mk("call", name, "", t)
            dt = T(kwargs.get("dtype", args[1] if len(args) > 1 and not fn.startswith("atleast") else NONE))
            if t.op in ("list", "tuple"):
                return self.cast(mk("array", t), dt)
            return v if self.cast(t, dt) is t else self.cast(t, dt)
        if fn in ("round", "around", "round_"):
            return mk("round", *[T(a) for a in args], *[T(a) for a in kwargs.values()])
        if fn == "isclose":
            b = self.bindargs(["a", "b", "rtol", "atol"], args, kwargs)
            return mk("isclose", T(b["a"]), T(b["b"]), T(b.get("rtol", const(1e-5))), T(b.get("atol", const(1e-8))))
        if fn == "nextafter" and all(is_const(T(a)) for a in args):
            return const(math.nextafter(*[float(T(a).args[0]) for a in args]))
        if fn == "shape" and len(args) == 1:
            return mk("shape", strip_wrap(T(args[0])))
        if fn == "issubdtype":
            return mk("issubdtype", *[T(a) for a in args])
        if fn == "errstate":
            return NONE
        if fn in ("float64", "float32"):
            return T(args[0])
        if fn == "copyto":
            if isinstance(args[0], (Ref, PhiV)):
                it.write_content(st, args[0], T(args[1]), ("copyto",))
            return NONE
        if fn == "fill_diagonal" or fn == "put" or fn == "place" or fn == "putmask":
            if isinstance(args[0], (Ref, PhiV)):
                it.write_content(st, args[0], mk("call", name, "", *[T(a) for a in args]), (fn,))
            return NONE
        return self.generic(st, name, args, kwargs)

    def elem_truth(self, c):
        return c

    def cast(self, t, dt):
        """conversion to a dtype: the identity on the reals for float64, visibly lossy for narrower floats"""
        if dt is NONE:
            return t
        n = dt.args[0].split(".")[-1] if dt.op == "lib" else dt.args[0] if is_const(dt) and isinstance(dt.args[0], str) else None
        if n in ("float", "float64", "double", "longdouble", "float_"):
            return t
        if n in ("float32", "float16", "single", "half"):
            return mk("coarse", t)
        return mk("astype", t, dt)

    def clip(self, a, lo, hi):
        if lo is not NONE:
            a = self.mm("max2", a, lo)
        if hi is not NONE:
            a = self.mm("min2", a, hi)
        return a

    def reduce(self, fn, x, kw):
        axis = kw.get("axis", NONE)
        keep = kw.get("keepdims", FALSE)
        extra = []
        if fn in ("std", "var"):
            extra = [kw.get("ddof", const(0))]
        if "where" in kw or "initial" in kw:
            return mk("reduce", fn, x, axis, keep, kw.get("where", TRUE), kw.get("initial", NONE))
        if keep is TRUE:
            return mk(fn + "_keep", x, axis, *extra)
        if fn in ("max", "min") and x.op in ("list", "tuple") and x.args and axis is NONE:
            r = x.args[0]
            for y in x.args[1:]:
                r = self.mm(fn + "2", r, y)
            return r
        return mk(fn, x, axis, *extra)

    # ---- scipy
    def special(self, st, name, fn, args, kwargs):
        T = lambda v: self.T(st, v)
        a = [T(x) for x in args] + [T(v) for v in kwargs.values()]
        if fn in SPECIAL1 and len(a) == 1:
            return mk(SPECIAL1[fn], a[0])
        if fn == "polygamma":
            b = {k: T(v) for k, v in self.bindargs(["n", "x"], args, kwargs).items()}
            if b["n"] is const(0):
                return mk("digamma", b["x"])
            return mk("polygamma", b["n"], b["x"])
        if fn == "beta" and len(a) == 2:
            return mk("exp", mk("betaln", a[0], a[1]))
        if fn == "betaln":
            return mk("betaln", a[0], a[1])
        if fn in ("log1p", "expm1"):
            return self.numpy(st, "numpy." + fn, ["numpy", fn], args, kwargs)
        if fn == "xlogy":
            return mul(a[0], mk("log", a[1]))
        if fn == "xlog1py":
            return mul(a[0], mk("log", add(const(1), a[1])))
        return self.generic(st, name, args, kwargs)

    def frozen(self, st, dist, args, kwargs):
        T = lambda v: self.T(st, v)
        names = SHAPES[dist] + ["loc", "scale"]
        b = {k: T(v) for k, v in self.bindargs(names, args, kwargs).items()}
        b.setdefault("loc", const(0))
        b.setdefault("scale", const(1))
        if any(k not in names for k in b) or any(n not in b for n in names):
            self.it.event(st, "badkw", "scipy.stats." + dist, tuple(sorted(b)))
            return mk("call", "scipy.stats." + dist, ",".join(sorted(b)), *[b[k] for k in sorted(b)])
        return mk("frozen", dist, *[b[n] for n in names])

    def stats(self, st, name, parts, args, kwargs):
        from .interp import Unsupported
        dist = parts[2]
        if dist in SHAPES and len(parts) == 3:
            if "**" in kwargs:
                return self.generic(st, name, args, kwargs)
            return self.frozen(st, dist, args, kwargs)
        if dist in SHAPES and len(parts) == 4:
            m = parts[3]
            if m in ("pdf", "logpdf", "cdf", "logcdf", "ppf", "sf", "logsf", "isf", "pmf", "logpmf"):
                args = list(args)
                kw = dict(kwargs)
                x = args.pop(0) if args else kw.pop("x", None) or kw.pop("q", None) or kw.pop("k", None)
                f = self.frozen(st, dist, args, kw)
                if f.op == "frozen":
                    return mk("dist", dist, m, self.T(st, x), *f.args[1:])
            if m in ("mean", "var", "std", "median"):
                f = self.frozen(st, dist, args, kwargs)
                if f.op == "frozen":
                    return mk("distm", dist, m, *f.args[1:])
            if m == "rvs":
                kw = dict(kwargs)
                size = kw.pop("size", None)
                kw.pop("random_state", None)
                self.it.event(st, "random", name)
                if len(args) <= len(SHAPES[dist]) + 2:
                    f = self.frozen(st, dist, args, kw)
                    if f.op == "frozen":
                        return mk("rvs", dist, self.T(st, size) if size is not None else NONE, *f.args[1:])
        return self.generic(st, name, args, kwargs)

    # ---- builtins
    def builtin(self, st, fn, args, kwargs):
        from .interp import (ArrC, BoundLib, BoundV, ClassV, DictC, FuncV, LibV,
                             ListC, ObjC, PhiV, Ref, SymIter, TupleV, Unsupported, ViewC)
        it = self.it
        T = lambda v: self.T(st, v)
        if fn == "print":
            it.event(st, "print")
            return NONE
        if fn == "len":
            v = args[0]
            if isinstance(v, TupleV):
                return const(len(v.items))
            if isinstance(v, SymIter):
                return v.length
            c = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(c, ListC):
                return const(len(c.items))
            if isinstance(c, DictC):
                return const(len(c.entries))
            t = T(v)
            if t.op in ("list", "tuple"):
                return const(len(t.args))
            if t.op == "dictdisp":
                return const(len(t.args) // 2)
            if t.op in ("lamseq", "lamdict"):
                return t.args[0].args[0]
            if is_const(t) and isinstance(t.args[0], str):
                return const(len(t.args[0]))
            return self.dim(t, 0)
        if fn == "range":
            a = [T(x) for x in args]
            if len(a) == 1:
                a = [const(0), a[0], const(1)]
            elif len(a) == 2:
                a = a + [const(1)]
            return mk("range", *a)
        if fn == "enumerate":
            start = args[1] if len(args) > 1 else kwargs.get("start", const(0))
            s = T(start)
            x = it.iterate(st, args[0])
            if isinstance(x, list):
                return TupleV([TupleV([add(s, const(i)), v]) for i, v in enumerate(x)])
            return SymIter(x.length, x.var, TupleV([add(s, x.var) if s is not const(0) else x.var, x.elem]))
        if fn == "zip":
            its = [it.iterate(st, a) for a in args]
            if not its:
                return TupleV([])
            if all(isinstance(x, list) for x in its):
                return TupleV([TupleV(x) for x in zip(*its)])
            if any(isinstance(x, list) for x in its):
                n = min(len(x) for x in its if isinstance(x, list))
                out = []
                for i in range(n):
                    row = []
                    for x in its:
                        if isinstance(x, list):
                            row.append(x[i])
                        else:
                            row.append(it.lift(st, subst(it.to_term(st, x.elem), {x.var: const(i)})))
                    out.append(TupleV(row))
                return TupleV(out)
            v = its[0].var
            elems = [its[0].elem]
            for x in its[1:]:
                elems.append(it.lift(st, subst(it.to_term(st, x.elem), {x.var: v})))
            return SymIter(its[0].length, v, TupleV(elems))
        if fn == "reversed":
            x = it.iterate(st, args[0])
            if isinstance(x, list):
                return TupleV(x[::-1])
            e = it.to_term(st, x.elem)
            return SymIter(x.length, x.var, it.lift(st, subst(e, {x.var: sub(sub(x.length, const(1)), x.var)})))
        if fn == "map":
            x = it.iterate(st, args[1])
            if isinstance(x, list) and len(args) == 2:
                return TupleV([it.call(st, args[0], [v], {}) for v in x])
            if len(args) == 2:
                return SymIter(x.length, x.var, it.call(st, args[0], [x.elem], {}))
        if fn in ("list", "tuple"):
            if not args:
                return it.alloc(st, ListC(())) if fn == "list" else TupleV([])
            x = it.iterate(st, args[0])
            if isinstance(x, list):
                return it.alloc(st, ListC(tuple(x))) if fn == "list" else TupleV(x)
            body = it.to_term(st, x.elem)
            return it.alloc(st, ArrC(lam("lamseq", mk("range1", x.length), x.var, body)))
        if fn == "dict":
            if not args:
                return it.alloc(st, DictC(tuple((const(k), v) for k, v in kwargs.items() if k != "**")))
            v = args[0]
            c = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(c, DictC) and "**" not in kwargs:
                d = DictC(c.entries)
                for k, x in kwargs.items():
                    d = d.set(const(k), x)
                return it.alloc(st, d)
            if isinstance(v, (TupleV,)) and all(isinstance(x, TupleV) and len(x.items) == 2 for x in v.items):
                d = DictC(())
                for x in v.items:
                    d = d.set(T(x.items[0]), x.items[1])
                return it.alloc(st, d)
            if isinstance(v, SymIter):
                k, x = it.unpack(st, v.elem, 2)
                if T(k) is v.var:
                    return it.alloc(st, ArrC(lam("lamdict", mk("range1", v.length), v.var, T(x))))
                return it.alloc(st, ArrC(mk("dictfrom", lam("lamseq", mk("range1", v.length), v.var, mk("tuple", T(k), T(x))))))
            return it.alloc(st, ArrC(T(v)))
        if fn in ("set", "frozenset"):
            if not args:
                return mk("set")
            x = it.iterate(st, args[0])
            if isinstance(x, list):
                return mk("set", *sorted({T(v) for v in x}))
            return mk("setof", T(args[0]))
        if fn == "sorted":
            x = it.iterate(st, args[0])
            if isinstance(x, list) and not kwargs:
                ts = [T(v) for v in x]
                if all(is_const(t) for t in ts):
                    try:
                        return it.alloc(st, ListC(tuple(const(v) for v in sorted(t.args[0] for t in ts))))
                    except TypeError:
                        pass
                return mk("sorted", mk("list", *ts))
            return mk("sorted", T(args[0]), *[T(v) for v in kwargs.values()])
        if fn in ("max", "min"):
            if len(args) == 1:
                x = it.iterate(st, args[0])
                if isinstance(x, list) and x:
                    r = T(x[0])
                    for v in x[1:]:
                        r = self.mm(fn + "2", r, T(v))
                    return r
                return mk(fn, T(args[0]), NONE)
            r = T(args[0])
            for v in args[1:]:
                r = self.mm(fn + "2", r, T(v))
            return r
        if fn == "abs":
            t = T(args[0])
            return const(abs(t.args[0])) if tm._num(t) else mk("abs", t)
        if fn == "pow":
            return self.arith("Pow", T(args[0]), T(args[1]))
        if fn == "sum":
            x = it.iterate(st, args[0])
            s0 = T(args[1]) if len(args) > 1 else const(0)
            if isinstance(x, list):
                r = s0
                for v in x:
                    r = add(r, T(v))
                return r
            e = T(x.elem)
            if e.op == "getitem" and e.args[1] is x.var:
                return add(s0, mk("sum", e.args[0], const(0)))
            return add(s0, lam("sumover", mk("range1", x.length), x.var, e))
        if fn in ("all", "any"):
            x = it.iterate(st, args[0])
            if isinstance(x, list):
                ts = [it.truth(st, v) for v in x]
                return and_(*ts) if fn == "all" else or_(*ts)
            return lam("forall" if fn == "all" else "exists", mk("range1", x.length), x.var, it.truth(st, x.elem))
        if fn in ("int", "float", "bool", "str"):
            if not args:
                return const({"int": 0, "float": 0.0, "bool": False, "str": ""}[fn])
            t = T(args[0])
            if is_const(t):
                try:
                    return const({"int": int, "float": float, "bool": bool, "str": str}[fn](t.args[0]))
                except (TypeError, ValueError):
                    pass
            if fn == "bool":
                return it.truth(st, args[0])
            if fn == "str":
                return mk("fstr", t)
            if fn == "float" and it.scalarish(t):
                return t
            return mk("py_" + fn, t)
        if fn == "round":
            return mk("round", *[T(a) for a in args])
        if fn == "isinstance":
            return self.isinstance(st, args[0], args[1])
        if fn == "hasattr":
            return self.hasattr(st, args[0], T(args[1]))
        if fn == "getattr":
            n = T(args[1])
            if is_const(n):
                if len(args) > 2 and isinstance(args[0], Ref) and isinstance(st.heap.get(args[0].oid), ObjC):
                    h = self.hasattr(st, args[0], n)
                    if h is TRUE:
                        return it.get_attr(st, args[0], n.args[0])
                    if h is FALSE:
                        return args[2]
                    v = it.get_attr(st, args[0], n.args[0])
                    return it.phi(h, v, args[2])
                return it.get_attr(st, args[0], n.args[0])
            return mk("getattr", T(args[0]), n)
        if fn == "setattr":
            n = T(args[1])
            if is_const(n):
                it.set_attr(st, args[0], n.args[0], it.bind(st, args[2]))
            else:
                it.event(st, "setattr_dyn", T(args[0]), n)
            return NONE
        if fn == "type":
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ObjC) and st.heap[v.oid].cls is not None:
                return ClassV(st.heap[v.oid].cls)
            return mk("call:type", T(v))
        if fn == "callable":
            return mk("callable", T(args[0]))
        if fn == "issubclass":
            a, b = args
            if isinstance(a, ClassV) and isinstance(b, ClassV):
                return const(a.cls.is_sub(b.cls.name))
            return mk("issubclass", T(a), T(b))
        if fn == "slice":
            a = [T(x) for x in args]
            if len(a) == 1:
                a = [NONE, a[0], NONE]
            while len(a) < 3:
                a.append(NONE)
            return mk("slice", *a)
        if fn == "object":
            return mk("call", "object", "")
        if fn == "next":
            return mk("next", T(args[0]))
        if fn == "iter":
            return args[0]
        if fn == "filter":
            return mk("call", "filter", "", T(args[0]), T(args[1]))
        if fn in ("repr", "format", "id", "vars", "hash", "divmod", "dir", "globals", "locals"):
            return mk("call", fn, "", *[T(a) for a in args])
        if fn[0].isupper():
            return mk("exc", fn)
        return self.generic(st, "builtins." + fn, args, kwargs)

    PYT = {"int": int, "float": float, "bool": bool, "str": str}

    def isinstance(self, st, v, c):
        from .interp import (ArrC, BoundV, ClassV, DictC, FuncV, LibV, ListC, ObjC,
                             PhiV, Ref, TupleV, ViewC)
        it = self.it
        if isinstance(c, TupleV):
            return or_(*[self.isinstance(st, v, x) for x in c.items])
        if isinstance(v, PhiV):
            return ite(v.cond, self.isinstance(st, v.a, c), self.isinstance(st, v.b, c))
        cname = c.cls.name if isinstance(c, ClassV) else (c.name if isinstance(c, LibV) else None)
        if cname is None:
            t = self.T(st, c)
            if t.op == "or":  # X | Y types
                return or_(*[mk("isinstance", self.T(st, v), x) for x in t.args])
            return mk("isinstance", self.T(st, v), t)
        short = cname.split(".")[-1]
        if isinstance(v, Ref):
            cell = st.heap.get(v.oid)
            if isinstance(cell, ObjC) and cell.cls is not None:
                if isinstance(c, ClassV):
                    if cell.cls.is_sub(c.cls.name):
                        return TRUE
                    if not it.opaque_root(cell.cls):
                        return FALSE
                else:
                    return FALSE
            if isinstance(cell, DictC):
                return const(short == "dict")
            if isinstance(cell, ListC):
                return const(short == "list")
            if isinstance(cell, ArrC) and cell.content.op in ("lamdict", "dictdisp", "mapdict", "filldict"):
                return const(short == "dict")
        if isinstance(v, TupleV):
            return const(short == "tuple")
        if isinstance(v, (ClassV, FuncV, BoundV, LibV)):
            return const(short == "type" if isinstance(v, ClassV) else False)
        t = self.T(st, v)
        if is_const(t):
            if cname.startswith("builtins.") and short in self.PYT:
                return const(isinstance(t.args[0], self.PYT[short]))
            if short in ("Real", "Integral"):
                return const(isinstance(t.args[0], (int, float) if short == "Real" else int))
            return FALSE
        if t.op == "ite":
            return ite(t.args[0], self.isinstance(st, t.args[1], c), self.isinstance(st, t.args[2], c))
        if t.op in ("zeros", "ones", "validX", "validy", "sw", "matmul", "hstack", "arange", "repeat", "tile") and short == "ndarray":
            return TRUE
        if t.op == "new" or t.op == "fcall":
            cls = it.typeof(t)
            if cls is not None and isinstance(c, ClassV) and cls.is_sub(c.cls.name):
                return TRUE
        return mk("isinstance", t, short)

    def hasattr(self, st, v, n):
        from .interp import ObjC, PhiV, Ref
        it = self.it
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ObjC) and is_const(n):
                x = c.get(n.args[0])
                if x is not None:
                    if isinstance(x, Term) and x is UNDEF:
                        return FALSE
                    pre = c.name is not None and it._is_pre(st, ObjC(c.cls, (), c.name, c.owner), n.args[0], x)
                    if not pre:
                        return TRUE
                elif c.cls is not None and c.cls.lookup(n.args[0]) is not None:
                    return TRUE
                elif c.name is None:
                    return FALSE
        return mk("hasattr", self.T(st, v), n)

    def position(self, st, items, args, name):
        """[...].index(x), [...].count(x) of constants"""
        ts = [self.T(st, x) for x in items]
        if len(args) != 1 or not all(is_const(t) for t in ts + [self.T(st, args[0])]):
            return None
        x = self.T(st, args[0]).args[0]
        hit = [i for i, t in enumerate(ts) if t.args[0] == x]
        if name == "count":
            return const(len(hit))
        if not hit:
            self.it.reject_if(st, TRUE, "ValueError: not in list")
            return UNDEF
        return const(hit[0])

    # ---- methods of library / container values
    def method(self, st, recv, name, args, kwargs):
        from .interp import (ArrC, BoundLib, BoundV, DictC, FuncV, LibV, ListC,
                             ObjC, PhiV, Ref, SymIter, TupleV, Unsupported, ViewC)
        it = self.it
        T = lambda v: self.T(st, v)
        if name.startswith("super."):
            # external base class (sklearn, ABC, object)
            if name == "super.__init__":
                return NONE
            return mk("extsuper", T(recv), name[6:], *[T(a) for a in args])
        if isinstance(recv, PhiV) and name in ("items", "keys", "values", "get", "update", "append", "extend", "pop", "setdefault"):
            if name in ("items", "keys", "values"):
                a, b = self.method(st, recv.a, name, args, kwargs), self.method(st, recv.b, name, args, kwargs)
                return it.phi(recv.cond, a, b) if not (isinstance(a, SymIter) and isinstance(b, SymIter)) else self.merge_iters(st, recv.cond, a, b, recv, name)
        c = st.heap.get(recv.oid) if isinstance(recv, Ref) else None
        if isinstance(recv, TupleV):
            if name == "index" or name == "count":
                k = self.position(st, recv.items, args, name)
                return k if k is not None else mk("mcall", T(recv), name, *[T(a) for a in args])
        if isinstance(c, ListC) and name in ("index", "count"):
            k = self.position(st, c.items, args, name)
            if k is not None:
                return k
        if isinstance(c, DictC):
            if name == "items":
                return TupleV([TupleV([k, v]) for k, v in c.entries])
            if name == "keys":
                return TupleV([k for k, _ in c.entries])
            if name == "values":
                return TupleV([v for _, v in c.entries])
            if name == "get" and is_key(T(args[0])):
                v = c.get(T(args[0]))
                return v if v is not None else (args[1] if len(args) > 1 else NONE)
            if name == "copy":
                return self.copy(st, recv)
            if name in ("update", "pop", "setdefault", "clear", "popitem"):
                it.event(st, "write", recv.oid, c.owner, (name,))
                if name == "update" and args:
                    o = args[0]
                    oc = st.heap.get(o.oid) if isinstance(o, Ref) else None
                    if isinstance(oc, DictC):
                        d = c
                        for k, v in oc.entries:
                            d = d.set(k, v)
                        st.heap[recv.oid] = d
                        return NONE
                if name == "pop" and is_key(T(args[0])):
                    v = c.get(T(args[0]))
                    if v is not None:
                        st.heap[recv.oid] = c.delete(T(args[0]))
                        return v
                if name == "setdefault" and is_const(T(args[0])):
                    v = c.get(T(args[0]))
                    if v is not None:
                        return v
                    v = it.bind(st, args[1]) if len(args) > 1 else NONE
                    st.heap[recv.oid] = c.set(T(args[0]), v)
                    return v
                st.heap[recv.oid] = ArrC(mk("mut", it.read(st, recv), name, *[T(a) for a in args]), c.owner)
                return mk("mcall", it.read(st, recv), name, *[T(a) for a in args])
        if isinstance(c, ListC):
            if name == "append":
                st.heap[recv.oid] = ListC(c.items + (it.bind(st, args[0]),), c.owner)
                it.event(st, "write", recv.oid, c.owner, ("append",))
                return NONE
            if name == "extend":
                x = it.iterate(st, args[0])
                it.event(st, "write", recv.oid, c.owner, ("extend",))
                if isinstance(x, list):
                    st.heap[recv.oid] = ListC(c.items + tuple(x), c.owner)
                else:
                    st.heap[recv.oid] = ArrC(mk("concat", it.read(st, recv), it.to_term(st, x)), c.owner)
                return NONE
            if name == "copy":
                return self.copy(st, recv)
            if name in LISTMUT:
                it.event(st, "write", recv.oid, c.owner, (name,))
                st.heap[recv.oid] = ArrC(mk("mut", it.read(st, recv), name, *[T(a) for a in args]), c.owner)
                return mk("mcall", it.read(st, recv), name)
        t = T(recv)
        # mappings
        if name in ("items", "keys", "values") and not args:
            return self.mapview(st, t, name)
        if name == "get" and args:
            k = T(args[0])
            d = T(args[1]) if len(args) > 1 else NONE
            return ite(mk("in", k, t), self.index(t, k), d)
        if name in ("append", "extend", "update", "setdefault", "pop", "clear", "insert", "remove") and isinstance(recv, (Ref, PhiV)):
            if name == "append":
                it.write_content(st, recv, mk("append", t, T(args[0])), (name,))
                return NONE
            if name == "update" and args:
                it.write_content(st, recv, mk("mergedict", t, T(args[0])), (name,))
                return NONE
            if name == "setdefault":
                k = T(args[0])
                it.write_content(st, recv, ite(mk("in", k, t), t, self.setitem(t, k, T(args[1]))), (name,))
                return self.index(it.read(st, recv), k)
            it.write_content(st, recv, mk("mut", t, name, *[T(a) for a in args]), (name,))
            return mk("mcall", t, name, *[T(a) for a in args])
        if t.op == "frozen":
            dist = t.args[0]
            if name in ("pdf", "logpdf", "cdf", "logcdf", "ppf", "sf", "logsf", "isf", "pmf", "logpmf"):
                x = args[0] if args else list(kwargs.values())[0]
                return mk("dist", dist, name, T(x), *t.args[1:])
            if name in ("mean", "var", "std", "median"):
                return mk("distm", dist, name, *t.args[1:])
            if name == "rvs":
                it.event(st, "random", "scipy.stats." + dist)
                b = self.bindargs(["size", "random_state"], args, kwargs)
                return mk("rvs", dist, T(b.get("size", const(1))), *t.args[1:])
        if t.op == "lib" and isinstance(recv, LibV):
            return self.call(st, recv.name + "." + name, args, kwargs)
        if name in REDUCE:
            fn = ALIAS_RED.get(name, name)
            order = {"std": ["axis", "dtype", "out", "ddof"], "var": ["axis", "dtype", "out", "ddof"]}.get(fn, ["axis"])
            b = self.bindargs(order, args, kwargs)
            return self.reduce(fn, t, {k: T(v) for k, v in b.items()})
        if name == "clip":
            b = self.bindargs(["min", "max"], args, kwargs)
            return self.clip(t, T(b.get("min", b.get("a_min", NONE))), T(b.get("max", b.get("a_max", NONE))))
        if name in ("copy", "astype", "tolist"):
            if name == "astype":
                dt = T(args[0]) if args else T(list(kwargs.values())[0])
                return self.cast(t, dt)
            if name == "copy" and isinstance(recv, Ref) and isinstance(c, ObjC):
                return self.copy(st, recv)
            return t
        if name == "round":
            return mk("round", t, *[T(a) for a in args], *[T(a) for a in kwargs.values()])
        if name == "item":
            return mk("item", t)
        if name in ("reshape", "squeeze", "ravel", "flatten", "swapaxes", "transpose", "view"):
            a = [T(x) for x in args] + [T(kwargs[k]) for k in sorted(kwargs)]
            if name == "transpose" and not a:
                return self.attr(st, recv, "T")
            if name == "reshape" and len(a) > 1:
                a = [mk("tuple", *a)]
            if name == "flatten":
                return mk("ravel", t)
            if isinstance(recv, Ref):
                return it.alloc(st, ViewC(recv, ("op", name) + tuple(a)))
            return self.viewop(name, t, *a)
        if name == "dot":
            return mk("dot", t, T(args[0]))
        if name in INPLACE and isinstance(recv, (Ref, PhiV)):
            it.write_content(st, recv, mk("mut", t, name, *[T(a) for a in args]), (name,))
            return NONE
        if name in ("repeat", "take", "diagonal", "trace", "nonzero", "searchsorted", "argsort", "compress", "choose") and t.op not in ("obj", "param_obj"):
            return self.call(st, "numpy." + name, [recv] + list(args), kwargs)
        if name == "to_numpy":
            return mk("mcall", t, name)
        if name == "join" or name == "format" or name in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace"):
            return mk("fstr", t, const(name), *[T(a) for a in args])
        a = [T(x) for x in args] + [T(kwargs[k]) for k in sorted(kwargs) if k != "**"]
        it.event(st, "mcall", name, t, tuple(a))
        return mk("mcall", t, name, *a)

    def mapview(self, st, t, name):
        from .interp import SymIter, TupleV
        it = self.it
        if t.op == "dictdisp":
            ks, vs = list(t.args[0::2]), list(t.args[1::2])
            vs = [it.lift(st, v) for v in vs]
            return TupleV({"items": [TupleV(x) for x in zip(ks, vs)], "keys": ks, "values": vs}[name])
        ph = it.placeholder("k")
        if t.op == "lamdict":
            dom, k, body = t.args
            v = subst(body, {mk("bv", k): ph})
            v = it.lift(st, v)
            e = {"items": TupleV([ph, v]), "keys": ph, "values": v}[name]
            return SymIter(dom.args[0], ph, e)
        n = self.len_of(t)
        if n is not None and self.int_keyed(t):
            key = ph
        else:
            key = mk("getitem", mk("keysof", t), ph)
            n = n if n is not None else mk("dim", t, 0)
        val = it.lift(st, self.index(t, key))
        e = {"items": TupleV([key, val]), "keys": key, "values": val}[name]
        return SymIter(n, ph, e)

    def len_of(self, t):
        if t.op in ("lamdict", "lamseq"):
            return t.args[0].args[0]
        if t.op == "mapdict":
            return self.len_of(t.args[0])
        if t.op == "setitem":
            return self.len_of(t.args[0])
        if t.op == "ite":
            return self.len_of(t.args[1]) or self.len_of(t.args[2])
        if t.op == "attr" and t.args[1] in self.it.attr_dicts:
            return self.it.attr_dicts[t.args[1]]
        return None

    def int_keyed(self, t):
        if t.op in ("lamdict",):
            return True
        if t.op == "setitem":
            return self.int_keyed(t.args[0])
        if t.op == "ite":
            return self.int_keyed(t.args[1]) and self.int_keyed(t.args[2])
        if t.op == "attr":
            return t.args[1] in self.it.attr_dicts
        return False

    def merge_iters(self, st, cond, a, b, recv, name):
        from .interp import SymIter
        t = self.it.to_term(st, recv)
        return self.mapview(st, t, name)
