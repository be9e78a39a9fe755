"""Whole-history value graphs of the estimators.

A `Lab` abstractly interprets a *history* of public calls (constructor, fit, update,
predict, ...) on one abstract estimator: the post-state of one call is the
pre-state of the next, whatever the private attributes are called.  Distribution
and estimation-method objects stay uninterpreted (only their interface is used), so
the result is, for every observable, one closed term over the data leaves and
interface operations.  Terms are compared by random interpretation: every
uninterpreted operation is read as a fixed generic function and two terms denote the
same function iff they agree (generically).

Loops whose trip count is fixed by constants (iteration limits given in the
scenario) are expanded; all other loops stay recurrences.
"""
from __future__ import annotations

import sys

import numpy as np

from . import terms as tm
from .evalt import Eval, Fault, Unknown
from .interp import ArrC, ObjC, Ref
from .model import *  # noqa: F401,F403
from .model import Interp, State, cls, const, fargs, method, mk, pc_term, prog, smooth, sym


class Raised(Exception):
    def __init__(self, exc, event):
        super().__init__(exc)
        self.exc, self.event = exc, event


class Rec:
    """reading of an opaque object"""

    def __init__(self, name, **a):
        self.name = name
        self.__dict__.update(a)

    def __repr__(self):
        return f"<{self.name}>"


# ------------------------------------------------------------------ readings
def rows(name, *args, param=None, lo=-1.0, hi=1.0):
    """generic function applied row by row; args are (n,), (n,k) or scalars"""
    n = max(np.asarray(a).shape[0] for a in args if np.ndim(a) > 0)
    cols = []
    for a in args:
        a = np.asarray(a, float)
        cols.append(np.broadcast_to(a, (n,))[:, None] if a.ndim == 0 else a.reshape(a.shape[0], -1) if a.shape[0] == n else np.broadcast_to(a.ravel(), (n, a.size)))
    V = np.concatenate(cols, axis=1)
    out = np.array([smooth((name, param), [v], (1,))[0] for v in V])
    return lo + (hi - lo) * (out + 1) / 2


LINK = {p: (0.8 + 0.3 * p, 0.1 - 0.2 * p, 2.5 + 0.5 * p) for p in range(6)}


def link(x, p):
    a, b, c = LINK[int(p)]
    return c * np.arcsinh((np.asarray(x, float) - b) / a)


def linkinv(e, p):
    a, b, c = LINK[int(p)]
    return b + a * np.sinh(np.asarray(e, float) / c)


def dlink(x, p):
    a, b, c = LINK[int(p)]
    return c / (a * np.sqrt(1 + ((np.asarray(x, float) - b) / a) ** 2))


def dlinkinv(e, p):
    a, b, c = LINK[int(p)]
    return a / c * np.cosh(np.asarray(e, float) / c)


MODE = {"curv": None, "tiny": False, "ll": (-3.0, -0.2)}  # variants of the readings


class reading:
    """curv: curvatures spread over three decades around this value; tiny: coefficients down to 1e-7; ll: range of the log-likelihood
    of one observation (deviances of every sign)"""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = dict(MODE)
        MODE.update(self.kw)

    def __exit__(self, *a):
        MODE.update(self.old)


def shrink(tag, args, B):
    if not MODE["tiny"]:
        return B
    E = smooth(tag + ("size",), args, np.shape(B))
    return B * np.choose(np.digitize(E, (-0.5, 0.0, 0.5)), (1.0, 1e-3, 1e-5, 1e-7))


def dist(name, k, P):
    """reading of Distribution.<name>(**k)"""
    n = name.split(".")[-1]
    p = k.get("param")
    if n == "link_function":
        return link(k["y"], p)
    if n == "link_inverse":
        return linkinv(k["y"], p)
    if n == "link_function_derivative":
        return dlink(k["y"], p)
    if n == "link_inverse_derivative":
        return dlinkinv(k["y"], p)
    if n == "initial_values":
        y = np.asarray(k["y"], float)
        base = np.array([smooth(("init", q), [y], ()) for q in range(P)])
        return base[None, :] + 0.1 * np.stack([rows(("initrow", q), y) for q in range(P)], 1)
    if n == "dl1_dp1":
        return rows(n, k["y"], k["theta"], param=int(p), lo=-1.5, hi=1.5)
    if n == "dl2_dp2" and MODE["curv"]:
        return -MODE["curv"] * 10.0 ** rows(n, k["y"], k["theta"], param=int(p), lo=-1.5, hi=1.5)
    if n == "dl2_dp2":
        return rows(n, k["y"], k["theta"], param=int(p), lo=-2.0, hi=-0.3)
    if n == "dl2_dpp":
        return rows(n, k["y"], k["theta"], param=tuple(int(x) for x in k["params"]))
    if n in ("logpdf", "logpmf", "logcdf"):
        return rows(n, k["y"], k["theta"], lo=MODE["ll"][0], hi=MODE["ll"][1])
    if n == "pdf":
        return np.exp(rows("logpdf", k["y"], k["theta"], lo=MODE["ll"][0], hi=MODE["ll"][1]))
    if n in ("cdf", "pmf"):
        return rows(n, k["y"], k["theta"], lo=0, hi=1)
    if n in ("quantile", "ppf"):
        # increasing in q, as every quantile function is
        from scipy.special import ndtri
        q, th = np.asarray(k["q"], float), np.asarray(k["theta"], float)
        return rows("ppf-loc", th) + rows("ppf-scale", th, lo=0.2, hi=0.6) * ndtri(q)
    if n in ("mean", "median"):
        return rows(n, k["theta"])
    if n == "calculate_conditional_initial_values":
        return rows(n, k["y"], k["theta"], param=int(p))[:, None] * 0.3 + np.asarray(k["theta"], float)
    raise Unknown(name)


def meth(name, recv, k):
    """reading of EstimationMethod.<name>"""
    n = name.split(".")[-1]
    who = recv.name if isinstance(recv, Rec) else str(recv)
    X = k.get("X")
    if n in ("init_x_gram", "update_x_gram"):
        J = np.asarray(X).shape[1]
        return smooth((who, n), [k.get("gram", 0.0), X, k["weights"], k["forget"]], (J, J)) * 2
    if n in ("init_y_gram", "update_y_gram"):
        J = np.asarray(X).shape[1]
        return smooth((who, n), [k.get("gram", 0.0), X, np.asarray(k["y"], float).ravel(), k["weights"], k["forget"]], (J, 1)) * 2
    J = np.asarray(k["x_gram"]).shape[0]
    reg = np.asarray(k["is_regularized"], bool).ravel()
    if n == "fit_beta":
        a = [k["x_gram"], k["y_gram"], reg]
        return shrink((who, n), a, smooth((who, n), a, (J,)))
    if n == "update_beta":
        a = [k["x_gram"], k["y_gram"], np.asarray(k["beta"], float).ravel(), reg]
        return shrink((who, n), a, smooth((who, n), a, (J,)))
    L = getattr(recv, "_path_length", 4)
    if n in ("fit_beta_path", "update_beta_path"):
        prev = [] if n == "fit_beta_path" else [k["beta_path"]]
        B = smooth((who, n), [k["x_gram"], k["y_gram"], reg] + prev, (L, J))
        S = smooth((who, n, "support"), [k["x_gram"], k["y_gram"], reg] + prev, (L, J))
        # small coefficients: the candidates differ little, so the selection depends on every detail of the criterion
        return shrink((who, n), [k["x_gram"], k["y_gram"], reg] + prev, np.where(S < -0.2, 0.0, 0.4 * B))
    raise Unknown(name)


def record(name, path, length=7):
    return Rec(name, _path_based_method=path, _path_length=length, _accepts_bounds=path, _accepts_selection=path)


class Real:
    """an object of a concrete class of the package, created by the caller"""

    def __init__(self, cname, **kw):
        self.cname, self.kw = cname, kw

    def __repr__(self):
        return f"{self.cname}({', '.join(f'{k}={v}' for k, v in self.kw.items())})"


# solvers and Gramians as uninterpreted operations, for labs with real estimation methods
SOLVERS = ("online_coordinate_descent", "online_coordinate_descent_path", "init_gram", "init_y_gram", "update_gram", "update_y_gram", "init_inverted_gram", "update_inverted_gram")


def solver(name, k):
    if name in ("init_gram", "update_gram", "init_inverted_gram", "update_inverted_gram"):
        J = np.asarray(k["X"]).shape[1]
        A = smooth(name, k, (J, J))
        return A @ A.T + J * np.eye(J)
    if name in ("init_y_gram", "update_y_gram"):
        return smooth(name, k, (np.asarray(k["X"]).shape[1], 1)) * 3
    if name == "online_coordinate_descent":
        return smooth(name, k, np.asarray(k["beta"]).shape), 3
    B = smooth(name, k, np.asarray(k["beta_path"]).shape)
    return np.where(np.abs(B) < 0.3, 0.0, B), np.full(len(B), 3)


class Lab:
    def __init__(self, cname, params=2, unroll=8, support=(-np.inf, np.inf), inline=(), columns=(), **ctor):
        opaque = {"EstimationMethod", "Distribution"} - set(inline)
        self.it = Interp(prog(), opaque=opaque, opaque_funcs=({"get_estimation_method"} | (set(SOLVERS) if "EstimationMethod" in inline else set())) - set(inline))
        self.it.unroll = unroll
        self.it.columns = tuple(columns)
        self.st = State()
        self.P = params
        self.c = cls(cname)
        self.env = {}
        self.ev = None
        self.n = 0
        self.support = support
        self.marks = []
        self.methods = {}
        self.owned = []  # objects handed in by the caller: (name, ref, original value)
        kw = {}
        if "distribution" in method(self.c, "__init__").params():
            ctor.setdefault("distribution", "D")
        for k, v in ctor.items():
            kw[k] = self.lift(v, k)
        self.ctor = kw
        self.ref = self.it.construct(self.st, self.c, [], kw)
        # arguments the constructor merely stores keep their identity
        self.readings = {"icall": self._icall, "fcall": self._fcall, "attr": self._attr, "hasattr": self._hasattr,
                         "sym": lambda ev, t: bool(columns) if ".HAS_" in str(t.args[0]) else False if str(t.args[0]).startswith("exc$") else NotImplemented}
        self.calls = []

    # -------------------------------------------------------------- lifting
    def obj(self, cname, name, attrs=(), owner="arg"):
        r = self.it.alloc(self.st, ObjC(cls(cname), (), sym(name, "opaque"), ("caller", owner)))
        for k, v in attrs:
            self.st.heap[r.oid] = self.st.heap[r.oid].set(k, v)
        return r

    def lift(self, v, hint="a"):
        if isinstance(v, str) and v == "D" and hint == "distribution":
            s = sym("D", "opaque")
            self.env[s] = Rec("D", n_params=self.P, distribution_support=self.support)
            return self.obj("Distribution", "D", (("n_params", const(self.P)),), "distribution")
        if isinstance(v, Real):
            if id(v) not in self.methods:
                self.methods[id(v)] = self.it.construct(self.st, cls(v.cname), [], {k: self.lift(x, f"{hint}.{k}") for k, x in v.kw.items()})
            return self.methods[id(v)]
        if isinstance(v, Rec):
            self.env[sym(v.name, "opaque")] = v
            if v.name not in self.methods:
                self.methods[v.name] = self.obj("EstimationMethod", v.name, (), hint)
            return self.methods[v.name]
        if isinstance(v, dict):
            from .interp import DictC
            ref = self.it.alloc(self.st, DictC(tuple((const(k), self.lift(x, f"{hint}[{k}]")) for k, x in v.items()), ("caller", hint)))
            self.owned.append((hint, ref, dict(v)))
            return ref
        if isinstance(v, np.ndarray):
            self.n += 1
            if hint == "param_order":  # short and known: iterate it element by element
                t = self.it.to_term(self.st, self.it.lib.call(self.st, "numpy.array", [self.lift(v.tolist(), hint)], {}))
                ref = self.it.alloc(self.st, ArrC(t, ("caller", hint)))
                self.owned.append((hint, ref, v.copy()))
                return ref
            s = sym(f"{hint}#{len(self.env)}")
            self.env[s] = v
            ref = self.it.alloc(self.st, ArrC(s, ("caller", hint)))
            self.owned.append((hint, ref, v.copy()))
            return ref
        if isinstance(v, (list, tuple)):
            from .interp import ListC, TupleV
            items = [self.lift(x, hint) for x in v]
            return self.it.alloc(self.st, ListC(tuple(items), ("caller", hint))) if isinstance(v, list) else TupleV(items)
        return const(v)

    # ------------------------------------------------------------- readings
    def _icall(self, ev, t):
        name, k = fargs(ev, t)
        if name.startswith("Distribution."):
            return dist(name, k, self.P)
        if name.startswith("EstimationMethod."):
            return meth(name, ev(t.args[1]), k)
        raise Unknown(name)

    def _fcall(self, ev, t):
        name, k = fargs(ev, t)
        if name == "get_estimation_method":
            m = k["method"]
            return m if isinstance(m, Rec) else record(f"str:{m}", m != "ols")
        if name in SOLVERS:
            return solver(name, k)
        return NotImplemented

    def _attr(self, ev, t):
        b = ev(t.args[0])
        if isinstance(b, Rec):
            if hasattr(b, t.args[1]):
                return getattr(b, t.args[1])
            raise Unknown(f"{b}.{t.args[1]}")
        return NotImplemented

    def _hasattr(self, ev, t):
        return NotImplemented

    def eval(self, t):
        if self.ev is None:
            self.ev = Eval(self.env, self.it.loops, self.readings)
        return self.ev(t)

    # ----------------------------------------------------------------- calls
    def run(self, name, **args):
        """abstractly interpret one more call; returns the (unevaluated) value"""
        f = method(self.c, name)
        a = {k: self.lift(v, k) for k, v in args.items()}
        mark = len(self.it.events)
        self.before = self.st.copy()
        v, st, _ = self.it.entry(f, self.c, a, st=self.st, self_ref=self.ref)
        self.last = self.it.events[mark:]
        self.calls.append((name, mark, len(self.it.events)))
        for e in self.last:
            if e.kind in ("raise", "reject") and not e.loops and self.holds(e.pc):
                raise Raised(str(e.data[0]), e)
        if st is None or v is None:
            raise Raised("every path raises", None)
        self.st = st
        self.st.pc = ()
        return v

    def call(self, name, **args):
        v = self.run(name, **args)
        if isinstance(v, Ref) and v == self.ref:
            return "self"
        return self.eval(self.it.to_term(self.st, v))

    def holds(self, pc):
        t = pc_term(pc)
        if t is tm.TRUE:
            return True
        return bool(np.all(self.eval(t)))

    def term(self, attr):
        v = self.st.heap[self.ref.oid].get(attr)
        if v is None:
            c = self.st.heap[self.ref.oid]
            if not isinstance(c.cls.lookup(attr), object) or c.cls.lookup(attr) is None:
                return None
            v = self.it.get_attr(self.st, self.ref, attr)
        return self.it.to_term(self.st, v)

    def get(self, attr):
        t = self.term(attr)
        return None if t is None else self.eval(t)

    def active(self, kind=None, events=None):
        """events whose path condition holds at the sample point"""
        for e in (self.it.events if events is None else events):
            if (kind is None or e.kind == kind) and self.holds(e.pc):
                yield e

    # ------------------------------------------------------------- caller data
    def altered(self):
        """objects of the caller whose content is not what was handed in"""
        from .evalt import close
        for hint, ref, v in self.owned:
            got = self.eval(self.it.to_term(self.st, ref))
            if isinstance(v, dict):
                if not isinstance(got, dict) or list(got) != list(v):
                    yield hint, got, v
                    continue
                for k in v:
                    if not (got[k] is v[k] or isinstance(v[k], Rec) or close(got[k], v[k], 0, 0)):
                        yield f"{hint}[{k}]", got[k], v[k]
            elif not close(got, v, 0, 0):
                yield hint, got, v

    def scribble(self):
        """the caller reuses the arrays handed to fit/update: give them fresh contents"""
        for i, (hint, ref, v) in enumerate(self.owned):
            if isinstance(v, np.ndarray) and hint in ("X", "y", "sample_weight"):
                s = sym(f"scribble#{len(self.env)}")
                self.env[s] = np.full(v.shape, 7.25)
                self.st.heap[ref.oid] = ArrC(s, ("caller", hint))
                self.owned[i] = (hint, ref, self.env[s])

    def fork(self, st):
        """the same estimator continuing from another abstract state"""
        import copy
        o = copy.copy(self)
        o.st = st.copy()
        o.st.pc = ()
        o.owned = list(self.owned)
        return o

    # --------------------------------------------------------------- snapshots
    def reach(self, st=None, v=None):
        """path -> term for everything reachable from the estimator (or v)"""
        st = st or self.st
        out, seen = {}, set()
        from .interp import DictC, ListC, PhiV, TupleV

        def go(path, x):
            if isinstance(x, Ref):
                if x.oid in seen:
                    return
                seen.add(x.oid)
                c = st.heap.get(x.oid)
                if isinstance(c, ObjC):
                    for k, y in c.attrs:
                        go(path + "." + k, y)
                    return
                if isinstance(c, DictC):
                    for k, y in c.entries:
                        go(f"{path}[{tm.show(k, 2)}]", y)
                    out[path] = mk("keys", *[k for k, _ in c.entries])
                    return
                if isinstance(c, ListC):
                    for i, y in enumerate(c.items):
                        go(f"{path}[{i}]", y)
                    return
            elif isinstance(x, TupleV):
                for i, y in enumerate(x.items):
                    go(f"{path}[{i}]", y)
                return
            try:
                out[path] = self.it.to_term(st, x)
            except Exception:
                out[path] = mk("opaquevalue", path, type(x).__name__)
        go("self" if v is None else "value", self.ref if v is None else v)
        return out

    def changed(self, a, b, new_ok=False):
        """paths whose value differs between two snapshots"""
        from .evalt import close
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k), b.get(k)
            if x is y:
                continue
            if x is None and new_ok:
                continue
            if x is None or y is None:
                yield k, "new" if x is None else "removed"
                continue
            try:
                if close(self.eval(x), self.eval(y), 0, 0):
                    continue
            except (Unknown, Fault):
                raise Unknown(f"cannot compare {k}")
            yield k, "changed"
