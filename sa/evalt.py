"""Denotation of value-graph terms at a sample point.

This evaluates *closed-form expressions extracted from the source*, never the
source itself: it is the identity test used to compare an extracted expression
with the expression a property prescribes (two expressions of this fragment that
agree at generic points are the same function; one point where they differ is a
witness that they are not).  Library primitives are given their mathematical
meaning; package-internal interface calls stay uninterpreted unless a reading is
supplied.  Terms outside the modelled fragment raise `Unknown` and the obligation
is reported as undecided.
"""
from __future__ import annotations

import hashlib
import warnings

import numpy as np
import scipy.special as sc
import scipy.stats as ss

from . import terms as tm
from .terms import Term

warnings.filterwarnings("ignore")
np.seterr(all="ignore")


class Unknown(Exception):
    pass


class Fault(Exception):
    """the expression has no value at this point (it raises)"""


class Missing(Fault):
    """an attribute that does not exist at this point of the program: AttributeError"""


U1 = {
    "log": np.log, "exp": np.exp, "sqrt": np.sqrt, "sign": np.sign, "sinh": np.sinh, "cosh": np.cosh,
    "tanh": np.tanh, "arcsinh": np.arcsinh, "arctan": np.arctan, "sin": np.sin, "cos": np.cos, "tan": np.tan,
    "floor": np.floor, "ceil": np.ceil, "isnan": np.isnan, "isinf": np.isinf, "isfinite": np.isfinite,
    "log10": np.log10, "log2": np.log2, "abs": np.abs, "rint": np.rint, "arccosh": np.arccosh,
    "arctanh": np.arctanh, "arcsin": np.arcsin, "arccos": np.arccos, "digamma": sc.digamma,
    "gammaln": sc.gammaln, "gamma": sc.gamma, "erf": sc.erf, "erfc": sc.erfc, "expit": sc.expit,
    "logit": sc.logit, "ndtr": sc.ndtr, "ndtri": sc.ndtri, "erfinv": sc.erfinv, "neg": lambda x: -x,
    "inv": None, "ravel": np.ravel, "squeeze": np.squeeze, "diag": np.diag, "array": None,
}
RED = {"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min, "any": np.any, "all": np.all,
       "prod": np.prod, "median": np.median, "argmin": np.argmin, "argmax": np.argmax,
       "count_nonzero": np.count_nonzero, "cumsum": np.cumsum, "cumprod": np.cumprod,
       "nansum": np.nansum, "nanmean": np.nanmean, "nanmax": np.nanmax, "nanmin": np.nanmin, "ptp": np.ptp,
       "nanargmin": np.nanargmin}
CALLS = {
    "numpy.hstack": np.hstack, "numpy.vstack": np.vstack, "numpy.stack": np.stack, "numpy.column_stack": np.column_stack,
    "numpy.concatenate": np.concatenate, "numpy.flip": np.flip, "numpy.allclose": np.allclose, "numpy.isin": np.isin,
    "numpy.linalg.solve": np.linalg.solve, "numpy.linalg.pinv": np.linalg.pinv, "numpy.linalg.norm": np.linalg.norm,
    "numpy.linalg.det": np.linalg.det, "numpy.linalg.trace": np.trace, "numpy.trace": np.trace, "numpy.eye": np.eye, "numpy.identity": np.identity, "numpy.linspace": np.linspace,
    "numpy.logspace": np.logspace, "numpy.einsum": np.einsum, "numpy.logaddexp": np.logaddexp, "numpy.sort": np.sort,
    "numpy.nan_to_num": np.nan_to_num, "numpy.trace": np.trace, "numpy.quantile": np.quantile, "numpy.sinh": np.sinh,
    "numpy.inner": np.inner, "numpy.vdot": np.vdot, "numpy.nonzero": np.nonzero, "numpy.where": np.where,
    "numpy.flatnonzero": np.flatnonzero, "numpy.delete": np.delete, "numpy.append": np.append, "numpy.unique": np.unique,
    "numpy.broadcast_to": np.broadcast_to, "numpy.multiply.outer": np.multiply.outer, "numpy.diff": np.diff,
    "numpy.triu": np.triu, "numpy.tril": np.tril, "numpy.atleast_2d": np.atleast_2d, "numpy.logical_xor": np.logical_xor,
    "numpy.log1p": np.log1p, "numpy.linalg.multi_dot": np.linalg.multi_dot, "numpy.array_equal": np.array_equal,
    "numpy.arcsinh": np.arcsinh, "numpy.select": np.select, "numpy.piecewise": None, "numpy.cov": np.cov,
    "numpy.tensordot": np.tensordot, "numpy.kron": np.kron, "numpy.cross": np.cross, "numpy.digitize": np.digitize,
    "numpy.take": np.take, "numpy.interp": np.interp, "numpy.argsort": np.argsort, "numpy.nanvar": np.nanvar,
    "scipy.special.betainc": sc.betainc, "scipy.special.gammainc": sc.gammainc, "scipy.special.gammaincc": sc.gammaincc,
    "scipy.special.softmax": sc.softmax, "scipy.special.logsumexp": sc.logsumexp, "scipy.special.log_expit": sc.log_expit,
    "scipy.special.log_ndtr": sc.log_ndtr, "scipy.special.stdtr": sc.stdtr, "scipy.special.stdtrit": sc.stdtrit,
    "scipy.special.zeta": sc.zeta, "scipy.special.kv": sc.kv, "scipy.special.betaincinv": sc.betaincinv,
    "scipy.special.gammaincinv": sc.gammaincinv, "scipy.special.gammainccinv": sc.gammainccinv, "scipy.special.exprel": sc.exprel,
    "scipy.linalg.solve": np.linalg.solve, "scipy.linalg.inv": np.linalg.inv,
}


IMPURE = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "save", "savez", "savetxt", "load", "loadtxt", "fromfile", "genfromtxt", "memmap", "open_memmap",
          "seterr", "errstate", "empty", "empty_like", "ndarray", "vectorize", "frompyfunc", "apply_along_axis", "apply_over_axes", "fromfunction", "piecewise", "shares_memory",
          "may_share_memory", "printoptions", "set_printoptions", "test", "info", "show_config", "nditer", "ndenumerate", "source", "lookfor"}


def pure(name):
    """the library's own meaning of a pure array function that needs no special model"""
    parts = name.split(".")
    if parts[-1] in IMPURE or any(p.startswith("_") for p in parts):
        return None
    if parts[0] == "numpy" and (len(parts) == 2 or parts[1] in ("linalg", "add", "multiply", "maximum", "minimum", "logical_and", "logical_or", "subtract") and len(parts) == 3) and parts[-1] != "at":
        o = np
    elif parts[:2] == ["scipy", "special"] and len(parts) == 3:
        o, parts = sc, parts[1:]
    elif parts[:2] == ["scipy", "stats"] and len(parts) == 4 and parts[3] == "fit":
        o, parts = ss, parts[1:]
    elif parts[0] == "math" and len(parts) == 2:
        import math as o
    else:
        return None
    for q in parts[1:]:
        o = getattr(o, q, None)
    return o if callable(o) and not isinstance(o, type) else None


class Eval:
    """env: leaf Term -> value.  calls: name -> handler(ev, term) for interface calls."""

    def __init__(self, env, loops=None, calls=None, parent=None, own=frozenset(), maxiter=20000):
        self.env = env
        self.loops = loops if loops is not None else {}
        self.calls = calls or {}
        self.memo = {}
        self.parent = parent
        self.freememo = {} if parent is None else parent.freememo
        self.own = own  # leaves bound at this level
        self.loopmemo = {} if parent is None else None
        self.maxiter = maxiter

    def root(self):
        e = self
        while e.parent is not None:
            e = e.parent
        return e

    def child(self, binds):
        env = dict(self.env)
        env.update(binds)
        c = Eval(env, self.loops, self.calls, self, frozenset(binds), self.maxiter)
        c.loopmemo = {}
        return c

    def __call__(self, t):
        if not isinstance(t, Term):
            return t
        m = self.memo.get(t.id)
        if m is not None:
            return m[0]
        if self.parent is not None and self.own.isdisjoint(self.free(t)):
            v = self.parent(t)
        else:
            v = self.ev(t)
        self.memo[t.id] = (v,)
        return v

    def free(self, t):
        """non-constant leaves of t, looking through the recurrences it mentions"""
        memo = self.freememo
        got = memo.get(t.id)
        if got is not None:
            return got
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "loopval":
                d = self.loops.get(x.args[0])
                kids, bound = [], set()
                if d is not None:
                    for ini, mu, nxt in d.locs.values():
                        kids += [ini, nxt]
                        bound.add(mu)
                    for g, vals in d.breaks:
                        kids += [g] + list(vals.values())
                    kids += [d.length, d.test]
                    if d.var is not None:
                        bound.add(d.var)
                key = ("loop", x.args[0])
                if key in memo:
                    memo[x.id] = memo[key]
                    stack.pop()
                    continue
            else:
                kids, bound, key = x.args, (), None
            kids = [k for k in kids if isinstance(k, Term)]
            todo = [k for k in kids if k.id not in memo]
            if todo:
                stack += todo
                continue
            if not kids:
                r = frozenset() if x.op == "const" else frozenset((x,))
            else:
                sets = {id(memo[k.id]): memo[k.id] for k in kids}
                r = next(iter(sets.values())) if len(sets) == 1 else frozenset().union(*sets.values())
            if x.args and kids and x.op != "loopval" and x in self.env:
                r = r | {x}
            if bound:
                r = r - bound
            if key:
                memo[key] = r
            memo[x.id] = r
            stack.pop()
        return memo[t.id]

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.args
        if op == "sorted" and len(a) == 1:
            return sorted(np.asarray(v).tolist() if isinstance(v := self(a[0]), np.ndarray) else v)
        if op == "mut" and a[1] in ("sort", "fill") and len(a) == (2 if a[1] == "sort" else 3):
            v = np.array(self(a[0]))
            v.sort() if a[1] == "sort" else v.fill(self(a[2]))
            return v
        if op in self.calls:
            r = self.calls[op](self, t)
            if r is not NotImplemented:
                return r
        f = getattr(self, "o_" + op.replace(":", "_"), None)
        if f is not None:
            return f(t)
        if op in U1 and U1[op] is not None and len(a) == 1:
            try:
                return U1[op](self(a[0]))
            except TypeError:
                raise Fault(op)
        k = op.endswith("_keep")
        base = op[:-5] if k else op
        if base in RED:
            x = self(a[0])
            ax = self(a[1])
            try:
                kw = {"keepdims": True} if k else {}
                return RED[base](np.asarray(x), axis=ax, **kw)
            except (ValueError, TypeError, IndexError) as e:
                raise Fault(str(e))
        if base in ("std", "var"):
            return getattr(np, base)(self(a[0]), axis=self(a[1]), ddof=self(a[2]), keepdims=k)
        raise Unknown(f"operator {op}")

    def o_noattr(self, t):
        if t.args[2]:
            raise Missing(f"AttributeError: {t.args[0].args[1]} has no attribute {t.args[1]} here")
        raise Unknown(f"attribute {t.args[1]}")

    def o_reduce(self, t):
        fn, x, ax, keep, where, initial = t.args[0], *[self(v) for v in t.args[1:]]
        kw = {} if initial is None else {"initial": initial}
        if where is not True:
            kw["where"] = np.asarray(where, bool)
        try:
            return getattr(np, fn)(np.asarray(x), axis=ax, keepdims=bool(keep), **kw)
        except (ValueError, TypeError, IndexError) as e:
            raise Fault(str(e))

    # ---- leaves
    def o_const(self, t):
        return t.args[0]

    def o_sym(self, t):
        if t.args[0] == "pi":
            return np.pi
        if t.args[0] == "euler_gamma":
            return np.euler_gamma
        raise Unknown(f"free symbol {t.args[0]}")

    def o_nan(self, t):
        return np.nan

    def o_undef(self, t):
        raise Fault("unbound")

    def o_lib(self, t):
        n = t.args[0]
        r = {"numpy.float64": float, "builtins.float": float, "builtins.int": int, "builtins.bool": bool,
             "numpy.int64": int, "numpy.bool_": bool, "numpy.integer": np.integer, "numpy.floating": np.floating}.get(n)
        if r is None:
            raise Unknown(n)
        return r

    def o_forcedscalar(self, t):
        return self(t.args[0])

    def o_item(self, t):
        x = np.asarray(self(t.args[0]))
        if x.size != 1:
            raise Fault("item")
        return x.item()

    def wrap(self, t):
        return self(t.args[0])

    o_validX = o_validy = o_copyobj = wrap

    def o_sw(self, t):
        return self(t.args[0])

    # ---- arithmetic
    def bin(self, t, f):
        x, y = self(t.args[0]), self(t.args[1])
        if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
            if t.op == "eq":
                return type(x) == type(y) and x == y
            raise Fault("operand type")
        if isinstance(x, (list, tuple)) and not (t.op in ("add", "eq") and isinstance(y, (list, tuple))):
            x = np.asarray(x)
        if isinstance(y, (list, tuple)) and not (t.op in ("add", "eq") and isinstance(x, (list, tuple))):
            y = np.asarray(y)
        try:
            return f(x, y)
        except (ValueError, TypeError, OverflowError) as e:
            raise Fault(str(e))

    def o_add(self, t):
        return self.bin(t, lambda x, y: x + y)

    def o_sub(self, t):
        return self.bin(t, lambda x, y: np.subtract(x, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else x - y)

    def o_mul(self, t):
        return self.bin(t, lambda x, y: x * y)

    def o_div(self, t):
        def f(x, y):
            return np.true_divide(x, y)
        return self.bin(t, f)

    def o_pow(self, t):
        def f(x, y):
            if np.ndim(x) == 0 and np.ndim(y) == 0 and isinstance(x, int) and isinstance(y, int) and y >= 0:
                return x ** y
            return np.power(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
        return self.bin(t, f)

    def o_matmul(self, t):
        return self.bin(t, lambda x, y: np.matmul(x, y))

    def o_dot(self, t):
        return self.bin(t, lambda x, y: np.dot(x, y))

    def o_mod(self, t):
        return self.bin(t, lambda x, y: np.mod(x, y))

    def o_floordiv(self, t):
        return self.bin(t, lambda x, y: np.floor_divide(x, y))

    def o_xor(self, t):
        return self.bin(t, lambda x, y: np.logical_xor(x, y))

    def o_max2(self, t):
        return self.bin(t, np.maximum)

    def o_min2(self, t):
        return self.bin(t, np.minimum)

    def o_eq(self, t):
        return self.bin(t, lambda x, y: x == y)

    def o_ne(self, t):
        return self.bin(t, lambda x, y: x != y)

    def o_lt(self, t):
        return self.bin(t, lambda x, y: x < y)

    def o_le(self, t):
        return self.bin(t, lambda x, y: x <= y)

    def o_gt(self, t):
        return self.bin(t, lambda x, y: x > y)

    def o_ge(self, t):
        return self.bin(t, lambda x, y: x >= y)

    def o_is(self, t):
        x, y = self(t.args[0]), self(t.args[1])
        if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
            return x is y
        raise Unknown("is")

    def o_isnone(self, t):
        return self(t.args[0]) is None

    def o_isinstance(self, t):
        x, n = self(t.args[0]), t.args[1]
        if isinstance(n, Term):
            raise Unknown("isinstance")
        k = {"dict": dict, "str": str, "ndarray": np.ndarray, "list": list, "tuple": tuple, "bool": bool,
             "int": (int, np.integer), "float": (float, np.floating), "Integral": (int, np.integer), "Real": (int, float, np.number)}.get(n)
        if k is None and n == "DataFrame" and isinstance(x, np.ndarray) and t.args[0].op not in ("sym", "pre"):
            return False  # computed arrays; what the caller hands in may be a frame
        if k is None:
            raise Unknown(f"isinstance {n}")
        if n in ("int", "Integral") and isinstance(x, bool):
            return True
        return isinstance(x, k)

    def o_nd_dtype(self, t):
        return np.asarray(self(t.args[0])).dtype

    def o_issubdtype(self, t):
        a, b = t.args
        n = {"lib": lambda: str(b.args[0]).split(".")[-1]}.get(b.op, lambda: str(tm.cval(b)) if tm.is_const(b) else "")()
        k = {"integer": np.integer, "int": np.integer, "bool": np.bool_, "bool_": np.bool_, "floating": np.floating, "float": np.floating,
             "number": np.number, "signedinteger": np.signedinteger, "str_": np.str_}.get(n)
        if k is None:
            raise Unknown(f"issubdtype {n}")
        return bool(np.issubdtype(self(a), k))

    def logic(self, t, is_and):
        acc = is_and
        for x in t.args:
            v = self(x)
            if np.ndim(v) == 0:
                if bool(v) != is_and:
                    if np.ndim(acc) == 0:
                        return not is_and
            acc = np.logical_and(acc, v) if is_and else np.logical_or(acc, v)
        return bool(acc) if np.ndim(acc) == 0 else acc

    def o_and(self, t):
        return self.logic(t, True)

    def o_or(self, t):
        return self.logic(t, False)

    def o_not(self, t):
        v = self(t.args[0])
        if v is None or isinstance(v, (str, dict, list)):
            return not v
        return (not bool(v)) if np.ndim(v) == 0 else np.logical_not(v)

    def o_ite(self, t):
        c = self(t.args[0])
        if c is None or isinstance(c, (str, dict, list, tuple)):
            c = bool(c)
        if np.ndim(c) == 0:
            return self(t.args[1]) if bool(c) else self(t.args[2])
        if np.size(c) == 1 and not isinstance(c, np.ndarray):
            return self(t.args[1]) if bool(c) else self(t.args[2])
        a, b = self(t.args[1]), self(t.args[2])
        if isinstance(a, (dict, str)) or isinstance(b, (dict, str)):
            raise Fault("ambiguous truth value")
        try:
            return np.where(c, a, b)
        except ValueError as e:
            raise Fault(str(e))

    def o_round(self, t):
        return np.round(*[self(x) for x in t.args])

    def o_py_int(self, t):
        return int(np.asarray(self(t.args[0])).item())

    def o_py_float(self, t):
        return float(np.asarray(self(t.args[0])).item())

    # ---- structure
    def o_tuple(self, t):
        return tuple(self(x) for x in t.args)

    def o_list(self, t):
        return [self(x) for x in t.args]

    def o_array(self, t):
        return np.array(self(t.args[0]))

    def o_dictdisp(self, t):
        return {self(k): self(v) for k, v in zip(t.args[0::2], t.args[1::2])}

    def o_slice(self, t):
        return slice(*[self(x) for x in t.args])

    def o_dim(self, t):
        x = self(t.args[0])
        k = t.args[1]
        k = self(k) if isinstance(k, Term) else k
        if isinstance(x, (list, tuple, dict, str)):
            if k == 0:
                return len(x)
            x = np.asarray(x)
        try:
            return np.shape(x)[k]
        except IndexError:
            raise Fault("shape")

    def o_shape(self, t):
        return np.shape(self(t.args[0]))

    def o_nd_ndim(self, t):
        return np.ndim(self(t.args[0]))

    def o_nd_size(self, t):
        return np.size(self(t.args[0]))

    def o_getitem(self, t):
        b, i = self(t.args[0]), self(t.args[1])
        try:
            if isinstance(b, dict):
                return b[i]
            if isinstance(b, (list, tuple)) and isinstance(i, (int, slice, np.integer)):
                return b[i]
            if isinstance(i, list):
                i = np.asarray(i)
            return np.asarray(b)[i]
        except (KeyError, IndexError, ValueError, TypeError) as e:
            raise Fault(f"index {e}")

    def o_setitem(self, t):
        b, i, v = self(t.args[0]), self(t.args[1]), self(t.args[2])
        if isinstance(b, dict):
            d = dict(b)
            d[i] = v
            return d
        if isinstance(b, list):
            d = list(b)
            d[i] = v
            return d
        c = np.array(b, copy=True)
        try:
            if np.issubdtype(c.dtype, np.integer) and np.asarray(v).dtype.kind == "f":
                c = c.astype(float)
            c[i] = v
        except (ValueError, IndexError, TypeError) as e:
            raise Fault(str(e))
        return c

    def o_in(self, t):
        k, d = self(t.args[0]), self(t.args[1])
        if isinstance(d, (dict, list, tuple, str, set, frozenset)):
            return k in d
        return bool(np.any(np.asarray(d) == k))

    def o_set(self, t):
        return frozenset(self(x) for x in t.args)

    def o_keysof(self, t):
        return list(self(t.args[0]).keys())

    def o_T(self, t):
        return np.transpose(self(t.args[0]))

    def o_expand_dims(self, t):
        return np.expand_dims(self(t.args[0]), self(t.args[1]))

    def o_reshape(self, t):
        try:
            return np.reshape(self(t.args[0]), self(t.args[1]))
        except ValueError as e:
            raise Fault(str(e))

    def o_squeeze(self, t):
        x = self(t.args[0])
        try:
            return np.squeeze(x, self(t.args[1])) if len(t.args) > 1 else np.squeeze(x)
        except ValueError as e:
            raise Fault(str(e))

    def o_coarse(self, t):
        x = np.asarray(self(t.args[0]), float)
        m, e = np.frexp(x)
        return np.ldexp(np.round(m * 4096) / 4096, e)

    def o_astype(self, t):
        return np.asarray(self(t.args[0])).astype(self(t.args[1]))

    def o_zeros(self, t):
        return np.zeros(self(t.args[0]))

    o_empty = o_zeros

    def o_ones(self, t):
        return np.ones(self(t.args[0]))

    def o_full(self, t):
        return np.full(self(t.args[0]), self(t.args[1]))

    def o_zeros_like(self, t):
        return np.zeros_like(self(t.args[0]), dtype=float)

    o_empty_like = o_zeros_like

    def o_ones_like(self, t):
        return np.ones_like(self(t.args[0]), dtype=float)

    def o_full_like(self, t):
        return np.full_like(np.asarray(self(t.args[0]), dtype=float), self(t.args[1]))

    def o_arange(self, t):
        return np.arange(*[self(x) for x in t.args])

    def o_range(self, t):
        return list(range(*[int(self(x)) for x in t.args]))

    def o_repeat(self, t):
        return np.repeat(self(t.args[0]), self(t.args[1]), axis=self(t.args[2]))

    def o_tile(self, t):
        return np.tile(self(t.args[0]), self(t.args[1]))

    def o_outer(self, t):
        return np.outer(self(t.args[0]), self(t.args[1]))

    def o_inv(self, t):
        try:
            return np.linalg.inv(self(t.args[0]))
        except np.linalg.LinAlgError as e:
            raise Fault(str(e))

    def o_matrix_rank(self, t):
        return np.linalg.matrix_rank(self(t.args[0]))

    def o_geomspace(self, t):
        s, e, n, ep = [self(x) for x in t.args]
        try:
            return np.geomspace(s, e, int(n), endpoint=bool(ep))
        except (ValueError, TypeError) as ex:
            raise Fault(str(ex))

    def o_average(self, t):
        try:
            return np.average(self(t.args[0]), axis=self(t.args[1]), weights=self(t.args[2]))
        except (ZeroDivisionError, ValueError, TypeError) as e:
            raise Fault(str(e))

    def o_isclose(self, t):
        return np.isclose(*[self(x) for x in t.args])

    def o_polygamma(self, t):
        return sc.polygamma(self(t.args[0]), self(t.args[1]))

    def o_betaln(self, t):
        return sc.betaln(self(t.args[0]), self(t.args[1]))

    def _sdist(self, t):
        return getattr(ss, t.args[0])

    def o_dist(self, t):
        from .libmodel import SHAPES
        d, m, x = t.args[0], t.args[1], self(t.args[2])
        ps = [self(p) for p in t.args[3:]]
        n = len(SHAPES[d])
        return getattr(getattr(ss, d), m)(x, *ps[:n], loc=ps[n], scale=ps[n + 1])

    def o_distm(self, t):
        from .libmodel import SHAPES
        d, m = t.args[0], t.args[1]
        ps = [self(p) for p in t.args[2:]]
        n = len(SHAPES[d])
        return getattr(getattr(ss, d), m)(*ps[:n], loc=ps[n], scale=ps[n + 1])

    def o_call(self, t):
        name, ks = t.args[0], t.args[1]
        f = CALLS.get(name) or pure(name)
        if f is None:
            raise Unknown(name)
        kn = ks.split(",") if ks else []
        vals = [self(x) for x in t.args[2:]]
        pos = vals[:len(vals) - len(kn)]
        try:
            return f(*pos, **dict(zip(kn, vals[len(vals) - len(kn):])))
        except np.linalg.LinAlgError as e:
            raise Fault(str(e))
        except (ValueError, TypeError, IndexError) as e:
            raise Fault(str(e))

    # ---- binders
    def _bind(self, t, i):
        ph = tm.sym(f"%bv{t.id}", "int")
        body = tm.subst(t.args[2], {tm.mk("bv", t.args[1]): ph})
        return self.child({ph: i})(body)

    def _dom(self, t):
        return int(self(t.args[0].args[0]))

    def o_lamseq(self, t):
        r = [self._bind(t, i) for i in range(self._dom(t))]
        return r

    def o_lamdict(self, t):
        return {i: self._bind(t, i) for i in range(self._dom(t))}

    def o_mapdict(self, t):
        src = self(t.args[0])
        return {k: self._bind(t, k) for k in src}

    def o_filldict(self, t):
        d, l = dict(self(t.args[0])), self(t.args[1])
        for k, v in l.items():
            d.setdefault(k, v)
        return d

    def o_dictfrom(self, t):
        return dict(self(t.args[0]))

    def o_mergedict(self, t):
        return {**self(t.args[0]), **self(t.args[1])}

    def o_concat(self, t):
        return list(self(t.args[0])) + list(self(t.args[1]))

    def o_append(self, t):
        return list(self(t.args[0])) + [self(t.args[1])]

    def o_filterseq(self, t):
        return [v for c, v in self(t.args[0]) if bool(c)]

    def o_sumover(self, t):
        acc = 0
        for i in range(self._dom(t)):
            acc = acc + self._bind(t, i)
        return acc

    def o_forall(self, t):
        return all(bool(np.all(self._bind(t, i))) for i in range(self._dom(t)))

    def o_exists(self, t):
        return any(bool(np.any(self._bind(t, i))) for i in range(self._dom(t)))

    def o_setview(self, t):
        raise Unknown("setview")

    # ---- recurrences (mu nodes): iterate the extracted transition
    def o_loopval(self, t):
        lid, loc = t.args
        desc = self.loops.get(lid)
        if desc is None:
            raise Unknown("loop")
        r = self.loopmemo.get(lid)
        if r is None:
            r = self.run_loop(desc)
            self.loopmemo[lid] = r
        if isinstance(r[loc], _Bad):
            raise r[loc].kind(r[loc].why)
        return r[loc]

    def run_loop(self, desc):
        def safe(ev, x):
            try:
                return ev(x)
            except Fault as e:
                return _Bad(str(e))
            except Unknown as e:
                return _Bad(str(e), Unknown)
        state = {loc: safe(self, ini) for loc, (ini, _, _) in desc.locs.items()}
        n = int(self(desc.length)) if desc.length is not None else None
        i = 0
        while n is None or i < n:
            if i > self.maxiter:
                raise Unknown("recurrence does not settle")
            binds = {mu: state[loc] for loc, (_, mu, _) in desc.locs.items()}
            if desc.var is not None:
                binds[desc.var] = i
            ev = _LoopEval(self, binds)
            if n is None and desc.test is not None and not bool(ev(desc.test)):
                break
            brk = False
            for g, vals in desc.breaks:
                if bool(np.all(ev(g))):
                    state = {loc: safe(ev, v) for loc, v in vals.items()}
                    brk = True
                    break
            if brk:
                break
            state = {loc: safe(ev, nxt) for loc, (_, _, nxt) in desc.locs.items()}
            i += 1
        return {repr(loc): v for loc, v in state.items()}


class _Bad:
    def __init__(self, why, kind=Fault):
        self.why, self.kind = why, kind


class _LoopEval(Eval):
    def __init__(self, parent, binds):
        env = dict(parent.env)
        env.update(binds)
        super().__init__(env, parent.loops, parent.calls, parent, frozenset(binds), parent.maxiter)
        self.loopmemo = {}

    def __call__(self, t):
        v = super().__call__(t)
        if isinstance(v, _Bad):
            raise v.kind(v.why)
        return v


def digest(v):
    """stable digest of a value (for uninterpreted functions)"""
    h = hashlib.sha256()

    def go(x):
        if x is None or isinstance(x, (str, bool)):
            h.update(repr(x).encode())
        elif isinstance(x, dict):
            for k in x:
                go(k)
                go(x[k])
        elif isinstance(x, (list, tuple)) and any(isinstance(e, (str, dict, tuple, list)) or e is None for e in x):
            for e in x:
                go(e)
        elif isinstance(x, slice):
            h.update(repr(x).encode())
        else:
            a = np.asarray(x, dtype=float)
            h.update(repr(a.shape).encode())
            for e in np.ravel(a):
                h.update(("%.9e" % e if abs(e) > 1e-12 else "0").encode())
    go(v)
    return int.from_bytes(h.digest()[:8], "big")


def close(a, b, rtol=1e-7, atol=1e-9):
    """equality of two denotations (None, dict, list and arrays)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(close(a[k], b[k], rtol, atol) for k in a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) == type(b) and a == b
    try:
        x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (ValueError, TypeError):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(close(p, q, rtol, atol) for p, q in zip(a, b))
        return False
    if x.shape != y.shape:
        return False
    return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
