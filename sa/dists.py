"""Facts about the distribution families shared by C08-C11, C23."""
from __future__ import annotations

import functools

import numpy as np
import scipy.integrate as si

from . import terms as tm
from .ad import diff, parse
from .evalt import Eval, Fault, Unknown, close
from .libmodel import FULL
from .model import *

MIXED = {"BetaInflated": (0.0, 1.0), "BetaInflatedZero": (0.0,), "ZeroAdjustedGamma": (0.0,)}

# documented log densities (theta columns t0..t3), continuous part
REF = {
    "Normal": "-0.5*log(2*pi) - log(t1) - (y-t0)**2/(2*t1**2)",
    "NormalMeanVariance": "-0.5*log(2*pi) - 0.5*log(t1) - (y-t0)**2/(2*t1)",
    "StudentT": "gammaln((t2+1)/2) - gammaln(t2/2) - 0.5*log(t2*pi) - log(t1) - (t2+1)/2*log(1+((y-t0)/t1)**2/t2)",
    "JSU": "log(t3) - log(t1) - 0.5*log(2*pi) - 0.5*log(1+((y-t0)/t1)**2) - 0.5*(t2+t3*arcsinh((y-t0)/t1))**2",
    "Gamma": "(1/t1**2-1)*log(y) - y/(t1**2*t0) - 1/t1**2*log(t1**2*t0) - gammaln(1/t1**2)",
    "Beta": "(t0*(1-t1**2)/t1**2-1)*log(y) + ((1-t0)*(1-t1**2)/t1**2-1)*log(1-y) - betaln(t0*(1-t1**2)/t1**2, (1-t0)*(1-t1**2)/t1**2)",
    "LogNormal": "-log(y) - log(t1) - 0.5*log(2*pi) - (log(y)-t0)**2/(2*t1**2)",
    "LogNormalMedian": "-log(y) - log(t1) - 0.5*log(2*pi) - (log(y)-log(t0))**2/(2*t1**2)",
    "Logistic": "-(y-t0)/t1 - log(t1) - 2*log(1+exp(-(y-t0)/t1))",
    "Exponential": "-y/t0 - log(t0)",
    "Gumbel": "(y-t0)/t1 - exp((y-t0)/t1) - log(t1)",
    "ReverseGumbel": "-(y-t0)/t1 - exp(-(y-t0)/t1) - log(t1)",
    "InverseGaussian": "-0.5*log(2*pi*t1**2*y**3) - (y-t0)**2/(2*t0**2*t1**2*y)",
    "InverseGamma": "(1/t1**2)*log(t0*(1+1/t1**2)) - gammaln(1/t1**2) - (1/t1**2+1)*log(y) - t0*(1+1/t1**2)/y",
    "BetaInflated": "(t0*(1-t1**2)/t1**2-1)*log(y) + ((1-t0)*(1-t1**2)/t1**2-1)*log(1-y) - betaln(t0*(1-t1**2)/t1**2, (1-t0)*(1-t1**2)/t1**2) - log(1+t2+t3)",
    "BetaInflatedZero": "(t0*(1-t1**2)/t1**2-1)*log(y) + ((1-t0)*(1-t1**2)/t1**2-1)*log(1-y) - betaln(t0*(1-t1**2)/t1**2, (1-t0)*(1-t1**2)/t1**2) - log(1+t2)",
    "ZeroAdjustedGamma": "(1/t1**2-1)*log(y) - y/(t1**2*t0) - 1/t1**2*log(t1**2*t0) - gammaln(1/t1**2) + log(1-t2)",
}
# point masses: (class, y) -> log mass
MASS = {
    ("BetaInflated", 0.0): "log(t2) - log(1+t2+t3)",
    ("BetaInflated", 1.0): "log(t3) - log(1+t2+t3)",
    ("BetaInflatedZero", 0.0): "log(t2) - log(1+t2)",
    ("ZeroAdjustedGamma", 0.0): "log(t2)",
}
# how the parameters follow a change of the unit of y (power of the factor)
UNITS = {"Normal": {0: 1, 1: 1}, "NormalMeanVariance": {0: 1, 1: 2}, "StudentT": {0: 1, 1: 1}, "JSU": {0: 1, 1: 1}, "Logistic": {0: 1, 1: 1}, "Gumbel": {0: 1, 1: 1}, "ReverseGumbel": {0: 1, 1: 1},
         "Gamma": {0: 1}, "Exponential": {0: 1}, "InverseGamma": {0: 1}, "ZeroAdjustedGamma": {0: 1}, "LogNormalMedian": {0: 1}, "LogNormal": {0: "log"}, "InverseGaussian": {0: 1, 1: -0.5}}
Y, TH = sym("y"), sym("theta")


def names():
    return [c.name for c in prog().subclasses("Distribution") if c.name != "ScipyMixin"]


class Dist:
    """abstract instance of a distribution class with its default links"""

    def __init__(self, name):
        self.name = name
        self.c = cls(name)
        self.it, self.st, self.ref = new_obj(self.c)
        o = self.attr("parameter_support")
        self.pnames = self.attr("parameter_names")
        self.k = len(self.pnames)
        self.support = self.attr("distribution_support")
        self.psupport = o
        self._m = {}

    def attr(self, n):
        v = self.it.get_attr(self.st, self.ref, n)
        return Eval({}, self.it.loops)(self.it.to_term(self.st, v))

    def m(self, name, **args):
        """Ext of a method on symbolic y/theta (args override)"""
        key = (name, tuple(sorted(args.items())))
        if key not in self._m:
            it, st, ref = new_obj(self.c)
            f = method(self.c, name)
            a = {p: sym(p) for p in f.params() if p in ("y", "theta", "q", "size")}
            a.update(args)
            a["*"] = False
            self._m[key] = ext(f, a, self.c, it=it, st=st, self_ref=ref)
        return self._m[key]

    def has(self, name):
        from .frontend import Func
        return isinstance(self.c.lookup(name), Func)

    # ---- sample points
    def box(self, j):
        lo, hi = self.psupport[j]
        if self.name == "StudentT" and j == 2:
            return 2.3, 9.0
        if lo == -np.inf and hi == np.inf:
            return -1.5, 1.5
        if hi == np.inf:
            b = max(lo, 0.0)
            return b + 0.35, b + 2.5
        return lo + 0.12 * (hi - lo), hi - 0.12 * (hi - lo)

    def thetas(self, n, seed=0):
        r = rng(100 + seed)
        return np.column_stack([r.uniform(*self.box(j), size=n) for j in range(self.k)])

    def ys(self, n, seed=0):
        r = rng(200 + seed)
        lo, hi = self.support
        if lo == -np.inf:
            return r.uniform(-4, 4, n)
        if hi == np.inf:
            return r.uniform(0.08, 5, n)
        return r.uniform(lo + 0.03, hi - 0.03, n)

    def wide(self, n, seed=0):
        """far-out but numerically benign points"""
        r = rng(300 + seed)
        cols = []
        for j in range(self.k):
            lo, hi = self.psupport[j]
            if lo == -np.inf and hi == np.inf:
                cols.append(r.uniform(-15, 15, n) if j == 0 else r.uniform(-4, 4, n))
            elif hi == np.inf:
                cols.append(max(lo, 0.0) + np.exp(r.uniform(np.log(0.15), np.log(25), n)))
            else:
                cols.append(r.uniform(lo + 0.03 * (hi - lo), hi - 0.03 * (hi - lo), n))
        lo, hi = self.support
        if lo == -np.inf:
            s = cols[1] if self.k > 1 else 1.0
            y = cols[0] + s * r.uniform(-12, 12, n)
        elif hi == np.inf:
            y = np.exp(r.uniform(np.log(5e-3), np.log(300), n))
        else:
            y = r.uniform(lo + 0.002, hi - 0.002, n)
        return y, np.column_stack(cols)

    def _fits(self, v, sup, margin=True):
        return sup[0] < v < sup[1]

    def mined(self, seed=0):
        """points on both sides of every numeric constant of the family's modules, one coordinate at a time"""
        from . import mine
        mods = tuple(sorted({b.module.name.split(".", 1)[1] for b in self.c.repo_mro() if b.module.name.startswith("ondil.")}))
        v = [10.0 ** i for i in range(-3, 7) if i] + [x for x in mine.mags(mods, 1e-3, 2e6) if not 0.8 < x < 8]
        ys, ths = [], []
        y0, t0 = self.ys(3, seed + 9), self.thetas(3, seed + 9)

        def put(y, t):
            ys.append(y)
            ths.append(t)
        for x in v:
            for sg in (1.0, -1.0):
                for j in range(self.k):
                    if self._fits(sg * x, self.psupport[j]):
                        for i in range(3):
                            t = t0[i].copy()
                            t[j] = sg * x
                            if j == 0 and self.support[0] == -np.inf:  # location family: keep y near
                                put(sg * x + t[1 if self.k > 1 else 0] * y0[i], t)
                            else:
                                put(y0[i], t)
                if self._fits(sg * x, self.support):
                    for i in range(3):
                        put(sg * x, t0[i])
                        # |y - location| or the standardised residual just around the constant
                        if self.support[0] == -np.inf:
                            put(t0[i][0] + sg * x, t0[i])
                            if self.k > 1:
                                put(t0[i][0] + sg * x * t0[i][1], t0[i])
        # parameters and responses near the upper end of the unit interval
        for x in sorted({0.99, 0.999, 0.9999, *(x for x in mine.fracs(mods) if 0.9 < x < 1 - 1e-7)}):
            for j in range(self.k):
                if self.psupport[j][1] <= 1 and self._fits(x, self.psupport[j]):
                    for i in range(2):
                        t = t0[i].copy()
                        t[j] = x
                        put(y0[i], t)
            if self.support[1] <= 1 and self._fits(x, self.support):
                put(x, t0[0])
        # the same data in other units
        if self.name in UNITS:
            for s in sorted({1e-9, 1e-6, 1e-4, 1e-2, 1e2, 1e4, 1e6, *(x * 0.1 for x in mine.mags(mods, 1e-13, 1e-3)), *(x * 10 for x in mine.mags(mods, 1e3, 1e12))}):
                for i in range(3):
                    t = t0[i].copy()
                    for j, p in UNITS[self.name].items():
                        t[j] = t[j] + np.log(s) if p == "log" else t[j] * s ** p
                    put(y0[i] * s, t)
        if not ys:
            return np.zeros(0), np.zeros((0, self.k))
        return np.array(ys), np.array(ths)

    def benign(self, term_of, y, th):
        """rows where the prescribed expression is finite and well conditioned"""
        with np.errstate(all="ignore"):
            a = self.refval(term_of, y, th)
            b = self.refval(term_of, y, th * (1 + 1e-9))
            return np.isfinite(a) & np.isfinite(b) & (np.abs(a) < 1e30) & (np.abs(a - b) <= 1e-6 * np.abs(a) + 1e-9), a

    def sample(self, n, seed=0, masses=True):
        """y (n,), theta (n,k) with point masses appended"""
        y, th = self.ys(n, seed), self.thetas(n, seed)
        y2, t2 = self.wide(n, seed)
        y, th = np.r_[y, y2], np.r_[th, t2]
        if masses and self.name in MIXED:
            for m in MIXED[self.name]:
                t = self.thetas(4, seed + 1)
                y = np.r_[y, np.full(4, m)]
                th = np.r_[th, t]
        return y, th

    def ev(self, e, term, y, th, **more):
        env = {Y: y, TH: th}
        env.update({sym(k): v for k, v in more.items()})
        r = Eval(env, e.loops)(term)
        r = np.asarray(r, dtype=float)
        return np.broadcast_to(r, np.shape(y)) if r.shape == () else r

    # ---- reference
    def leafnames(self):
        return {"y": Y, **{f"t{j}": mk("getitem", TH, mk("tuple", FULL, const(j))) for j in range(self.k)}}

    @functools.lru_cache(None)
    def refterm(self, mass=None):
        if mass is None:
            if self.name not in REF:
                raise Unknown(f"no documented density on file for {self.name}")
            return parse(REF[self.name], self.leafnames())
        return parse(MASS[(self.name, mass)], self.leafnames())

    def leaf(self, j):
        return mk("getitem", TH, mk("tuple", FULL, const(j)))

    def refval(self, term_of, y, th):
        """evaluate term_of(reference log density term) piecewise over mass points"""
        out = np.empty(len(y))
        cont = np.ones(len(y), bool)
        for m in MIXED.get(self.name, ()):
            s = y == m
            if s.any():
                out[s] = np.broadcast_to(Eval({Y: y[s], TH: th[s]})(term_of(self.refterm(m))), s.sum())
            cont &= ~s
        if cont.any():
            out[cont] = np.broadcast_to(Eval({Y: y[cont], TH: th[cont]})(term_of(self.refterm())), cont.sum())
        return out

    def expect(self, term_of, th1):
        """E_y[ term_of(reference log density) ] for one theta row, by quadrature of the expressions"""
        th1 = np.atleast_2d(th1)
        tot = 0.0
        for m in MIXED.get(self.name, ()):
            lp = float(np.ravel(Eval({Y: np.array([m]), TH: th1})(self.refterm(m)))[0])
            tot += np.exp(lp) * float(np.ravel(np.broadcast_to(Eval({Y: np.array([m]), TH: th1})(term_of(self.refterm(m))), 1))[0])
        t, d = self.refterm(), term_of(self.refterm())
        # tanh-sinh style: trapezoid on the real line after mapping the support
        x = np.linspace(-60.0, 60.0, 12001)
        w = np.full(x.shape, x[1] - x[0])
        lo, hi = self.support
        if lo == -np.inf:
            x = np.linspace(-7.0, 7.0, 6001)
            w = np.full(x.shape, x[1] - x[0])
            s, jac = np.sinh(x), np.cosh(x)
        elif hi == np.inf:
            s = np.exp(x)
            jac = s
        else:
            v = 1 / (1 + np.exp(-x))
            s, jac = v, v * (1 / (1 + np.exp(x)))
            ok = (v > 0) & (v < 1)
            s, jac, w = s[ok], jac[ok], w[ok]
        TT = np.repeat(th1, len(s), axis=0)
        p = np.exp(Eval({Y: s, TH: TT})(t))
        g = np.broadcast_to(Eval({Y: s, TH: TT})(d), s.shape)
        val = p * g * jac * w
        return tot + float(np.sum(val[np.isfinite(val)]))
