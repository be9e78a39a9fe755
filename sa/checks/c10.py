"""C10 density, distribution function, quantile, mean and sampling describe one and the same distribution."""
import scipy.stats as _ss
from scipy.optimize import linear_sum_assignment

from .c08 import judge
from .c09 import mass
from ..dists import *

ID = "C10"
RULES = {
    "P1": "pdf = exp(documented log density), logpdf = log(pdf)",
    "P2": "cdf(y) = mass below y + integral of the documented density; logcdf = log(cdf)",
    "P3": "ppf/quantile is the (generalised) inverse of the cdf",
    "P4": "outside the support the density is zero, its logarithm -inf and the cdf 0 or 1",
    "P5": "mean = integral of y against the documented density",
    "P6": "rvs(size, theta) has one row per theta row and `size` columns, each entry a draw of that row's distribution",
}
EXPL = ("The return terms of pdf/logpdf/cdf/logcdf/ppf/quantile/mean/rvs are extracted for every distribution class; the documented density is "
        "integrated as an expression by quadrature and the terms are identity-tested against it. Sampling is decided with the generator as an "
        "uninterpreted uniform source.")
ASSUMPTIONS = ["quadrature of the documented density is accurate to 1e-6 in the tested parameter region"]


class Cdf:
    """reference cdf of one theta row, by panel quadrature of the documented density"""
    gx, gw = np.polynomial.legendre.leggauss(16)

    def __init__(self, D, t):
        self.D, self.t = D, np.atleast_2d(t)
        lo, hi = D.support
        if lo == -np.inf:
            self.to, self.inv, self.L = np.arcsinh, np.sinh, 9.0
        elif hi == np.inf:
            self.to, self.inv, self.L = np.log, np.exp, 40.0
        else:
            self.to, self.inv, self.L = (lambda y: np.log(y) - np.log1p(-y)), (lambda x: 1 / (1 + np.exp(-x))), 34.0
        self.edges = np.linspace(-self.L, self.L, 500)
        a, b = self.edges[:-1], self.edges[1:]
        self.cum = np.r_[0.0, np.cumsum(self.panel(a, b))]
        self.mass = {m: float(np.exp(np.ravel(Eval({Y: np.array([m]), TH: self.t})(D.refterm(m)))[0])) for m in MIXED.get(D.name, ())}
        self.total = self.cum[-1] + sum(self.mass.values())

    def panel(self, a, b):
        x = (a + b)[:, None] / 2 + (b - a)[:, None] / 2 * self.gx
        s = self.inv(x)
        h = 1e-7
        if self.inv is np.sinh:
            jac = np.cosh(x)
        elif self.inv is np.exp:
            jac = s
        else:
            jac = s * (1 / (1 + np.exp(x)))
        f = s.ravel()
        p = np.exp(np.broadcast_to(Eval({Y: f, TH: np.repeat(self.t, f.size, axis=0)})(self.D.refterm()), f.shape)).reshape(s.shape)
        return np.nansum(p * jac * self.gw, axis=1) * (b - a) / 2

    def cont(self, y):
        y = np.asarray(y, float)
        with np.errstate(all="ignore"):
            x = np.clip(self.to(y), -self.L, self.L)
        i = np.clip(np.searchsorted(self.edges, x) - 1, 0, len(self.edges) - 2)
        return self.cum[i] + self.panel(self.edges[i], x)

    def __call__(self, y):
        y = np.atleast_1d(np.asarray(y, float))
        out = np.zeros(y.shape)
        lo, hi = self.D.support
        inn = (y > lo) & (y < hi)
        if inn.any():
            out[inn] = self.cont(y[inn])
        out[y >= hi] = self.cum[-1]
        for m, p in self.mass.items():
            out = out + np.where(y >= m, p, 0.0)
        return out

    def below(self, m):
        return float(self([m])[0]) - self.mass[m]


def region(D, th):
    from .c09 import sub
    return sub(D, np.zeros(len(th)), th)[1]


def run(rep):
    n = 5 if rep.tier == "quick" else 16
    for name in names():
        rep.guard("P1", name, lambda name=name: one(rep, name, n))


def one(rep, name, n):
    D = Dist(name)
    y, th = D.sample(24 if rep.tier == "quick" else 100)
    ths = region(D, np.r_[D.thetas(n, 7), D.wide(2 * n, 7)[1]])[: 2 * n]
    mt = region(D, D.mined(2)[1])
    mt = mt[:: max(1, len(mt) // 12)]
    ths = np.r_[ths, np.unique(mt, axis=0)]
    cd = [Cdf(D, t) for t in ths]
    ok = [i for i, c in enumerate(cd) if abs(c.total - 1) < 1e-6]
    ths, cd = ths[ok], [cd[i] for i in ok]
    rep.count("theta_rows", len(ths))
    if len(ths) < 2:
        raise Unknown(f"{name}: quadrature unreliable")

    def E(m, **kw):
        f = method(D.c, m)
        a = {p: sym(p) for p in f.params() if p != "self"}
        qn = [p for p in f.params() if p in ("q", "p", "quantile", "probs")]
        if m in ("ppf", "quantile"):
            a[qn[0] if qn else f.params()[1]] = sym("q")
        e = D.m(m, **a)
        seen(rep, e)
        return e

    def pdf():
        e = E("pdf")
        got = D.ev(e, e.term, y, th)
        want = D.refval(lambda t: t, y, th)
        good = np.isfinite(got) & (np.abs(got - np.exp(want)) <= 1e-6 * np.exp(want) + 1e-13)
        judge(rep, "P1", f"{name}.pdf", e, got, np.exp(want), y, th, ok=good)
        ym, tm_ = D.mined(4)
        ok, want = D.benign(lambda t: t, ym, tm_)
        g, w = D.ev(e, e.term, ym[ok], tm_[ok]), np.exp(want[ok])
        judge(rep, "P1", f"{name}.pdf around constants", e, g, w, ym[ok], tm_[ok], ok=np.isfinite(g) & (np.abs(g - w) <= 1e-4 * w + 1e-12))
        e2 = E("logpdf")
        lg = D.ev(e2, e2.term, y, th)
        with np.errstate(all="ignore"):
            w = np.log(got)
        judge(rep, "P1", f"{name}.logpdf vs pdf", e2, lg, w, y, th, ok=(np.abs(lg - w) <= 1e-6 * (1 + np.abs(w))) | (got < 1e-250))
    rep.guard("P1", f"{name}.pdf", pdf)

    # points per theta row
    qs = np.array([1e-5, 2e-4, 0.9997, 0.99998, 0.004, 0.06, 0.21, 0.5, 0.68, 0.93, 0.991])

    def cdf():
        e, e2 = E("cdf"), E("logcdf")
        r = rng(5)
        for t, c in zip(ths, cd):
            yy = points(D, c, r)
            TT = np.repeat(t[None], len(yy), axis=0)
            got, want = D.ev(e, e.term, yy, TT), c(yy)
            good = np.abs(got - want) <= 2e-6
            if not good.all():
                return judge(rep, "P2", f"{name}.cdf", e, got, want, yy, TT, ok=good)
            lg = D.ev(e2, e2.term, yy, TT)
            with np.errstate(all="ignore"):
                w = np.log(got)
            good = (np.abs(lg - w) <= 1e-6 * (1 + np.abs(w))) | (lg == w) | (got < 1e-200)
            if not good.all():
                return judge(rep, "P2", f"{name}.logcdf", e2, lg, w, yy, TT, ok=good)
        rep.ob("P2", f"{name}.cdf and logcdf", HOLDS, e.where(), f"{len(ths)} parameter rows")
    rep.guard("P2", f"{name}.cdf", cdf)

    def ppf(m):
        e = E(m)
        for t, c in zip(ths, cd):
            q = list(qs)
            for mm, p in c.mass.items():
                b = c.below(mm)
                q += [b + 0.3 * p, b + 0.9 * p]
                if b + 1.05 * p < 1:
                    q += [b + p + 0.05 * (1 - b - p)]
            q = np.array(sorted(set(q)))
            TT = np.repeat(t[None], len(q), axis=0)
            got = D.ev(e, e.term, q, TT, q=q)
            bad = [i for i in range(len(q)) if not inverse_ok(c, got[i], q[i])]
            if bad:
                i = bad[0]
                rep.ob("P3", f"{name}.{m}", REFUTED, e.where(), f"at q={q[i]:.6g}, theta={short(t)}: extracted {got[i]:.9g}, whose documented cdf is {c([got[i]])[0]:.9g}")
                return
        rep.ob("P3", f"{name}.{m}", HOLDS, e.where(), f"{len(ths)} parameter rows")
    rep.guard("P3", f"{name}.ppf", lambda: ppf("ppf"))
    if D.has("quantile"):
        rep.guard("P3", f"{name}.quantile", lambda: ppf("quantile"))

    def outside():
        lo, hi = D.support
        r = rng(9)
        ys, want = [], []
        if np.isfinite(lo):
            ys += [-0.3, -2.0]
            want += [0, 0]
        if np.isfinite(hi):
            ys += [1.3, 4.0]
            want += [1, 1]
        if not ys:
            return
        ys, want = np.array(ys), np.array(want, float)
        TT = np.repeat(ths[:1], len(ys), axis=0)
        for m, w in (("pdf", np.zeros(len(ys))), ("logpdf", np.full(len(ys), -np.inf)), ("cdf", want), ("logcdf", np.where(want == 0, -np.inf, 0.0))):
            def f(m=m, w=w):
                e = E(m)
                got = D.ev(e, e.term, ys, TT)
                judge(rep, "P4", f"{name}.{m}", e, got, w, ys, TT, ok=(got == w) | (np.abs(got - w) < 1e-12))
            rep.guard("P4", f"{name}.{m}", f)
    outside()

    def mean():
        e = E("mean")
        sel = [i for i, t in enumerate(ths) if (name != "StudentT" or t[2] > 2.2)]
        got = D.ev(e, e.term, np.zeros(len(ths)), ths)
        want = np.array([D.expect(lambda x: Y, t) for t in ths])
        # the integral must itself have converged: compare against the halved range
        good = np.abs(got - want) <= 2e-4 * (1 + np.abs(want))
        good[[i for i in range(len(ths)) if i not in sel]] = True
        if name in ("InverseGamma",):
            good |= 1 / ths[:, 1] ** 2 <= 1.3
        if name == "StudentT":
            good |= (ths[:, 1] > 6) | (np.abs(ths[:, 0]) > 8)
        good |= ~np.array([mass(D, t) for t in ths], bool)  # quadrature range too short for this row
        judge(rep, "P5", f"{name}.mean", e, got, want, np.zeros(len(ths)), ths, ok=good)
        tm = np.unique(D.mined(3)[1], axis=0)
        with np.errstate(all="ignore"):
            tm = tm[[bool(mass(D, t)) for t in tm]] if len(tm) else tm
            if len(tm):
                if name == "StudentT":
                    tm = tm[tm[:, 2] > 2.2]
                if name.startswith("LogNormal"):  # heavier tails than the quadrature range
                    tm = tm[tm[:, 1] < 3]
                got = D.ev(e, e.term, np.zeros(len(tm)), tm)
                want, half = (np.array([D.expect(f, t) for t in tm]) for f in (lambda x: Y, lambda x: mk("abs", Y)))
                good = ~np.isfinite(half) | (np.abs(got - want) <= 1e-3 * half)
                if name == "InverseGamma":
                    good |= 1 / tm[:, 1] ** 2 <= 1.3
                judge(rep, "P5", f"{name}.mean around constants", e, got, want, np.zeros(len(tm)), tm, ok=good)
    if D.has("mean"):
        rep.guard("P5", f"{name}.mean", mean)

    def rvs():
        e = E("rvs")
        rows, size = 3, 4
        T3 = ths[:rows] if len(ths) >= rows else np.repeat(ths[:1], rows, axis=0)
        c3 = [Cdf(D, t) for t in T3]
        us = []

        def draw(ev, t):
            nm, sz = t.args[0], ev(t.args[1])
            par = [np.asarray(ev(a), float) for a in t.args[2:]]
            sh = np.broadcast_shapes(*[p.shape for p in par]) if par else ()
            try:
                shape = np.empty(sh).shape if sz is None else (tuple(int(v) for v in sz) if isinstance(sz, (tuple, list)) else (int(np.ravel(sz)[0]),))
                if np.broadcast_shapes(shape, sh) != shape:
                    raise ValueError
            except ValueError:
                raise Fault(f"sampling {sz} values does not fit the parameter shape {sh}")
            U = rng(31).uniform(0.02, 0.98, size=shape)
            us.append(U)
            if nm == "uniform":
                return par[0] + par[1] * U if len(par) == 2 else U
            if not hasattr(_ss, nm):
                raise Unknown(nm)
            return getattr(_ss, nm).ppf(U, *par)
        try:
            got = Eval({TH: T3, sym("size"): size}, e.loops, {"rvs": draw})(e.term)
        except Fault as f:
            rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"for {rows} parameter rows and size {size}: {f}")
            return
        got = np.asarray(got, float)
        if got.shape != (rows, size):
            rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"{rows} parameter rows, size {size}: result has shape {got.shape}")
            return
        if len({u.tobytes() for u in us}) != 1:
            raise Unknown("more than one random source")
        left = us[0].ravel()
        fit = np.array([[inverse_ok(c3[i], got[i, j], u) for u in left] for i in range(rows) for j in range(size)])
        for r in range(len(fit)):
            if not fit[r].any():
                rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"entry ({r // size},{r % size}) is not a quantile transform of a uniform draw under the distribution of parameter row {r // size}")
                return
        if fit.shape[1] < fit.shape[0]:
            rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"only {fit.shape[1]} independent draws for {fit.shape[0]} entries")
            return
        a, b = linear_sum_assignment(~fit)
        if not fit[a, b].all():
            rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), "entries share uniform draws instead of being independent")
            return
        for R, S in ((1, 1), (1, 7), (5, 1), (2, 300)):
            TR = np.repeat(ths[:1], R, axis=0)
            try:
                sh = np.shape(Eval({TH: TR, sym("size"): S}, e.loops, {"rvs": draw})(e.term))
            except Fault as f:
                rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"for {R} parameter rows and size {S}: {f}")
                return
            if sh != (R, S):
                rep.ob("P6", f"{name}.rvs", REFUTED, e.where(), f"{R} parameter rows, size {S}: result has shape {sh}")
                return
        rep.ob("P6", f"{name}.rvs", HOLDS, e.where(), "shape and row-wise distribution")
    rep.guard("P6", f"{name}.rvs", rvs)


def inverse_ok(c, x, q):
    if not np.isfinite(x):
        return False
    for m, p in c.mass.items():
        b = c.below(m)
        if abs(x - m) < 1e-12:
            return b - 1e-9 <= q <= b + p + 1e-9
        if b + 1e-9 < q < b + p - 1e-9:
            return False
    return abs(c([x])[0] - q) < 5e-6


def points(D, c, r):
    """y values with non-degenerate cdf, found by bisection on the reference"""
    out = []
    for q in (2e-5, 3e-4, 0.003, 0.08, 0.3, 0.62, 0.9, 0.995, 0.9996, 0.99997):
        lo, hi = -c.L, c.L
        tgt = q * c.cum[-1]
        for _ in range(60):
            mid = (lo + hi) / 2
            if c.cont(c.inv(np.array([mid])))[0] < tgt:
                lo = mid
            else:
                hi = mid
        out.append(float(c.inv(np.array([mid]))[0]))
    out += list(c.mass)
    return np.array(out)
