"""C06 Link functions, their inverses and derivatives."""
from .. import mine
from ..ad import diff
from ..evalt import Eval, Fault, Unknown
from ..model import *

ID = "C06"
RULES = {
    "A1": "link(inverse(eta)) = eta and inverse(link(x)) = x on the core range",
    "A2": "inverse_derivative = d inverse / d eta",
    "A3": "link_derivative = d link / d x and link_second_derivative = d2 link / d x2",
    "A4": "the inverse is strictly increasing on the core range and the declared support bounds its values",
    "A5": "the link is the documented function",
}
EXPL = ("Each link method's return term is extracted (including the guarded log/exp helpers), differentiated symbolically where needed, and "
        "identity-tested on the core range; the core range excludes only the documented saturation zones at the very edges.")
ASSUMPTIONS = ["core range: predictors in [-16, 30] (positive predictors for square-root links), parameters at least 1e-3 inside their support and at most 1e6"]
X = sym("x")
REF = {
    "Identity": "x", "Log": "log(x)", "Logit": "log(x/(1-x))", "Sqrt": "sqrt(x)", "InverseSoftPlus": "log(exp(x)-1)",
    "LogShiftValue": "log(x-v)", "LogShiftTwo": "log(x-2)", "SqrtShiftValue": "sqrt(x-v)", "SqrtShiftTwo": "sqrt(x-2)",
    "InverseSoftPlusShiftValue": "log(exp(x-v)-1)", "InverseSoftPlusShiftTwo": "log(exp(x-2)-1)",
}


class Link:
    def __init__(self, name, value):
        self.name, self.value = name, value
        self.c = cls(name)
        self.args = {"value": const(value)} if value is not None else {}
        it, st, ref = new_obj(self.c, dict(self.args))
        v = it.get_attr(st, ref, "link_support")
        self.support = Eval({}, it.loops)(it.to_term(st, v))

    def m(self, name):
        it, st, ref = new_obj(self.c, dict(self.args))
        return ext(method(self.c, name), {"x": X}, self.c, it=it, st=st, self_ref=ref)

    def xs(self, n, r):
        lo, hi = self.support
        if lo == -np.inf:
            return r.uniform(-50, 50, n)
        lo = np.round(lo, 12)
        if hi < 10:
            return np.r_[r.uniform(0.05, 0.95, n), 1e-3, 0.999]
        a = np.exp(r.uniform(np.log(1e-3), np.log(39), n))
        b = np.exp(r.uniform(np.log(41), np.log(600 if "SoftPlus" in self.name else 1e6), n // 2))
        return lo + np.r_[a, b, 1.0 + 1e-9]

    def etas(self, n, r):
        if "Sqrt" in self.name:
            return np.r_[r.uniform(0.05, 30, n), 1e3]
        lo = -6.0 if "Shift" in self.name else -16.0
        hi = 30.0 if self.name != "Logit" else 16.0
        e = np.r_[r.uniform(lo, hi, n), r.uniform(-3, 3, n)]
        if self.support[1] == np.inf and ("SoftPlus" in self.name or self.name in ("LogIdent", "Identity")):
            e = np.r_[e, r.uniform(41, 300, 4)]
        return e


def around(v, lo=0.0):
    """add both sides of every constant of the link modules that lies within the core range, and a decade grid"""
    c = np.array(sorted({*mine.mags(("links",), 1e-3, 1e6), *(10.0 ** np.arange(-3, 7))}))
    c = np.r_[-c[::-1], c]
    if np.isfinite(lo):
        c = np.r_[c, lo + c]
    return np.r_[v, c[(c > v.min()) & (c < v.max())]]


def links():
    for c in sorted(prog().subclasses("LinkFunction"), key=lambda c: c.name):
        f = c.lookup("__init__")
        if isinstance(f, Func) and "value" in f.params():
            yield c.name, 1.75
            yield c.name, -0.5
        else:
            yield c.name, None


def num(e, t, x):
    v = np.asarray(Eval({X: x}, e.loops)(t), dtype=float)
    return np.broadcast_to(v, x.shape)


def run(rep):
    from ..ad import parse
    n = 40 if rep.tier == "quick" else 400
    for name, value in links():
        con = name if value is None else f"{name}({value})"

        def one(name=name, value=value, con=con):
            r = rng(40)
            L = Link(name, value)
            xs, es = around(L.xs(n, r), L.support[0]), around(L.etas(n, r))
            rep.count("identity_points", len(xs) + len(es))
            E = {m: L.m(m) for m in ("link", "inverse", "link_derivative", "link_second_derivative", "inverse_derivative")}
            for e in E.values():
                seen(rep, e)

            def judge(rule, what, e, x, got, want, rtol=1e-6, atol=1e-7):
                ok = np.isfinite(got) & (np.abs(got - want) <= rtol * np.abs(want) + atol)
                if ok.all():
                    rep.ob(rule, f"{con}.{what}", HOLDS, e.where(), f"{len(x)} points")
                else:
                    i = int(np.flatnonzero(~ok)[0])
                    rep.ob(rule, f"{con}.{what}", REFUTED, e.where(), f"at {x[i]:.9g}: extracted {got[i]:.9g}, prescribed {want[i]:.9g}")

            def a1():
                mu = num(E["inverse"], E["inverse"].term, es)
                judge("A1", "link(inverse)", E["link"], es, num(E["link"], E["link"].term, mu), es, 1e-6, 3e-6)
                et = num(E["link"], E["link"].term, xs)
                judge("A1", "inverse(link)", E["inverse"], xs, num(E["inverse"], E["inverse"].term, et), xs, 1e-6, 1e-6)
            rep.guard("A1", con, a1)

            def a2():
                e = E["inverse_derivative"]
                if e.term is None:
                    return
                judge("A2", "inverse_derivative", e, es, num(e, e.term, es), num(E["inverse"], diff(E["inverse"].term, X), es), 1e-6, 1e-12)
            rep.guard("A2", con, a2)
            for k, w in ((1, "link_derivative"), (2, "link_second_derivative")):
                def a3(k=k, w=w):
                    e = E[w]
                    if e.term is None:
                        rep.notes.append(f"{con}.{w} is documented as not implemented")
                        return
                    d = diff(E["link"].term, X)
                    if k == 2:
                        d = diff(d, X)
                    # exp(x)-1 loses digits near the edge: compare away from it
                    xx = xs[xs - (L.support[0] if np.isfinite(L.support[0]) else 0) > 0.01] if np.isfinite(L.support[0]) else xs
                    xx = xx[np.abs(xx - L.support[0]) < 30] if "SoftPlus" in name else xx
                    judge("A3", w, e, xx, num(e, e.term, xx), num(E["link"], d, xx), 1e-5, 1e-12)
                rep.guard("A3", f"{con}.{w}", a3)

            def a4():
                s = np.sort(np.unique(es))
                v = num(E["inverse"], E["inverse"].term, s)
                inc = np.diff(v) > 0
                lo, hi = L.support
                inside = (v >= lo) & (v <= hi)
                ok = inc.all() and inside.all()
                rep.ob("A4", con, HOLDS if ok else REFUTED, E["inverse"].where(), f"{len(s)} ordered points, support ({lo}, {hi})" + ("" if ok else f"; increasing={inc.all()} inside={inside.all()}"))
            rep.guard("A4", con, a4)

            def a5():
                if name not in REF:
                    return
                t = parse(REF[name], {"x": X, "v": const(value)})
                xx = xs[(xs - max(L.support[0], -1e9)) > 0.01] if np.isfinite(L.support[0]) else xs
                if "SoftPlus" in name:
                    xx = xx[xx < 600]
                judge("A5", "link", E["link"], xx, num(E["link"], E["link"].term, xx), np.asarray(Eval({X: xx})(t), float), 1e-6, 1e-7)
                z = np.r_[es, r.uniform(-30, -16, 12), -22.0, -25.0, -29.0] if "Sqrt" not in name else es
                want = {"Identity": lambda z: z, "Log": np.exp, "Logit": lambda z: 1 / (1 + np.exp(-z)), "Sqrt": np.square,
                        "InverseSoftPlus": lambda z: np.logaddexp(0, z)}[name.split("Shift")[0]](z) + ({"LogShiftTwo": 2, "SqrtShiftTwo": 2, "InverseSoftPlusShiftTwo": 2}.get(name, value) or 0)
                judge("A5", "inverse", E["inverse"], z, num(E["inverse"], E["inverse"].term, z), want, 1e-7, 2e-15)
            rep.guard("A5", con, a5)
        rep.guard("A1", con, one)
