"""C26 Estimation methods resolve as documented and are private to each parameter."""
from ..evalt import close
from ..lab import Real
from ..model import *
from ..scen import *

RULES = {
    "F1": "the names ols, lasso and elasticnet denote OrdinaryLeastSquares(), LassoPath() and ElasticNetPath(alpha=0.5): the same history gives the same result",
    "F2": "unknown names and objects that are no estimation method are rejected with ValueError",
    "F3": "one method object given for several distribution parameters (or several estimators) behaves as separate equal objects",
    "F4": "the method object handed in keeps its settings through every history",
}
EXPL = ("Histories with the concrete method classes (solvers and Gramians uninterpreted) are abstractly interpreted under pairs of configurations that must "
        "mean the same; every observable of the two value graphs must denote the same value.")
IN = ("EstimationMethod", "get_estimation_method")
NAMES = {"ols": ("OrdinaryLeastSquares", {}), "lasso": ("LassoPath", {}), "elasticnet": ("ElasticNetPath", {"alpha": 0.5})}
OBJ = [("OrdinaryLeastSquares", {}), ("Ridge", {}), ("Ridge", {"lambda_reg": 0.7}), ("LassoPath", {"lambda_n": 5}), ("ElasticNetPath", {"alpha": 0.3, "lambda_n": 5})]


def watch(cname, P, kw, hist):
    L = Lab(cname, params=P, inline=IN, **kw)
    out = []
    for name, d in hist:
        try:
            L.call(name, **d)
        except Raised as e:
            out.append(("raises", str(e.exc)))
            break
        c = L.get("coef_")
        out.append(c)
    return L, out


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(close(a[k], b[k], 1e-9, 1e-10) for k in a)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    return close(a, b, 1e-9, 1e-10)


def judge(rep, rule, con, cname, P, kw1, kw2, hist, what):
    wh = where(cname, "fit")

    def go():
        A, a = watch(cname, P, kw1, hist)
        _, b = watch(cname, P, kw2, hist)
        bad = [(h[0], i) for i, (h, x, y) in enumerate(zip(hist, a, b)) if not same(x, y)] or ([("", len(a))] if len(a) != len(b) else [])
        rep.ob(rule, con, REFUTED if bad else HOLDS, wh, f"coefficients after call {bad[0][1] + 1} ({bad[0][0]}) differ from {what}: {short(a[bad[0][1]], 100)} instead of {short(b[bad[0][1]], 100)}"
               if bad else f"{len(hist)} calls agree")
        rep.functions.update(A.it.funcs_seen)
        rep.count("histories", 2)
    rep.guard(rule, con, go, wh)


def run(rep):
    r = rng(26)
    th = rep.tier == "thorough"
    gkw = dict(equation={0: "all", 1: np.array([0, 2])}, max_it_outer=1, max_it_inner=2 if th else 1, forget=0.1)
    H = lambda n=2: [("fit", data(r, 9))] + [("update", data(r, 2)) for _ in range(n - 1)]
    for s, (c, kw) in NAMES.items():
        hist = H()
        judge(rep, "F1", f"linear {s}", LI, 1, dict(method=s), dict(method=Real(c, **kw)), hist, f"{c}({kw})")
        judge(rep, "F1", f"distributional {s}", GA, 2, dict(gkw, method=s), dict(gkw, method={0: Real(c, **kw), 1: Real(c, **kw)}), hist, f"{c}({kw})")
        judge(rep, "F1", f"distributional {s} by parameter", GA, 2, dict(gkw, method={0: s, 1: "ols"}), dict(gkw, method={0: Real(c, **kw), 1: Real("OrdinaryLeastSquares")}), hist, f"{c}({kw})")
    for c, kw in OBJ:
        hist = H(3)
        one = Real(c, **kw)
        judge(rep, "F3", f"{c} {kw} shared by two parameters", GA, 2, dict(gkw, method=one), dict(gkw, method={0: Real(c, **kw), 1: Real(c, **kw)}), hist, "separate objects")
        judge(rep, "F3", f"{c} {kw} shared in a dictionary", GA, 2, dict(gkw, method={0: one, 1: one}), dict(gkw, method={0: Real(c, **kw), 1: Real(c, **kw)}), hist, "separate objects")
    # the user's object keeps its settings
    for c, kw in OBJ:
        for cname, P, base in ((LI, 1, {}), (GA, 2, gkw)):
            con = f"{c} {kw} in {cname}"

            def go(c=c, kw=kw, cname=cname, P=P, base=base, con=con):
                one = Real(c, **kw)
                L = Lab(cname, params=P, inline=IN, **dict(base, method=one))
                ref = L.methods[id(one)]
                pre = L.reach(v=ref)
                for name, d in H(3):
                    L.call(name, **d)
                bad = [k for k, w in L.changed(pre, L.reach(v=ref))]
                rep.ob("F4", con, REFUTED if bad else HOLDS, where(cname, "fit"), f"fit/update change {', '.join(bad[:4])} of the method object handed in" if bad else f"{len(pre)} settings unchanged")
            rep.guard("F4", con, go)
    # rejection
    f = func("methods.factory", "get_estimation_method")
    for v, what in ((const("ridgee"), "unknown name"), (const("OLS"), "wrong case"), (const(""), "empty name"), (const(3), "an int"), (const(None), "None")):
        def go(v=v, what=what):
            e = ext(f, {f.params()[0]: v})
            rs = [x for x in e.it.events if x.kind == "raise"]
            ok = e.value is None and any("ValueError" in str(x.data[0]) for x in rs)
            rep.ob("F2", what, HOLDS if ok else REFUTED, e.where(), "rejected with ValueError" if ok else f"not rejected with ValueError ({[str(x.data[0]) for x in rs]})")
        rep.guard("F2", what, go)
