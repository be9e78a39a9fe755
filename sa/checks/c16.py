"""C16 Prediction, scoring and transformation are pure."""
from ..model import *
from ..scen import *

RULES = {
    "U1": "prediction, scoring and transformation methods leave every value reachable from the estimator unchanged",
    "U2": "they leave the caller's arrays unchanged",
    "U3": "repeating the call gives the same result, and interleaving predictions with updates does not change the history",
    "U4": "density, distribution, quantile, derivative and link functions change neither their object nor their arguments",
}
EXPL = ("The abstract state reachable from the object before and after the call is compared value by value (post-state terms must denote the pre-state); "
        "arguments are caller-owned cells whose content must be the original leaf at exit.")


def judge(rep, L, con, m, args):
    pre = L.reach()
    n = len(L.owned)
    try:
        a = L.call(m, **args)
    except Raised as e:
        rep.ob("U1", con, UNDECIDED, where(L.c, m), f"raises {e.exc}")
        return
    bad = [k for k, w in L.changed(pre, L.reach()) if not k.startswith("self.n_features_in_")]
    rep.ob("U1", con, REFUTED if bad else HOLDS, where(L.c, m), f"changes {', '.join(bad[:5])}" if bad else f"{len(pre)} values unchanged")
    alt = [h for h, _, _ in L.altered()]
    rep.ob("U2", con, REFUTED if alt else HOLDS, where(L.c, m), f"alters the caller's {alt}" if alt else "arguments unchanged")
    from ..evalt import close
    b = L.call(m, **args)
    rep.ob("U3", con, HOLDS if close(a, b, 0, 0) or short(a) == short(b) else REFUTED, where(L.c, m), "same result when repeated" if close(a, b, 0, 0) else f"{short(a, 100)} then {short(b, 100)}")


def run(rep):
    r = rng(16)
    th = rep.tier == "thorough"
    for path in (False, True):
        def go(path=path):
            kw = dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: np.array([0, 2])}, max_it_outer=1, max_it_inner=1, scale_inputs=np.array([0, 1]) if path else True)
            L, R = build(GA, 2, kw)
            for name, n in (("fit", 8), ("update", 2)):
                d = data(r, n)
                L.call(name, **d)
                R_ = getattr(R, name)(**d)
                X = data(r, 3)["X"]
                for m, a in (("predict", {}), ("predict_median", {}), ("predict_distribution_parameters", {}), ("predict_distribution_parameters", dict(what="link")),
                             ("predict_distribution_parameters", dict(return_contributions=True)), ("predict_quantile", dict(quantile=np.array([.6, .1]))), ("predict_quantile", dict(quantile=.4))):
                    judge(rep, L, f"{GA}.{m} {short(a, 40)} after {name} ({'path' if path else 'ols'})", m, dict(X=X, **a))
            d = data(r, 2)
            try:
                compare(L, R, GA, [("update", d)], X=data(r, 2)["X"])
                rep.ob("U3", f"{GA} update after predictions ({'path' if path else 'ols'})", HOLDS, where(GA, "update"), "history unaffected by predictions")
            except Diff as x:
                rep.ob("U3", f"{GA} update after predictions ({'path' if path else 'ols'})", REFUTED, where(GA, "update"), f"{x.what}: {x.detail}")
            rep.functions.update(L.it.funcs_seen)
        rep.guard("U1", f"{GA} {'path' if path else 'ols'}", go)

        def go(path=path):
            L, R = build(LI, 1, dict(method=record("M", path), forget=0.1, fit_intercept=not path))
            for name, n in (("fit", 8), ("update", 2)):
                L.call(name, **data(r, n))
                d = data(r, 3)
                for m, a in (("predict", {}), ("score", dict(y=d["y"]))) + ((("predict_path", {}),) if path else ()):
                    judge(rep, L, f"{LI}.{m} after {name} ({'path' if path else 'ols'})", m, dict(X=d["X"], **a))
            rep.functions.update(L.it.funcs_seen)
        rep.guard("U1", f"{LI} {'path' if path else 'ols'}", go)
    for sel in (True, False, np.array([0, 2]), np.array([True, False, True])):
        def go(sel=sel):
            L = Lab("OnlineScaler", forget=0.1, to_scale=sel)
            for name, n in (("fit", 6), ("update", 2)):
                d = data(r, n)
                L.call(name, X=d["X"], sample_weight=d["sample_weight"])
                for m in ("transform", "inverse_transform"):
                    judge(rep, L, f"OnlineScaler.{m} after {name} to_scale={short(sel, 40)}", m, dict(X=data(r, 3)["X"]))
        rep.guard("U1", f"OnlineScaler {short(sel, 40)}", go)
    # distributions and links
    P = prog()
    base = [("Distribution", ("pdf", "cdf", "ppf", "pmf", "logpdf", "logpmf", "logcdf", "rvs", "mean", "median", "quantile", "dl1_dp1", "dl2_dp2", "dl2_dpp", "link_function", "link_inverse",
                              "link_function_derivative", "link_inverse_derivative", "initial_values", "theta_to_params", "theta_to_scipy_params", "calculate_conditional_initial_values")),
            ("LinkFunction", ("link", "inverse", "link_derivative", "link_second_derivative", "inverse_derivative"))]
    for b, ms in base:
        B = cls(b)
        for c in P.classes.values():
            if c is B or B not in c.mro():
                continue
            for m in ms:
                f = c.lookup(m)
                if not isinstance(f, Func) or f.is_abstract:
                    continue

                def go(c=c, m=m, f=f):
                    it = Interp(P)
                    st = State()
                    ref = it.alloc(st, ObjC(c, (), sym("self", "opaque"), ("pre", "self")))
                    args = {p: sym(p, "int" if p in ("param", "size", "axis") else "any") for p in f.params() if p not in ("self", "cls")}
                    e = ext(f, args, c, it=it, st=st, self_ref=ref)
                    sets = [v for v in it.events if v.kind == "setattr" and v.data[1][0] in ("pre", "caller")]
                    sets += [v for v in it.events if v.kind in ("classwrite", "globalwrite")]
                    sets += [v for v in it.events if v.kind == "write" and v.data[1] and v.data[1][0] in ("caller", "pre", "global", "class")]
                    bad = [v for v in sets if v.kind != "write" or not _same(it, e, v)]
                    rep.ob("U4", f"{c.name}.{m}", REFUTED if bad else HOLDS, bad[0].where() if bad else e.where(), f"{bad[0].kind} {bad[0].data[1:]}" if bad else "no write to self, arguments, class or module")
                    rep.functions.update(it.funcs_seen)
                rep.guard("U4", f"{c.name}.{m}", go)


def _same(it, e, v):
    """a write that leaves the written cell with its original content"""
    if e.st is None:
        return False
    c = e.st.heap.get(v.data[0])
    return isinstance(c, ArrC) and c.content.op == "sym"
