"""C30 Predictions are the inverse-linked design times coefficients, per parameter."""
from .. import mine
from ..evalt import Fault, close
from ..lab import dist
from ..model import *
from ..scen import *

RULES = {
    "Q1": "predict_distribution_parameters returns, per distribution parameter, the inverse link (or the link scale) of the scaled design times the coefficients; an unknown scale is rejected",
    "Q2": "contributions are the elementwise products and add up to the linear predictor",
    "Q3": "predict, predict_median and predict_quantile are mean, median and quantiles of the predicted distribution, row by row and quantile by quantile",
    "Q4": "the linear model's predict, predict_path and score are design times coefficients, design times path, and R^2",
    "Q5": "row i of every prediction depends on row i of X only, and predictions do not depend on the other rows requested",
}
EXPL = "Value graphs of the prediction methods after arbitrary fit/update histories are compared with the prescribed expression of X and the fitted coefficients."


def variants(r, k, th):
    out = [("one row", data(r, 1)["X"]), ("five equal rows", np.repeat(data(r, 1)["X"], 5, axis=0)), ("X x0.001", data(r, 3)["X"] * 1e-3), ("X x20", data(r, 3)["X"] * 20), ("zero rows", np.zeros((2, 3)))]
    for m in sorted({1e-8, 1e6, 1e12, *(20 * v for v in mine.literals(("estimators", "design_matrix", "scaler", "utils")) if 50 < v < 1e13)}):
        out.append((f"X x{m:g}", data(r, 3)["X"] * m))
    for n in [35] + [n for n in mine.sizes(SRC) if n > 35][:3]:
        out.append((f"{n} rows", data(r, n)["X"]))
    return out


def run(rep):
    r = rng(30)
    th = rep.tier == "thorough"
    for P in (1, 2, 3):
        for k in range(2 if not th else 6):
            def go(P=P, k=k):
                kw = dict(method=meths(P, bool(k % 2)), equation={p: ("all", np.array([0, 2]), np.array([1]))[(p + k) % 3] for p in range(P)}, forget=0.1,
                          scale_inputs=(True, np.array([0, 2]), False)[k % 3], max_it_outer=1, max_it_inner=1, fit_intercept={p: (p + k) % 2 == 0 for p in range(P)})
                if P > 1 and k % 2:
                    kw["param_order"] = np.arange(P)[::-1]
                L, R = build(GA, P, kw)
                wh = lambda m: where(GA, m)
                hist = [("fit", data(r, 8))] + [("update", data(r, 2))] * (k % 2)
                for name, d in hist:
                    L.call(name, **d)
                    getattr(R, name)(**d)
                X = data(r, 4)["X"]
                con = f"{P} parameters #{k}"

                def same(rule, what, m, got, want):
                    ok = close(got, want, 1e-6, 1e-8)
                    rep.ob(rule, f"{what}, {con}", HOLDS if ok else REFUTED, wh(m), "agrees" if ok else f"{short(got, 200)} instead of {short(want, 200)}")

                def call(m, X_=None, **a):
                    try:
                        return L.call(m, X=X if X_ is None else X_, **a)
                    except Raised as e:
                        return f"raises {e.exc}"
                    except Fault as e:
                        return f"fails: {e}"
                th_ = R.theta(X)
                eta = R.eta(X)
                pm = "predict_distribution_parameters"
                same("Q1", "response", pm, call(pm), th_)
                same("Q1", "explicit response", pm, call(pm, what="response"), th_)
                same("Q1", "link", pm, call(pm, what="link"), eta)
                bad = call(pm, what="respones")
                rep.ob("Q1", f"unknown scale, {con}", HOLDS if isinstance(bad, str) else REFUTED, wh(pm), str(bad)[:80])
                Xs = R.sc.transform(X)
                cons = [R.design(Xs, p) * R.coef_[p] for p in range(P)]
                for what, val in (("response", th_), ("link", eta)):
                    got = call(pm, what=what, return_contributions=True)
                    if not isinstance(got, (tuple, list)) or len(got) != 2:
                        rep.ob("Q2", f"contributions {what}, {con}", REFUTED, wh(pm), f"returns {short(got)}")
                        continue
                    same("Q2", f"{what} with contributions", pm, got[0], val)
                    same("Q2", f"contributions ({what})", pm, list(got[1].values()) if isinstance(got[1], dict) else list(got[1]), cons)
                D = lambda n, **a: dist("Distribution." + n, a, P)
                same("Q3", "predict", "predict", call("predict"), D("mean", theta=th_))
                same("Q3", "median", "predict_median", call("predict_median"), D("median", theta=th_))
                for q in (0.1, 0.5, 0.93):
                    same("Q3", f"quantile {q}", "predict_quantile", call("predict_quantile", quantile=q), D("ppf", q=q, theta=th_)[:, None])
                for q in (np.array([0.2, 0.9]), np.array([0.9, 0.2, 0.5, 0.05]), np.array([0.4])):
                    want = np.stack([D("ppf", q=float(v), theta=th_) for v in q], 1)
                    same("Q3", f"quantiles {q}", "predict_quantile", call("predict_quantile", quantile=q), want)
                for m in (pm, "predict", "predict_median"):
                    full = L.call(m, X=X)
                    for sel in (np.array([2]), np.array([3, 1])):
                        same("Q5", f"{m} rows {sel}", m, L.call(m, X=X[sel]), np.asarray(full)[sel])
                # other numbers of rows, magnitudes and repeated rows
                for lb, Xv in variants(r, k, th):
                    t = R.theta(Xv)
                    for m, a, want in ((pm, {}, t), (pm, dict(what="link"), R.eta(Xv)), ("predict", {}, D("mean", theta=t)), ("predict_median", {}, D("median", theta=t)),
                                       ("predict_quantile", dict(quantile=0.003), D("ppf", q=0.003, theta=t)[:, None]), ("predict_quantile", dict(quantile=0.9995), D("ppf", q=0.9995, theta=t)[:, None])):
                        same("Q3" if "predict_d" not in m else "Q1", f"{m} {a or ''} of {lb}", m, call(m, X_=Xv, **a), want)
                rep.functions.update(L.it.funcs_seen)
            rep.guard("Q1", f"{P} parameters #{k}", go)
    for k in range(4 if not th else 10):
        def go(k=k):
            kw = dict(method=record("M", k % 2 == 0), fit_intercept=k != 1, scale_inputs=(True, False, np.array([1]))[k % 3], forget=0.1)
            L, R = build(LI, 1, kw)
            for name, d in [("fit", data(r, 8)), ("update", data(r, 2))][:1 + k % 2]:
                L.call(name, **d)
                getattr(R, name)(**d)
            d = data(r, 4)
            X, y = d["X"], d["y"]
            obs = [("predict", dict(X=X), R.predict(X)), ("score", dict(X=X, y=y), R.score(X, y))]
            for lb, Xv in variants(r, k, th):
                obs.append(("predict", dict(X=Xv), R.predict(Xv)))
            for ym in (1e-6, 1e-3, 1e4):
                obs.append(("score", dict(X=X, y=y * ym), R.score(X, y * ym)))
                obs.append(("score", dict(X=X, y=y * ym + 3), R.score(X, y * ym + 3)))
            yp = R.predict(X) + 1e-4 * y
            obs.append(("score", dict(X=X, y=yp), R.score(X, yp)))
            big = data(r, 30)
            obs.append(("score", dict(X=big["X"], y=big["y"]), R.score(big["X"], big["y"])))
            if k % 2 == 0:
                obs.append(("predict_path", dict(X=X), R.predict_path(X)))
            for m, a, want in obs:
                try:
                    got = L.call(m, **a)
                except Raised as e:
                    got = f"raises {e.exc}"
                except Fault as e:
                    got = f"fails: {e}"
                ok = close(got, want, 1e-6, 1e-8)
                rep.ob("Q4", f"{m} #{k}", HOLDS if ok else REFUTED, where(LI, m), "agrees" if ok else f"{short(got, 200)} instead of {short(want, 200)}")
            rep.functions.update(L.it.funcs_seen)
        rep.guard("Q4", f"linear #{k}", go)
