"""C29 Fitting again starts afresh."""
from ..lab import Real
from ..model import *
from ..scen import *
from .c26 import IN, OBJ, same

RULES = {
    "A1": "fit on an estimator with any history gives the state of a fit on a new estimator (uninterpreted method), and so do the updates after it",
    "A2": "the same with the concrete estimation methods, whose settings may be derived from data at the first fit",
    "A3": "the second fit may have another number of features",
    "A4": "the same holds for the scaler",
    "A5": "parameters assigned after a fit take effect in the next fit, which gives what a new estimator with these parameters gives",
}
EXPL = ("Histories with several fits are abstractly interpreted in one heap; every observable after the last fit (and updates after it) must denote the value "
        "prescribed for the history from the last fit on.")


def value(L, o):
    try:
        return L.get(o)
    except Fault:  # not set on this path
        return None


def tail(rep, rule, con, cname, P, kw, hist, last, X, real=False, change=None, new={}):
    """hist[:last] is the earlier life of the estimator"""
    wh = where(cname, "fit")

    def go():
        lab = dict(inline=IN) if real else {}
        A = Lab(cname, params=P, **lab, **kw())
        B = Lab(cname, params=P, **lab, **{**kw(), **new})
        bad = ""
        for i, (name, d) in enumerate(hist):
            if i == last and change:
                change(A)
            try:
                A.call(name, **d)
            except Raised as e:
                if i < last:
                    raise Unknown(f"{name} raises {e.exc}")
                bad = f"{name} after an earlier fit raises {e.exc}"
                break
            if i < last:
                continue
            B.call(name, **d)
            for o in ("coef_", "coef_path_", "n_observations_", "n_training_"):
                a, b = value(A, o), value(B, o)
                if b is None and change:  # this configuration does not report it
                    continue
                if not (a is None and b is None or same(a, b) if not isinstance(a, dict) else all(k in b and (a[k] is None and b[k] is None or same(a[k], b[k])) for k in a)):
                    bad = f"{o} after {name} is {short(a, 100)} instead of {short(b, 100)} as on a new estimator"
            if bad:
                break
        if not bad:
            m = "predict_distribution_parameters" if cname == GA else "predict"
            a, b = A.call(m, X=X), B.call(m, X=X)
            if not same(a, b):
                bad = f"{m} gives {short(a, 100)} instead of {short(b, 100)}"
        rep.ob(rule, con, REFUTED if bad else HOLDS, wh, bad or f"history {[(n, len(d['y'])) for n, d in hist]} agrees with {[(n, len(d['y'])) for n, d in hist[last:]]}")
        rep.functions.update(A.it.funcs_seen)
        rep.count("histories", 2)
        rep.count("calls", len(hist))
    rep.guard(rule, con, go, wh)


def params_of(cname):
    return cls(cname).lookup("__init__").params()


def reset(rep, cname, P, kw, new, hist, last, X, real):
    """hist[:last] runs with kw; new is assigned; hist[last:] must be as on a new estimator with kw|new"""
    def change(L):
        for k, v in new.items():
            L.st.heap[L.ref.oid] = L.st.heap[L.ref.oid].set(k, L.lift(v, k))
    tail(rep, "A5", f"{cname} {short(kw, 60)} then {short(new, 80)}", cname, P, lambda: kw, hist, last, X, real, change, new)


def run(rep):
    r = rng(29)
    th = rep.tier == "thorough"
    shapes = [((8, 8), 1), ((8, 2, 9, 1), 2)] + ([((8, 1, 1, 8, 2, 2), 3), ((8, 7, 2, 9, 1), 3)] if th else [])
    for sp, last in shapes:
        fits = {0, last} | ({1} if sp == (8, 7, 2, 9, 1) else set())

        def hist(J2):
            return [("fit" if i in fits else "update", data(r, n, J=3 if i < last else J2)) for i, n in enumerate(sp)]
        for J2 in (3, 2, 4):
            rule = "A1" if J2 == 3 else "A3"
            for path in (False, True):
                for sc in (True, False):
                    tail(rep, rule, f"linear {'path' if path else 'ols'} {sp} {J2} features scale={sc}", LI, 1, lambda: dict(method=record("M", path), forget=0.1, scale_inputs=sc), hist(J2), last, data(r, 2, J=J2)["X"])
                cfg = [dict(), dict(prefit_initial=1, prefit_update=1), dict(prefit_update=2, max_it_inner=2), dict(prefit_initial=1, max_it_inner=3), dict(cautious_updates=True, max_it_inner=2), dict(cautious_updates=True), dict(debug=True), dict(step_size=0.5), dict(model_selection="global_ll")]
                for c in cfg if J2 == 3 else cfg[:1]:
                    tail(rep, rule, f"distributional {'path' if path else 'ols'} {sp} {J2} features {c}", GA, 2,
                         lambda: dict(dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: np.array([1])}, max_it_outer=2, max_it_inner=1,
                                           abs_tol_outer=1e-9, rel_tol_outer=1e-12), **c), hist(J2), last, data(r, 2, J=J2)["X"])
            for c, kw in OBJ:
                tail(rep, "A2" if J2 == 3 else "A3", f"linear {c} {kw} {sp} {J2} features", LI, 1, lambda: dict(method=Real(c, **kw)), hist(J2), last, data(r, 2, J=J2)["X"], True)
                tail(rep, "A2" if J2 == 3 else "A3", f"distributional {c} {kw} {sp} {J2} features", GA, 2,
                     lambda: dict(method=Real(c, **kw), equation={0: "all", 1: np.array([1])}, max_it_outer=1, max_it_inner=1), hist(J2), last, data(r, 2, J=J2)["X"], True)
            tail(rep, "A2" if J2 == 3 else "A3", f"OnlineLasso {sp} {J2} features", "OnlineLasso", 1, lambda: dict(lambda_n=5), hist(J2), last, data(r, 2, J=J2)["X"], True)
    # parameters changed between two fits
    OLP = [dict(lambda_n=7), dict(lambda_eps=0.05), dict(early_stop=2), dict(start_value_initial="average"), dict(start_value_update="previous_lambda"), dict(selection="random"), dict(tolerance=0.3),
           dict(max_iterations=3), dict(beta_lower_bound=np.full(4, -0.2)), dict(beta_upper_bound=np.full(4, 0.2)), dict(forget=0.2), dict(fit_intercept=False), dict(scale_inputs=False), dict(regularize_intercept=True),
           dict(ic="bic")]
    for new in OLP:
        if not all(k in params_of("OnlineLasso") for k in new):
            continue
        if new.get("fit_intercept") is False or "beta_lower_bound" not in new and "beta_upper_bound" not in new:
            reset(rep, "OnlineLasso", 1, dict(lambda_n=5), new, [("fit", data(r, 8)), ("update", data(r, 2)), ("fit", data(r, 9)), ("update", data(r, 2))], 2, data(r, 2)["X"], True)
        else:
            reset(rep, "OnlineLasso", 1, dict(lambda_n=5), new, [("fit", data(r, 8)), ("fit", data(r, 9)), ("update", data(r, 1))], 1, data(r, 2)["X"], True)
    for new in (dict(method=Real("OrdinaryLeastSquares")), dict(method="ols"), dict(method=Real("LassoPath", lambda_n=4)), dict(forget=0.3), dict(fit_intercept=False), dict(scale_inputs=False), dict(ic="hqc"), dict(regularize_intercept=True)):
        reset(rep, LI, 1, dict(method=Real("ElasticNetPath", alpha=0.3, lambda_n=5)), new, [("fit", data(r, 8)), ("update", data(r, 2)), ("fit", data(r, 9)), ("update", data(r, 2))], 2, data(r, 2)["X"], True)
    for new in (dict(method="ols"), dict(forget=0.3), dict(fit_intercept={0: False, 1: True}), dict(scale_inputs=False), dict(ic="bic"), dict(equation={0: np.array([0]), 1: "all"}), dict(equation={0: "intercept", 1: np.array([1, 2])}),
                dict(max_it_inner=2), dict(max_it_outer=1), dict(step_size=0.5), dict(regularize_intercept={0: True, 1: True}), dict(model_selection="global_ll")):
        reset(rep, GA, 2, dict(method=Real("LassoPath", lambda_n=4), equation={0: "all", 1: np.array([1])}, max_it_outer=2, max_it_inner=1), new,
              [("fit", data(r, 8)), ("update", data(r, 2)), ("fit", data(r, 9)), ("update", data(r, 2))], 2, data(r, 2)["X"], True)
    # scaler
    for ts in (True, False, np.array([0, 1]), np.array([True, False, True])):
        def go(ts=ts):
            A, B = Lab("OnlineScaler", to_scale=ts, forget=0.1), Lab("OnlineScaler", to_scale=ts, forget=0.1)
            h = [("fit", data(r, 6)), ("update", data(r, 2)), ("fit", data(r, 7)), ("update", data(r, 2))]
            bad = ""
            for i, (n, d) in enumerate(h):
                d = {k: v for k, v in d.items() if k != "y"}
                A.call(n, **d)
                if i >= 2:
                    B.call(n, **d)
                    X = data(r, 3)["X"]
                    a, b = A.call("transform", X=X), B.call("transform", X=X)
                    if not same(a, b):
                        bad = f"transform after {n} gives {short(a, 100)} instead of {short(b, 100)}"
            rep.ob("A4", f"to_scale={ts}", REFUTED if bad else HOLDS, where("OnlineScaler", "fit"), bad or "as on a new scaler")
        rep.guard("A4", f"to_scale={ts}", go)
