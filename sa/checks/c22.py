"""C22 Training and prediction use the same, configured design."""
from ..model import *
from ..scen import *

RULES = {
    "D1": "the design of every parameter consists of the columns its equation selects (all, intercept only, column names, integer or boolean index), scaled as configured, with the intercept first when requested",
    "D2": "fit, update and predict build the same design, with the scaler state current at that call",
    "D3": "the intercept is penalised exactly when asked for, all other coefficients always are",
    "D4": "contradictory designs (intercept-only without an intercept, penalised intercept without one, wrong column selection) are rejected",
}
EXPL = ("The design enters the uninterpreted estimation operations as an argument, so value graphs of fit/update/predict histories determine it; they "
        "are compared with the prescribed design for every kind of equation, intercept and scaling setting.")


def run(rep):
    r = rng(22)
    th = rep.tier == "thorough"
    J = 4
    eqs = [("all", "all"), ("all", "intercept"), (np.array([2, 0]), "all"), (np.array([True, False, False, True]), np.array([3])), ("intercept", np.array([0, 1, 3]))]
    ints = [(True, True), (False, True), (True, False), (False, False)]
    scs = [True, False, np.array([0, 2]), np.array([False, True, True, False])]
    k = 0
    for a, eq in enumerate(eqs):
        for b, fi in enumerate(ints):
            if any(isinstance(e, str) and e == "intercept" and not i for e, i in zip(eq, fi)):
                continue
            for c, sc in enumerate(scs):
                if not th and (a + b + c) % 2:
                    continue
                for path in (False, True):
                    k += 1
                    H = [("fit", data(r, 9, J)), ("update", data(r, 3, J)), ("update", data(r, 1, J))]
                    kw = dict(method=meths(2, path, 5), equation=dict(enumerate(eq)), fit_intercept=dict(enumerate(fi)), scale_inputs=sc, forget=0.1 if k % 3 else 0.0,
                              max_it_outer=1, max_it_inner=1, regularize_intercept=bool(k % 5 == 0))
                    scenario(rep, "D1" if path else "D2", f"equation {short(eq, 80)} intercept {fi} scale {short(sc, 40)} {'path' if path else 'ols'}", GA, kw, H, X=data(r, 3, J)["X"])
    stressed(rep, "D2", r, th, lambda lb: "forget" not in lb, fit_intercept={0: True, 1: False})
    for ri in ({0: True, 1: False}, {0: False, 1: True}, True, False):
        for eq in ({0: "all", 1: "all"}, {0: "all", 1: "intercept"}, {0: "intercept", 1: "all"}):
            for fi in (True, {0: True, 1: "intercept" in str(eq[1])}):
                if isinstance(fi, dict) and fi[1] is True:
                    continue
                H = [("fit", data(r, 9, J)), ("update", data(r, 2, J))]
                scenario(rep, "D3", f"regularize_intercept {ri}, {eq}, intercept {fi}", GA,
                         dict(method=meths(2, True, 5), equation=eq, regularize_intercept=ri, fit_intercept=fi, max_it_outer=1, max_it_inner=1), H, X=data(r, 3, J)["X"])
    for fi in (True, False):
        for sc in scs:
            for ri in (False, True) if fi else (False,):
                for path in (False, True):
                    H = [("fit", data(r, 9, J)), ("update", data(r, 3, J)), ("update", data(r, 1, J))]
                    scenario(rep, "D3" if ri else "D2", f"linear intercept {fi} scale {short(sc, 40)} regularize_intercept {ri} {'path' if path else 'ols'}", LI,
                             dict(method=record("M", path), fit_intercept=fi, scale_inputs=sc, regularize_intercept=ri, forget=0.05), H, X=data(r, 3, J)["X"])

    # other numbers of columns, repeated and negative indices
    for Jn in (1, 2, 11):
        for i, (fi, ri, path) in enumerate(((True, True, True), (True, False, True), (False, False, False), (True, True, False))):
            H = [("fit", data(r, 16, Jn)), ("update", data(r, 2, Jn))]
            X = data(r, 2, Jn)["X"]
            scenario(rep, "D3", f"linear {Jn} columns intercept {fi} regularize_intercept {ri} {'path' if path else 'ols'}", LI,
                     dict(method=record("M", path), fit_intercept=fi, regularize_intercept=ri, forget=0.05), H, X=X)
            kw = dict(method=meths(2, path, 5), equation={0: ("all", np.array([0]))[i % 2], 1: (np.array([0]), "intercept", "all")[i % 3]}, fit_intercept={0: fi, 1: True}, regularize_intercept=ri, forget=0.05, max_it_outer=1, max_it_inner=1)
            scenario(rep, "D3", f"distributional {Jn} columns intercept {fi} regularize_intercept {ri} {'path' if path else 'ols'}", GA, kw, H, X=X)
    for eq in (np.array([-1]), np.array([-4, 2]), np.array([1, 1]), np.array([3, 2, 1, 0]), np.array([False, False, True, False])):
        kw = dict(method=meths(2, False, 5), equation={0: "all", 1: eq}, max_it_outer=1, max_it_inner=1)
        scenario(rep, "D1", f"equation {eq}", GA, kw, [("fit", data(r, 9, J)), ("update", data(r, 2, J))], X=data(r, 3, J)["X"])
    # data frames: columns selected by their names, wherever they are in the frame
    for i, (eq, cols) in enumerate(((["a"], "abcd"), (["d", "b"], "abcd"), (["b", "a", "c"], "dcba"), ([3, 1], "abcd"), (["c", "c"], "abcd"))):
        kw = dict(method=meths(2, bool(i % 2), 5), equation={i % 2: eq, 1 - i % 2: ("all", "intercept")[i % 2]}, fit_intercept={0: True, 1: i != 2}, forget=0.1, max_it_outer=1, max_it_inner=1)
        if i == 2:
            kw["equation"][1] = ["c"]
        scenario(rep, "D1", f"columns {kw['equation']} of {cols}", GA, kw, [("fit", data(r, 9, J)), ("update", data(r, 2, J))], X=data(r, 3, J)["X"], columns=cols)

    def reject(con, cname, kw):
        def go():
            if cname == GA:
                kw.update(max_it_outer=1, max_it_inner=1)
            L = Lab(cname, params=2, **kw)
            try:
                L.call("fit", **data(r, 9, J))
            except Raised as e:
                rep.ob("D4", con, HOLDS, where(cname, "fit"), f"{e.exc} at {e.event.where() if e.event else '?'}")
            else:
                rep.ob("D4", con, REFUTED, where(cname, "fit"), "accepted")
        rep.guard("D4", con, go)
    m = meths(2, False)
    reject("intercept-only equation without intercept (1)", GA, dict(method=m, equation={0: "all", 1: "intercept"}, fit_intercept={0: True, 1: False}))
    reject("intercept-only equation without intercept (0)", GA, dict(method=m, equation={0: "intercept", 1: "all"}, fit_intercept={0: False, 1: True}))
    reject("unknown equation", GA, dict(method=m, equation={0: "some", 1: "all"}))
    reject("column that does not exist", GA, dict(method=m, equation={0: ["a", "z"], 1: "all"}, columns="abcd"))
    reject("column names without a data frame", GA, dict(method=m, equation={0: ["a", "b"], 1: "all"}))
    reject("boolean selection of wrong length", GA, dict(method=m, equation={0: np.array([True, False]), 1: "all"}))
    reject("index beyond the columns", GA, dict(method=m, equation={0: "all", 1: np.array([0, J])}))
    reject("linear: penalised intercept without intercept", LI, dict(method=record("M", True), fit_intercept=False, regularize_intercept=True))
