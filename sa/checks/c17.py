"""C17 Objects handed in by the caller are never modified, nor aliased by the state."""
from ..model import *
from ..scen import *

RULES = {
    "O1": "arrays passed to fit, update, partial_fit and predict keep their content, now and after every later call",
    "O2": "dictionaries and arrays passed to the constructor keep their keys and content through every call",
    "O3": "estimation method objects passed by the user are used through private copies only",
    "O4": "overwriting the arrays after a call has no effect on the estimator",
}
EXPL = ("Caller-owned cells of the abstract heap are compared with the leaves they were created with after every call of a history; aliasing is judged by "
        "overwriting them with fresh leaves and comparing the continued history with the prescribed one.")


def run(rep):
    r = rng(17)
    th = rep.tier == "thorough"
    cfgs = []
    for path in (False, True):
        m = record("M", path)
        cfgs.append((LI, 1, dict(method=m, forget=0.1, scale_inputs=np.array([0, 2])), f"linear {'path' if path else 'ols'}"))
        cfgs.append((LI, 1, dict(method=m, fit_intercept=False, scale_inputs=False), f"linear {'path' if path else 'ols'} unscaled, no intercept"))
        for dbg in (False, True):
            cfgs.append((GA, 2, dict(method={0: record("M0", path), 1: record("M1", path)}, forget={0: 0.1}, equation={0: "all"}, ic={1: "bic"}, fit_intercept={0: True}, regularize_intercept={0: False},
                                     step_size={1: 0.9}, param_order=np.array([1, 0]), max_it_outer=1, max_it_inner=2, debug=dbg, scale_inputs=np.array([True, False, True])), f"distributional {'path' if path else 'ols'} partial dicts debug={dbg}"))
        cfgs.append((GA, 2, dict(method={0: record("M0", path), 1: record("M1", path)}, equation={0: np.array([0, 1]), 1: np.array([True, False, True])}, fit_intercept=False, scale_inputs=False,
                                 max_it_outer=1, max_it_inner=1), f"distributional {'path' if path else 'ols'} unscaled"))
        cfgs.append((GA, 2, dict(method={0: record("M0", path), 1: record("M1", path)}, equation={0: "all", 1: "all"}, fit_intercept=False, scale_inputs=False,
                                 max_it_outer=1, max_it_inner=1, model_selection="global_ll"), f"distributional {'path' if path else 'ols'} raw design"))
    for cname, P, kw, tag in cfgs:
        for w in (True, False) if th else (True,):
            def go(cname=cname, P=P, kw=kw, tag=tag, w=w):
                step = "step_size" in kw
                L, R = build(cname, P, kw)
                X0 = data(r, 2)["X"]
                calls = [("fit", data(r, 8, w=w)), ("predict" if cname == LI else "predict_distribution_parameters", dict(X=X0))]
                if not step:
                    calls += [("update", data(r, 3, w=w)), ("update", data(r, 1, w=w))]
                for name, d in calls:
                    try:
                        L.call(name, **d)
                    except Raised as e:
                        rep.ob("O1", f"{tag}: {name}", UNDECIDED, where(cname, name), f"raises {e.exc}")
                        return
                    bad = [(h, g, v) for h, g, v in L.altered()]
                    args = [h for h, _, _ in bad if h in ("X", "y", "sample_weight")]
                    ctor = [h for h, _, _ in bad if h not in ("X", "y", "sample_weight")]
                    rep.ob("O1", f"{tag}: {name}", REFUTED if args else HOLDS, where(cname, name), f"content of {args} altered" if args else "unaltered")
                    rep.ob("O2", f"{tag}: {name}", REFUTED if ctor else HOLDS, where(cname, name), f"{ctor[0]}: now {short([g for h, g, _ in bad if h == ctor[0]][0], 120)}" if ctor else "unaltered")
                    if args or ctor:
                        return
                rep.count("owned_objects", len(L.owned))
                # O4: continue after scribbling over everything handed in
                L, R = build(cname, P, kw)
                hist = [("fit", data(r, 8, w=w))] + ([] if step else [("update", data(r, 3, w=w)), ("update", data(r, 1, w=w))])
                for name, d in hist:
                    try:
                        compare(L, R, cname, [(name, d)], X=X0)
                        L.scribble()
                        compare(L, R, cname, [], X=X0)
                    except Diff as x:
                        rep.ob("O4", f"{tag}: {name}", REFUTED, where(cname, name), f"the estimator still reads the caller's array: {x.what}: {x.detail}")
                        break
                    rep.ob("O4", f"{tag}: {name}", HOLDS, where(cname, name), "no alias of the caller's arrays is observable")
                rep.functions.update(L.it.funcs_seen)
            rep.guard("O1", tag + ("" if w else " unweighted"), go)

    # O3 private copies
    for cname, P, kw in ((LI, 1, dict(method=record("M", True))), (GA, 2, dict(method={0: record("M0", False), 1: record("M1", True)}, equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1)),
                         (GA, 2, dict(method=record("M", True), max_it_outer=1, max_it_inner=1))):
        def go(cname=cname, P=P, kw=kw):
            L = Lab(cname, params=P, inline=("get_estimation_method",), **kw)
            users = {sym(m, "opaque") for m in L.methods}
            used = {}
            for name, n in (("fit", 8), ("update", 2)):
                L.run(name, **data(r, n))
                for e in L.last:
                    if e.kind == "icall" and e.data[0].startswith("EstimationMethod."):
                        used.setdefault(e.data[1], e)
                    if e.kind in ("setattr",) and e.data[1][0] == "caller":
                        used.setdefault(sym(next(iter(L.methods)), "opaque"), e)
            bad = [e for t, e in used.items() if t in users]
            rep.ob("O3", f"{cname} {sorted(L.methods)}", REFUTED if bad else HOLDS, bad[0].where() if bad else where(cname, "fit"),
                   "the user's method object is used directly" if bad else f"{len(used)} private copies")
        rep.guard("O3", f"{cname} methods", go)
