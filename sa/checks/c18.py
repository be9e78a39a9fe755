"""C18 Constructor parameters are stored verbatim and survive fitting."""
from ..evalt import close
from ..model import *
from ..scen import *

RULES = {
    "G1": "every constructor parameter is stored unchanged under its own name (get_params, set_params and clone rely on it)",
    "G2": "fit, update and predict do not replace or alter a stored constructor parameter",
    "G3": "parameters changed after construction (set_params) take effect at the next fit",
    "G4": "settings of the LASSO estimator reach its path method",
}
EXPL = "Constructors are interpreted on distinct leaves per parameter; the attribute of the same name must denote that leaf after construction and after every later call."


def same(L, p, arg):
    v = L.st.heap[L.ref.oid].get(p)
    if v is None:
        return False, "not stored"
    if v == arg or v is arg:
        return True, ""
    a, b = L.it.to_term(L.st, v), L.it.to_term(L.st, arg)
    if a is b:
        return True, ""
    try:
        x, y = L.eval(a), L.eval(b)
        if x is y or close(x, y, 0, 0) and type(x) is type(y):
            return True, ""
        return False, f"{short(x, 80)} instead of {short(y, 80)}"
    except (Unknown, Fault):
        raise
    except Exception as e:
        return False, str(e)


def run(rep):
    r = rng(18)
    for cname in ("OnlineLinearModel", "OnlineLasso", "OnlineDistributionalRegression", "OnlineScaler"):
        c = cls(cname)
        f = method(c, "__init__")
        ps = [p for p in f.params() if p != "self"]
        star = f.node.args.vararg or f.node.args.kwarg
        rep.ob("G1", f"{cname} signature", REFUTED if star else HOLDS, where(c, "__init__"), "variadic constructor" if star else f"{len(ps)} named parameters")
        for p in ps:
            def go(p=p, c=c, cname=cname, ps=ps):
                it, st = Interp(prog()), State()
                args = {q: it.alloc(st, ArrC(sym(f"arg_{q}"), ("caller", q))) for q in ps}
                ref = it.construct(st, c, [], dict(args))
                v = st.heap[ref.oid].get(p)
                ok = v is not None and it.to_term(st, v) is sym(f"arg_{p}")
                rep.ob("G1", f"{cname}.{p}", HOLDS if ok else REFUTED, where(c, "__init__"), "stored verbatim" if ok else ("not stored" if v is None else f"stored as {tm.show(it.to_term(st, v), 4)}"))
            rep.guard("G1", f"{cname}.{p}", go)
    m0 = {0: record("M0", True), 1: record("M1", False)}
    scen_ = [
        ("OnlineLinearModel", 1, dict(forget=0.1, scale_inputs=np.array([0, 1]), fit_intercept=True, regularize_intercept=False, method=record("M", True), ic="aic")),
        ("OnlineLinearModel", 1, dict(forget=0, method="ols")),
        ("OnlineLinearModel", 1, dict(forget=0.3, scale_inputs=False, method="lasso")),
        (GA, 2, dict(method=m0, forget={1: 0.2}, equation={0: "all"}, fit_intercept={0: True}, regularize_intercept={1: False}, ic={0: "bic"}, scale_inputs=np.array([True, True, False]), max_it_outer=2, max_it_inner=1,
                     prefit_initial=1, prefit_update=1, cautious_updates=True, verbose=0, debug=True, abs_tol_outer=0.01, rel_tol_inner=0.02)),
        (GA, 2, dict(method=meths(2, False), forget=0.1, equation={0: "all", 1: "all"}, cautious_updates=True, max_it_outer=2, max_it_inner=2, min_it_outer=1, step_size=0.8)),
        (GA, 2, dict(method="ols", forget=0.0, equation=None, max_it_outer=1, max_it_inner=2, ic="aic", step_size=1.0, param_order=None)),
        (GA, 2, dict(method=record("M", True), forget=0.1, equation={0: "intercept", 1: "all"}, max_it_outer=1, max_it_inner=1, model_selection="global_ll", cond_start_val=True, param_order=np.array([1, 0]))),
    ]
    for k, (cname, P, kw) in enumerate(scen_):
        def go(k=k, cname=cname, P=P, kw=kw):
            L = Lab(cname, params=P, **kw)
            out = data(r, 3)  # one ordinary batch, one batch with an extreme observation
            out["y"][1] = 50.0
            calls = [("fit", data(r, 8)), ("update", data(r, 2)), ("update", out), ("predict", dict(X=data(r, 2)["X"]))]
            for name, d in calls:
                L.call(name, **d)
                for p, arg in L.ctor.items():
                    ok, why = same(L, p, arg)
                    rep.ob("G2", f"{cname}.{p} after {name} #{k}", HOLDS if ok else REFUTED, where(cname, name), why or "unchanged")
                for h, g, v in L.altered():
                    if h.split("[")[0] in L.ctor:
                        rep.ob("G2", f"{cname}.{h} content after {name} #{k}", REFUTED, where(cname, name), f"{short(g, 80)} instead of {short(v, 80)}")
            # defaults too: parameters not given keep the default
            rep.functions.update(L.it.funcs_seen)
        rep.guard("G2", f"{cname} #{k}", go)

    # G3 set_params between fits
    for cname, P, kw, new in ((LI, 1, dict(method=record("M", True), forget=0.0), dict(forget=0.3)), (LI, 1, dict(method=record("M", True)), dict(fit_intercept=False)), (LI, 1, dict(method=record("M", True)), dict(scale_inputs=False)),
                              (LI, 1, dict(method=record("M", True), ic="aic"), dict(ic="bic")), (LI, 1, dict(method=record("M", True)), dict(method=record("M9", False))),
                              (GA, 2, dict(method=meths(2, True), equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1), dict(forget={0: .2, 1: .1})),
                              (GA, 2, dict(method=meths(2, True), equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1), dict(max_it_outer=2)),
                              (GA, 2, dict(method=meths(2, True), equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1), dict(equation={0: np.array([1]), 1: "intercept"})),
                              (GA, 2, dict(method=meths(2, True), equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1), dict(model_selection="global_ll")),
                              (GA, 2, dict(method=meths(2, True), equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1), dict(scale_inputs=np.array([1]), fit_intercept={0: False, 1: True}))):
        for refit in (False, True):
            def go(cname=cname, P=P, kw=kw, new=new, refit=refit):
                L, R = build(cname, P, kw)
                if refit:
                    L.call("fit", **data(r, 8))
                for p, v in new.items():
                    L.st.heap[L.ref.oid] = L.st.heap[L.ref.oid].set(p, L.lift(v, p))
                from .. import ref as rf
                k2 = dict(kw, **new)
                R = rf.Gamlss(P, **k2) if cname == GA else rf.Linear(**k2)
                con = f"{cname} set_params({short(new, 60)}){' after a fit' if refit else ''}"
                try:
                    compare(L, R, cname, [("fit", data(r, 9)), ("update", data(r, 2))], X=data(r, 2)["X"])
                    rep.ob("G3", con, HOLDS, where(cname, "fit"), "takes effect")
                except Diff as x:
                    rep.ob("G3", con, REFUTED, where(cname, "fit"), f"{x.what} after {x.at}: {x.detail}")
            rep.guard("G3", f"{cname} {sorted(new)} {refit}", go)

    # G4 OnlineLasso -> LassoPath
    names = ("lambda_n", "lambda_eps", "early_stop", "tolerance", "max_iterations", "selection", "beta_lower_bound", "beta_upper_bound", ("start_value", "start_value_update"))
    for changed in (False, True):
        def go(changed=changed):
            c = cls("OnlineLasso")
            it, st = Interp(prog()), State()
            pr = [p for p in method(c, "__init__").params() if p != "self"]
            vals = {"forget": 0.1, "scale_inputs": True, "fit_intercept": True, "regularize_intercept": False, "ic": "bic"}
            args = {p: const(vals[p]) if p in vals else sym(f"arg_{p}", "scalar") for p in pr}
            ref = it.construct(st, c, [], dict(args))
            want = dict(args)
            if changed:
                for p in pr:
                    if p not in vals:
                        want[p] = sym(f"new_{p}", "scalar")
                        st.heap[ref.oid] = st.heap[ref.oid].set(p, want[p])
            it.entry(method(c, "_prepare_fit"), c, {}, st=st, self_ref=ref) if isinstance(c.lookup("_prepare_fit"), Func) else None
            m = st.heap[ref.oid].get("_method") or st.heap[ref.oid].get("method")
            for nm in names:
                a, b = nm if isinstance(nm, tuple) else (nm, nm)
                v = it.get_attr(st, m, b)
                ok = it.to_term(st, v) is want[a]
                rep.ob("G4", f"OnlineLasso.{a}{' changed by set_params' if changed else ''}", HOLDS if ok else REFUTED, where(c, "fit"),
                       "reaches the path method" if ok else f"path method uses {tm.show(it.to_term(st, v), 3)}")
        rep.guard("G4", f"OnlineLasso {changed}", go)
