"""C24 The estimator protocol: fit, update, partial_fit, fitted state."""
from ..model import *
from ..scen import *

RULES = {
    "E1": "partial_fit fits on the first call and updates on every later one, with data and weights passed through",
    "E2": "fit, update and partial_fit return the estimator itself",
    "E3": "update, prediction and scoring of an unfitted estimator are rejected as not fitted before anything is computed or changed",
    "E4": "is_fitted and n_samples_ reflect the history",
}
EXPL = "Histories through partial_fit are compared with the prescribed fit/update recursion; on an unfitted abstract estimator the fitted-check must precede every read of a fitted attribute and every write."


def run(rep):
    r = rng(24)
    th = rep.tier == "thorough"
    for path in (False, True):
        for cname, P, kw in ((LI, 1, dict(method=record("M", path), forget=0.1)), (GA, 2, dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1))):
            for hist in ((8, 2, 1), (8, -2, 1), (-8, 3, 2)) + (((8, 1, 1, 1, 1),) if th else ()):
                for w in (True, False) + ((1e-3, 1e4) if hist[0] > 0 else ()):
                    def go(cname=cname, P=P, kw=kw, hist=hist, w=w, path=path):
                        L, R = build(cname, P, kw)
                        con = f"{cname} {'path' if path else 'ols'} {hist} {('weighted' if w is True else f'weights x{w:g}') if w else ''}"
                        for i, n in enumerate(hist):
                            d = data(r, abs(n), w=bool(w))
                            if w and w is not True:
                                d["sample_weight"] = d["sample_weight"] * w
                            name = "fit" if i == 0 else "update"
                            call = "partial_fit" if n > 0 else name
                            a = dict(d)
                            if not w and n > 0:
                                a.pop("sample_weight")
                            out = L.call(call, **a)
                            rep.ob("E2", f"{con}: {call}", HOLDS if isinstance(out, str) and out == "self" else REFUTED, where(cname, call), f"returns {out if isinstance(out, str) else short(out, 80)}")
                            getattr(R, name)(**d)
                            try:
                                observe(L, R, cname, call, ("path",))
                            except Diff as x:
                                rep.ob("E1", f"{con}: call {i}", REFUTED, where(cname, call), f"{x.what}: {x.detail}")
                                return
                            rep.ob("E1", f"{con}: call {i}", HOLDS, where(cname, call), f"partial_fit acts as {name}" if n > 0 else name)
                            if i == len(hist) - 1:
                                from ..evalt import close
                                ok = bool(L.get("is_fitted")) and close(L.get("n_samples_"), R.n_observations_)
                                rep.ob("E4", con, HOLDS if ok else REFUTED, where(cname, "fit"), f"is_fitted={L.get('is_fitted')} n_samples_={L.get('n_samples_')}")
                        rep.functions.update(L.it.funcs_seen)
                    rep.guard("E1", f"{cname} {hist}", go)

    def unfitted(cname, P, kw, m, args):
        con = f"{cname}.{m}"

        def go():
            L = Lab(cname, params=P, **kw)
            if m in ("is_fitted",):
                v = L.get("is_fitted")
                rep.ob("E4", f"{con} before fit", HOLDS if not v else REFUTED, where(cname, "fit"), f"is_fitted={v}")
                return
            st0 = L.st.copy()
            ctor = set(k for k, _ in L.st.heap[L.ref.oid].attrs)
            mark = len(L.it.events)
            try:
                L.run(m, **args)
            except (Raised, Unknown, Fault):
                pass
            except Exception as e:  # abstract execution cannot continue without fitted state
                if not L.it.events[mark:]:
                    raise
            verdict, at = None, None
            for e in L.it.events[mark:]:
                if e.kind == "check_fitted" and not e.loops and e.pc == ():
                    verdict, at = True, e
                    break
                if e.kind == "raise" and "NotFitted" in str(e.data[0]):
                    verdict, at = True, e
                    break
                if e.kind == "noattr" or (e.kind == "setattr" and e.data[0] == L.ref.oid) or (e.kind == "icall"):
                    verdict, at = False, e
                    break
            if verdict is None:
                rep.ob("E3", con, UNDECIDED, where(cname, m), "neither a fitted check nor a use of fitted state found")
            else:
                rep.ob("E3", con, HOLDS if verdict else REFUTED, at.where(), "checked first" if verdict else f"{at.kind} {at.data[-1]} before any fitted check")
        rep.guard("E3", con, go)
    d = data(r, 3)
    X, y = d["X"], d["y"]
    ga = dict(method=meths(2, True), max_it_outer=1, max_it_inner=1)
    li = dict(method=record("M", True))
    for cname, P, kw, ms in (
            (LI, 1, li, [("update", d), ("predict", dict(X=X)), ("predict_path", dict(X=X)), ("score", dict(X=X, y=y)), ("is_fitted", {})]),
            (GA, 2, ga, [("update", d), ("predict", dict(X=X)), ("predict_median", dict(X=X)), ("predict_distribution_parameters", dict(X=X)), ("predict_quantile", dict(X=X, quantile=.3)), ("is_fitted", {})]),
            ("OnlineScaler", 1, {}, [("update", dict(X=X)), ("transform", dict(X=X)), ("inverse_transform", dict(X=X))])):
        for m, a in ms:
            unfitted(cname, P, kw, m, a)
