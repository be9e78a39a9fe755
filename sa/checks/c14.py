"""C14 Every observation enters the estimator's state exactly once."""
from ..model import *
from ..scen import *

RULES = {
    "H1": "OnlineLinearModel: coefficients, path, counters and predictions after any fit/update history follow the prescribed discounted recursion",
    "H2": "OnlineDistributionalRegression: each update builds its Gramians, working responses and selection statistics from the state before the update plus the new rows once, whatever the number of inner and outer iterations",
    "H3": "histories that differ only in the number of earlier calls use the state left by the previous call",
}
EXPL = ("Whole call histories are abstractly interpreted in one abstract heap, with distribution and estimation method uninterpreted; the "
        "resulting closed term of every observable is compared with the prescribed recursion by random interpretation of the uninterpreted operations.")


def run(rep):
    r = rng(14)
    th = rep.tier == "thorough"
    splits = [(8, 3, 1), (9, 1, 1, 2)] + ([(7, 2, 4), (12, 5), (8, 1, 1, 1, 1)] if th else [])
    for path in (False, True):
        for sp in splits:
            H = [("fit" if i == 0 else "update", data(r, n)) for i, n in enumerate(sp)]
            scenario(rep, "H1", f"{'path' if path else 'ols'} {sp}", LI, dict(method=record("M", path), forget=0.1, ic="bic"), H, X=data(r, 2)["X"])
    its = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3), (3, 3)] if th else [])
    for P in (1, 2, 3):
        for path in (False, True):
            for ms in ("local_rss", "global_ll") if path else ("local_rss",):
                for o, i in its if P == 2 else its[-1:]:
                    for sp in splits if P == 2 and (o, i) == (2, 2) or th and P < 3 else splits[:1]:
                        H = [("fit" if k == 0 else "update", data(r, n)) for k, n in enumerate(sp)]
                        kw = dict(method=meths(P, path), forget={p: .1 + .05 * p for p in range(P)}, ic="aic", max_it_outer=o, max_it_inner=i,
                                  equation={p: "all" for p in range(P)}, model_selection=ms, abs_tol_inner=0.0, rel_tol_inner=0.0,
                                  abs_tol_outer=0.0, rel_tol_outer=0.0)
                        scenario(rep, "H2", f"{P} parameters, {'path' if path else 'ols'}, {ms}, {o}x{i} iterations, {sp}", GA, kw, H, P=P, X=data(r, 2)["X"])
    # later rounds are like the earlier ones
    for k in range(4):
        path = bool(k % 2)
        for P, o, i in ((1, 5, 2), (2, 4, 1)):
            H = [("fit", data(r, 8)), ("update", data(r, 3)), ("update", data(r, 1))]
            kw = dict(method=meths(P, path), forget={p: .1 + .05 * p for p in range(P)}, ic="aic", max_it_outer=o, max_it_inner=i, equation={p: "all" for p in range(P)},
                      model_selection=("local_rss", "global_ll")[k // 2], abs_tol_inner=0.0, rel_tol_inner=0.0, abs_tol_outer=0.0, rel_tol_outer=0.0)
            if k >= 2:
                kw.update(rel_tol_outer=0.02, rel_tol_inner=0.02)
            if k % 2 and P == 2:
                kw.update(cond_start_val=True)
            scenario(rep, "H2", f"{P} parameters, {'path' if path else 'ols'}, {o}x{i} iterations #{k}", GA, kw, H, P=P, X=data(r, 2)["X"])
    curved(rep, "H2", r, th)
    stressed(rep, "H2", r, th)
    # a second fit starts afresh
    for cname, kw in ((LI, dict(method=record("M", True), forget=0.1)),
                      (GA, dict(method=meths(2, True), forget=0.1, max_it_outer=2, max_it_inner=1, equation={0: "all", 1: "all"}))):
        H = [("fit", data(r, 8)), ("update", data(r, 2)), ("fit", data(r, 9)), ("update", data(r, 1))]
        scenario(rep, "H3", f"{cname} refit", cname, kw, H, X=data(r, 2)["X"])
