"""C19 Sample weights and forgetting reach every stage of estimation."""
from ..model import *
from ..scen import *

RULES = {
    "W1": "with given weights and forgets the state after fit/update equals the prescribed weighted, discounted recursion (Gramians, scaler, deviance, model selection)",
    "W2": "omitting sample_weight equals unit weights",
    "W3": "counters accumulate the sample weight and the effective training length follows the forgetting factor of each parameter",
}
EXPL = ("Value graphs of whole histories for several weight/forget patterns are compared with the prescribed recursion; every stage that consumes the "
        "weights is a distinct argument of an uninterpreted operation, so a dropped or duplicated weight changes the denotation.")


def run(rep):
    r = rng(19)
    th = rep.tier == "thorough"
    fl = [0.0, 0.2] + ([0.01, 0.6] if th else [])
    for w in (True, False):
        for f in fl:
            for path in (False, True):
                for ic in ("aic", "bic") if path else ("aic",):
                    H = [("fit", data(r, 8, w=w)), ("update", data(r, 3, w=w)), ("update", data(r, 1, w=w))]
                    scenario(rep, "W1" if w else "W2", f"linear {'path' if path else 'ols'} forget={f} {'weighted' if w else 'no weights'} {ic}", LI,
                             dict(method=record("M", path), forget=f, ic=ic), H, X=data(r, 2)["X"])
        fg = [0.1, {0: 0.0, 1: 0.3}, {0: 0.25, 1: 0.0}] + ([0.0, {0: 0.5, 1: 0.02}] if th else [])
        for f in fg:
            for path, ms in ((False, "local_rss"), (True, "local_rss"), (True, "global_ll")):
                for o, i in ((1, 2), (2, 1)) + (((2, 2),) if th else ()):
                    for ic in ("bic", "aic") if path else ("bic",):
                        H = [("fit", data(r, 8, w=w)), ("update", data(r, 3, w=w)), ("update", data(r, 2, w=w))]
                        kw = dict(method=meths(2, path, 6), forget=f, ic=ic, max_it_outer=o, max_it_inner=i, equation={0: "all", 1: "all"}, model_selection=ms)
                        scenario(rep, "W1" if w else "W2", f"distributional {'path' if path else 'ols'} {ms} forget={f} {'weighted' if w else 'no weights'} {o}x{i} {ic}",
                                 GA, kw, H, X=data(r, 2)["X"])
    stressed(rep, "W1", r, th, lambda lb: "weight" in lb or "forget" in lb)
    curved(rep, "W1", r, th)
    # scaled weights: counters
    for cname, kw, P in ((LI, dict(method=record("M", False), forget=0.05), 1), (GA, dict(method=meths(3, False), forget={0: 0.0, 1: .1, 2: .3}, max_it_outer=1, max_it_inner=1), 3)):
        H = [("fit", data(r, 10)), ("update", data(r, 2)), ("update", data(r, 4, w=False)), ("update", data(r, 1))]
        scenario(rep, "W3", f"{cname} counters", cname, kw, H, P=P, X=data(r, 2)["X"])
