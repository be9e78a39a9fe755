"""C20 Per-parameter settings apply to their own distribution parameter."""
from itertools import permutations

from ..model import *
from ..scen import *

RULES = {
    "P1": "a setting given as a dictionary applies to the distribution parameter of its key, whatever the order of the dictionary",
    "P2": "parameters missing from a dictionary get the documented default; the others keep their value",
    "P3": "a scalar setting applies to every distribution parameter",
    "P4": "param_order determines the order in which parameters are estimated and rejects incomplete orders",
}
EXPL = ("Every per-parameter setting takes a different value per parameter; the value graph of the history is compared with the prescribed recursion "
        "in which each setting is looked up by parameter index.")

VALS = {
    "forget": (0.1, 0.3, 0.05), "fit_intercept": (True, False, True), "regularize_intercept": (True, False, True),
    "ic": ("aic", "bic", "hqc"), "step_size": (0.9, 0.5, 0.7),
}


def reorder(d, order):
    return {k: d[k] for k in order if k in d}


def run(rep):
    r = rng(20)
    th = rep.tier == "thorough"
    P = 3
    orders = [(0, 1, 2), (2, 0, 1), (1, 2, 0)] + ([(2, 1, 0), (0, 2, 1), (1, 0, 2)] if th else [])

    def base(path=True):
        return dict(method=meths(P, path, 6), equation={0: "all", 1: np.array([0, 2]), 2: np.array([1, 2])}, max_it_outer=2, max_it_inner=1, ic="aic")

    def hist(step):
        return [("fit", data(r, 9))] + ([] if step else [("update", data(r, 3))])

    for k, v in VALS.items():
        full = dict(enumerate(v))
        for o in orders:
            for path in (True, False) if k in ("forget", "step_size", "fit_intercept") else (True,):
                kw = base(path)
                kw[k] = reorder(full, o)
                if k == "ic" and (o == orders[0] or th):
                    for sel in ("global_ll", "local_rss"):
                        # data on which using another parameter's criterion in the update would select another model
                        k2 = dict(kw, model_selection=sel, max_it_outer=1)
                        alts = [dict(k2, ic={**full, p: full[q]}) for p in range(P) for q in range(P) if p != q]
                        h = sensitive(GA, P, k2, alts, lambda: hist(False) + [("update", data(r, 2))])
                        scenario(rep, "P1", f"{k} in key order {o}, selection {sel}", GA, k2, h, P=P, X=data(r, 2)["X"])
                for rep_i in range(2 if k in ("ic", "regularize_intercept") else 1):
                    scenario(rep, "P1", f"{k} in key order {o}, {'path' if path else 'ols'} #{rep_i}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
        for miss in range(P):
            kw = base()
            kw[k] = {p: x for p, x in full.items() if p != miss}
            scenario(rep, "P2", f"{k} without parameter {miss}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
        for x in v[:2]:
            kw = base()
            kw[k] = x
            scenario(rep, "P3", f"{k}={x}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
    for o in orders:
        kw = base()
        kw["equation"] = reorder(kw["equation"], o)
        scenario(rep, "P1", f"equation in key order {o}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
        kw = base()
        kw["method"] = reorder(kw["method"], o)
        scenario(rep, "P1", f"method in key order {o}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
        if o != (0, 1, 2) or th:
            kw = base()
            kw["param_order"] = np.array(o)
            scenario(rep, "P4", f"param_order {o}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
            scenario(rep, "P4", f"param_order {o}, conditional starting values", GA, dict(kw, cond_start_val=True), hist(False), P=P, X=data(r, 2)["X"])
            for ms in ("local_rss", "global_ll"):
                # the criterion aicc is not additive: the coefficients counted must be those of the other parameters
                k2 = dict(kw, ic="aicc", model_selection=ms, max_it_outer=1, equation={p: "all" for p in range(P)}, method=meths(P, True, 12))
                h = sensitive(GA, P, k2, [dict(k2, ic="aic")], lambda: [("fit", data(r, 17)), ("update", data(r, 3))], 15)
                scenario(rep, "P4", f"param_order {o}, aicc {ms}", GA, k2, h, P=P, X=data(r, 2)["X"])
            for k, v in VALS.items():
                kw = base(k not in ("forget", "step_size"))
                kw["param_order"] = np.array(o)
                kw[k] = dict(enumerate(v))
                scenario(rep, "P1", f"{k} with param_order {o}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
            kw = base()
            kw["param_order"] = np.array(o)
            kw.update({k: dict(enumerate(v)) for k, v in VALS.items()})
            scenario(rep, "P1", f"every setting per parameter with param_order {o}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
    for miss in range(P):
        kw = base()
        kw["equation"] = {p: x for p, x in kw["equation"].items() if p != miss}
        scenario(rep, "P2", f"equation without parameter {miss}", GA, kw, hist(False), P=P, X=data(r, 2)["X"])
        kw = base()
        kw["param_order"] = np.array([p for p in range(P) if p != miss])

        def go(kw=kw, miss=miss):
            L = Lab(GA, params=P, **kw)
            try:
                L.call("fit", **data(r, 9))
            except Raised:
                rep.ob("P4", f"param_order without {miss}", HOLDS, where(GA, "fit"), "rejected")
            else:
                rep.ob("P4", f"param_order without {miss}", REFUTED, where(GA, "fit"), "an order that omits a parameter is accepted")
        rep.guard("P4", f"param_order without {miss}", go)
