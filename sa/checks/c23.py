"""C23 Responses outside the distribution's support are rejected."""
from ..model import *
from ..scen import *

RULES = {
    "Y1": "fit and update reject data with any response below or above the support of the distribution, wherever in the batch it is",
    "Y2": "responses inside the support, the end points included, are accepted",
    "Y3": "the check uses the support of the estimator's own distribution",
}
EXPL = "The explicit raises of fit/update are extracted with their path conditions over the (uninterpreted) support of the distribution and decided for batches with offending values at every position."


def run(rep):
    r = rng(23)
    th = rep.tier == "thorough"
    sup = [(-1.0, 2.0), (0.0, np.inf), (-np.inf, 1.5), (-np.inf, np.inf)]
    if th:
        sup += [(0.0, 1.0), (1e-300, np.inf), (5.0, 5.5)]
    for lo, hi in sup:
        for call in ("fit", "update"):
            def go(lo=lo, hi=hi, call=call):
                a, b = (lo if np.isfinite(lo) else -9.0), (hi if np.isfinite(hi) else 9.0)
                kw = dict(method=meths(2, False), max_it_outer=1, max_it_inner=1)

                def fresh():
                    L = Lab(GA, params=2, support=(lo, hi), **kw)
                    if call == "update":
                        d = data(r, 8)
                        d["y"] = np.linspace(a, b, 10)[1:-1]
                        L.call("fit", **d)
                    return L

                def attempt(y, zero=None):
                    d = data(r, len(y))
                    d["y"] = np.asarray(y, float)
                    if zero is not None:
                        d["sample_weight"][zero] = 0.0
                    L = fresh()
                    try:
                        L.call(call, **d)
                        return False, L
                    except Raised as e:
                        return True, L
                n = 8 if call == "fit" else 3
                good = np.linspace(a, b, n + 2)[1:-1]
                tests = []
                for pos in range(n) if th else sorted({0, 1, n // 2, n - 1}):
                    for val, bad in ((a - 1e-6 * max(1, abs(a)), np.isfinite(lo)), (np.nextafter(a, -np.inf), np.isfinite(lo)), (np.nextafter(b, np.inf), np.isfinite(hi)), (a - 3, np.isfinite(lo)), (b + 1e-6 * max(1, abs(b)), np.isfinite(hi)), (b + 3, np.isfinite(hi)), (a, False), (b, False)):
                        y = good.copy()
                        y[pos] = val
                        tests.append((pos, val, bad, y))
                tests.append((None, None, False, good))
                if call == "update":
                    tests += [(0, a - 1, np.isfinite(lo), [a - 1]), (0, b + 1, np.isfinite(hi), [b + 1]), (0, a, False, [a])]
                for pos, val, bad, y in tests:
                    got, L = attempt(y)
                    rule = "Y1" if bad else "Y2"
                    con = f"{call} support ({lo}, {hi}) value {val} at position {pos} of {len(y)}"
                    rep.ob(rule, con, HOLDS if got == bool(bad) else REFUTED, where(GA, call), "rejected" if got else "accepted")
                for val, bad in ((a - 1, np.isfinite(lo)), (b + 1, np.isfinite(hi))):
                    if bad:
                        y = good.copy()
                        y[1] = val
                        got, L = attempt(y, 1)
                        rep.ob("Y1", f"{call} support ({lo}, {hi}) value {val} with weight zero", HOLDS if got else REFUTED, where(GA, call), "rejected" if got else "accepted")
                for m in ((40,) if not th else (40, 120)):
                    for pos, val, bad in ((m - 1, a - 1, np.isfinite(lo)), (m - 2, b + 1, np.isfinite(hi)), (m // 2, a - 1, np.isfinite(lo))):
                        if not bad:
                            continue
                        y = np.linspace(a, b, m + 2)[1:-1]
                        y[pos] = val
                        got, L = attempt(y)
                        rep.ob("Y1", f"{call} support ({lo}, {hi}) value {val} at position {pos} of {m}", HOLDS if got else REFUTED, where(GA, call), "rejected" if got else "accepted")
                rep.functions.update(L.it.funcs_seen)
            rep.guard("Y1", f"{call} ({lo},{hi})", go)
    # the support consulted belongs to the distribution of the estimator
    def go():
        for call in ("fit", "update"):
            L = Lab(GA, params=2, support=(-1e9, 1e9), method=meths(2, False), max_it_outer=1, max_it_inner=1)
            L.call("fit", **data(r, 8))
            if call == "update":
                L.call("update", **data(r, 2))
            D = sym("D", "opaque")
            hit = [e for e in L.last if e.kind == "raise" and tm.contains(pc_term(e.pc), mk("attr", D, "distribution_support"))]
            rep.ob("Y3", call, HOLDS if hit else REFUTED, where(GA, call), f"{len(hit)} guards over the support of self.distribution")
    rep.guard("Y3", "support", go)
