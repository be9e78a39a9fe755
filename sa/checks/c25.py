"""C25 Iterations are bounded and stop as configured."""
from collections import Counter

from ..model import *
from ..scen import *

RULES = {
    "B1": "fit and update end within max_it_outer x max_it_inner rounds per parameter on every path (the loops expand completely within the configured limits)",
    "B2": "the number of rounds follows the tolerances, the minimum number of outer iterations and the prefit schedule of this call; the result equals the prescribed iteration",
    "B3": "cautious updates restrict the inner iterations and extend the minimum outer iterations exactly when a new observation is outside the central 99% of the current predictive distribution",
    "B4": "the number of rounds of a call does not depend on the schedule of an earlier call",
}
EXPL = ("The iteration loops are expanded for fixed limits: expansion succeeds only if every path leaves the loop within the limit. The expanded "
        "value graph is compared with the prescribed iteration for a grid of tolerances, minima and schedules.")

STEPS = {"EstimationMethod.fit_beta", "EstimationMethod.fit_beta_path", "EstimationMethod.update_beta", "EstimationMethod.update_beta_path"}


def run(rep):
    r = rng(25)
    th = rep.tier == "thorough"
    for P in (1, 2):
        for o, i in ((1, 1), (2, 1), (1, 3), (3, 2)) + (((4, 2), (2, 4)) if th else ()):
            for path in (False, True):
                con = f"{P} parameters, {o} outer x {i} inner, {'path' if path else 'ols'}"

                def go(P=P, o=o, i=i, path=path, con=con):
                    L = Lab(GA, params=P, method=meths(P, path), max_it_outer=o, max_it_inner=i, equation={p: "all" for p in range(P)}, forget=0.1,
                            abs_tol_outer=0.0, rel_tol_outer=0.0, abs_tol_inner=0.0, rel_tol_inner=0.0)
                    for call in ("fit", "update"):
                        L.run(call, **data(r, 8 if call == "fit" else 2))
                        n = Counter()
                        left = [l for e in L.last if e.kind == "icall" and e.data[0] in STEPS for l in e.loops]
                        if left:
                            d = L.it.loops.get(left[0])
                            if d and d.length is not None and not tm.is_const(d.length):
                                # ends, but its number of rounds is not a constant of the value graph
                                rep.ob("B1", f"{call}, {con}", UNDECIDED, d.where, f"number of rounds {tm.show(d.length, 4)} is not resolved")
                                continue
                            rep.ob("B1", f"{call}, {con}", REFUTED, d.where if d else where(GA, call),
                                   f"estimation rounds repeat in a loop that does not end within {L.it.unroll} rounds although the limits are {o} x {i}")
                            continue
                        steps = [e for e in L.last if e.kind == "icall" and e.data[0] in STEPS]
                        for e in steps:
                            if L.holds(e.pc):
                                n[tm.show(e.data[1], 3)] += 1
                        worst = max(n.values(), default=0)
                        ok = 0 < worst <= o * i
                        rep.ob("B1", f"{call}, {con}", HOLDS if ok else REFUTED, where(GA, call),
                               f"loops expand to {len(steps)} guarded estimation steps; at most {worst} per parameter with zero tolerance (limit {o * i})")
                        rep.count("estimation_steps", sum(n.values()))
                rep.guard("B1", con, go)

    def base(o, i, path=False, **k):
        d = dict(method=meths(2, path), max_it_outer=o, max_it_inner=i, equation={0: "all", 1: "all"}, forget=0.1)
        d.update(k)
        return d

    def H(n=2):
        return [("fit", data(r, 8))] + [("update", data(r, 1 + k)) for k in range(n)]

    tols = [dict(abs_tol_outer=x) for x in (0.0, 0.5, 3.0, 1e6)] + [dict(rel_tol_outer=x) for x in (0.0, 0.05, 0.5, 5.0)] \
        + [dict(abs_tol_inner=x) for x in (0.0, 0.5, 5.0)] + [dict(rel_tol_inner=x) for x in (0.0, 0.05, 1.0)]
    for k, t in enumerate(tols):
        for path in (False, True):
            for o, i in ((3, 2), (2, 3)):
                full = dict(abs_tol_outer=0.0, rel_tol_outer=0.0, abs_tol_inner=0.0, rel_tol_inner=0.0)
                full.update(t)
                if not th and (k + path + o) % 2:
                    continue
                scenario(rep, "B2", f"{t} {o}x{i} {'path' if path else 'ols'}", GA, base(o, i, path, **full), H(1), X=data(r, 2)["X"])
    big = dict(abs_tol_outer=1e6)
    names = method(GA, "__init__").params()
    for pf in (dict(prefit_initial=1), dict(prefit_initial=2), dict(prefit_initial=5), dict(prefit_update=1), dict(prefit_update=2), dict(prefit_update=5),
               dict(prefit_initial=2, prefit_update=1), dict(min_it_outer=2), dict(min_it_outer=2, prefit_update=3), dict(min_it_outer=5),
               dict(min_it_outer=2, prefit_initial=1), dict(min_it_outer=3, prefit_initial=2, prefit_update=1)):
        if not all(x in names for x in pf):
            continue
        for tol in (big, dict(abs_tol_outer=0.0, rel_tol_outer=0.0)):
            for path in (False, True) if th else (False,):
                scenario(rep, "B2" if len(pf) == 1 else "B4", f"{pf} {'loose' if tol is big else 'tight'} tolerance {'path' if path else 'ols'}", GA, base(3, 2, path, **pf, **tol), H(2), X=data(r, 2)["X"])
    # tolerances just above and just below the changes that occur in this very history
    zero = dict(abs_tol_outer=0.0, rel_tol_outer=0.0, abs_tol_inner=0.0, rel_tol_inner=0.0)
    n = 0
    for rnd in range(2 if not th else 6):
        for path in (False, True):
            o, i = ((3, 2), (2, 3))[rnd % 2]
            h = [("fit", data(r, 8)), ("update", data(r, 3)), ("update", data(r, 2))]
            kw = base(o, i, path, **zero)
            kw["forget"] = {0: 0.2, 1: 0.1}
            R = ref.Gamlss(2, **kw)
            for name, d in h:
                getattr(R, name)(**d)
            for kind in ("outer", "inner"):
                for call in ("fit", "update"):
                    log = [x for x in R.log if x[0] == kind and x[1] == call]
                    if not log:
                        continue
                    for j, nm in ((2, "abs"), (3, "rel")):
                        # the middle of the changes of this kind: some rounds stop, others go on
                        v = sorted(x[j] for x in log)[len(log) // 2]
                        for fac in (0.97, 1.03):
                            t = {f"{nm}_tol_{kind}": float(v * fac)}
                            n += 1
                            scenario(rep, "B2", f"{nm} tolerance {'below' if fac < 1 else 'above'} the {kind} change in {call}, {o}x{i} {'path' if path else 'ols'} #{rnd}", GA, dict(kw, **t), h, X=data(r, 2)["X"])
    # densities above one: negative deviances, and deviances around zero
    for k, ll in enumerate([(0.2, 3.0), (-1.0, 1.4), (0.2, 3.0)] if not th else [(0.2, 3.0), (-1.0, 1.4)] * 4):
        with reading(ll=ll):
            path = bool(k % 2)
            o, i = ((3, 2), (2, 3))[k // 2 % 2]
            h = [("fit", data(r, 8)), ("update", data(r, 3)), ("update", data(r, 2))]
            kw = base(o, i, path, **zero)
            R = ref.Gamlss(2, **kw)
            for name, d in h:
                getattr(R, name)(**d)
            scenario(rep, "B2", f"log densities in {ll}, zero tolerance, {o}x{i} {'path' if path else 'ols'} #{k}", GA, kw, h, X=data(r, 2)["X"])
            for kind in ("outer", "inner"):
                for call in ("fit", "update"):
                    log = [x for x in R.log if x[0] == kind and x[1] == call]
                    for j, nm in ((2, "abs"), (3, "rel")) if log else ():
                        v = sorted(x[j] for x in log)[len(log) // 2]
                        for fac in (0.97, 1.03):
                            n += 1
                            scenario(rep, "B2", f"log densities in {ll}, {nm} tolerance {'below' if fac < 1 else 'above'} the {kind} change in {call} #{k}", GA, dict(kw, **{f"{nm}_tol_{kind}": float(v * fac)}), h, X=data(r, 2)["X"])
    rep.count("adaptive_tolerances", n)

    # many iterations: no iteration number is special
    from .. import mine
    many = sorted({12, 21, *(c + 2 for c in mine.ints(("estimators",), 4, 45 if not th else 110))})
    for k, m in enumerate(many):
        for o, i in ((m, 1), (1, m)):
            path = bool((k + o) % 2) and m < 30
            kw = dict(method=meths(1, path), max_it_outer=o, max_it_inner=i, equation={0: "all"}, forget=0.1, **zero)
            scenario(rep, "B2", f"1 parameter, {o}x{i} iterations {'path' if path else 'ols'}", GA, kw, [("fit", data(r, 8)), ("update", data(r, 2))], P=1, X=data(r, 2)["X"], unroll=m + 1)
    kw = dict(method=meths(2, False), max_it_outer=7, max_it_inner=5, equation={0: "all", 1: "all"}, forget=0.1, **zero)
    scenario(rep, "B2", "2 parameters, 7x5 iterations ols", GA, kw, [("fit", data(r, 8)), ("update", data(r, 2))], X=data(r, 2)["X"])

    # repeated step halving gives up after more than five halvings
    for path in (False, True) if th else (False,):
        for call in ("fit", "update"):
            kw = dict(method=meths(2, path), max_it_outer=1, max_it_inner=7, equation={0: "all", 1: "intercept"}, forget=0.1, **zero)
            h = sensitive(GA, 2, kw, [dict(kw, _halv=4), dict(kw, _halv=6)], lambda: [("fit", data(r, 6)), ("update", data(r, 2))][: 1 if call == "fit" else 2])
            scenario(rep, "B2", f"six step halvings in {call} {'path' if path else 'ols'}", GA, kw, h, X=data(r, 2)["X"])

    # a halved step size is for the next inner round only
    for path in (False, True) if th else (False,):
        for call in ("fit", "update"):
            kw = dict(method=meths(2, path), max_it_outer=2, max_it_inner=4, equation={0: "all", 1: "intercept"}, forget=0.1, **zero)
            h = sensitive(GA, 2, kw, [dict(kw, _persist=True)], lambda: [("fit", data(r, 6)), ("update", data(r, 2))][: 1 if call == "fit" else 2])
            scenario(rep, "B2", f"step size after a halving in {call} {'path' if path else 'ols'}", GA, kw, h, X=data(r, 2)["X"])

    # log-likelihoods of every magnitude: relative and absolute tolerances stay what they are
    for k, m in enumerate((1e-10, 1e-5, 1e4)):
        with reading(ll=(-3.0 * m, -0.5 * m)):
            h = [("fit", data(r, 8)), ("update", data(r, 3))]
            kw = base(2, 3, False, **zero)
            R = ref.Gamlss(2, **kw)
            for name, d in h:
                getattr(R, name)(**d)
            for kind in ("outer", "inner"):
                for call in ("fit", "update"):
                    log = [x for x in R.log if x[0] == kind and x[1] == call]
                    for j, nm in ((2, "abs"), (3, "rel")) if log else ():
                        v = sorted(x[j] for x in log)[len(log) // 2]
                        for fac in (0.97, 1.03) if th else ((0.97, 1.03)[(k + j) % 2],):
                            scenario(rep, "B2", f"log densities around {m:g}, {nm} tolerance {'below' if fac < 1 else 'above'} the {kind} change in {call}", GA, dict(kw, **{f"{nm}_tol_{kind}": float(v * fac)}), h, X=data(r, 2)["X"])

    def cautious(k, n, tols_=(big, dict(abs_tol_outer=0.0, rel_tol_outer=0.0))):
        side, out = k % 2, (k // 2) % 2
        pos = (k // 4) % 2
        for tol in tols_:
            kw = base(5, 2, False, cautious_updates=True, prefit_update=1 if k == 5 else 0, step_size=({0: 0.5, 1: 0.8} if k % 3 == 2 else 1.0), **tol)
            h = [("fit", data(r, 8)), ("update", data(r, n)), ("update", data(r, 2))]
            R = ref.Gamlss(2, **kw)
            R.fit(**h[0][1])
            for name, d in h[1:]:
                th0 = R.theta(d["X"])
                lo, mid, hi = (R.d("quantile", q=q, theta=th0) for q in (0.005, 0.5, 0.995))
                d["y"] = mid + 0.3 * (d["y"] > 0) * (hi - mid)
                e = (hi, lo)[side] - mid
                j = 0 if pos else -1
                d["y"][j] = (mid + e * (1.03 if out else 0.97))[j]
                R.update(**d)
            scenario(rep, "B3", f"cautious updates #{k} {n} rows: an observation just {'outside' if out else 'inside'} the {'lower' if side else 'upper'} quantile, {'loose' if tol is big else 'tight'} tolerance", GA, kw, h, X=data(r, 2)["X"])

    # cautious updates: one observation just inside / outside the 0.5% and 99.5% quantiles
    for k in range(8 if not th else 16):
        cautious(k, 1 + k % 3)
    for k, n in enumerate([60] + [n for n in mine.sizes(("estimators", "base"), 8, 150, 3) if n != 60]):
        cautious(2 + k % 2, n, (big,))
