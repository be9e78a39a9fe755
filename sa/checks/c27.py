"""C27 Debugging and logging do not change the estimation and report what happened."""
from ..evalt import close
from ..model import *
from ..scen import *

RULES = {
    "N1": "state, coefficients and predictions with debug mode and any verbosity equal the prescribed ones (no interference)",
    "N2": "get_debug_information returns the quantity of the requested parameter, outer and inner iteration of the last call",
    "N4": "an iteration that did not take place in the last call is not answered with a record of an earlier call",
    "N3": "get_debug_information without debug mode is rejected with ValueError",
}
EXPL = ("Histories are abstractly interpreted with debug mode and every verbosity level and compared with the prescribed recursion; debug records are "
        "compared with the trace of the prescribed recursion key by key.")
VARS = ("weights", "working_vectors", "dl1dlp1", "dl2dlp2", "eta", "fv", "dv", "coef", "coef_path")


def run(rep):
    r = rng(27)
    th = rep.tier == "thorough"
    # no interference
    for path in (False, True):
        for dbg, vb in ((True, 0), (False, 1), (False, 2), (False, 3), (True, 3)):
            for o, i in ((2, 2),) + (((3, 2), (2, 3)) if th else ()):
                kw = dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: np.array([1])}, max_it_outer=o, max_it_inner=i, debug=dbg, verbose=vb,
                          abs_tol_outer=1e-9, abs_tol_inner=1e-9, rel_tol_outer=1e-12, rel_tol_inner=1e-12)
                for extra in ({}, dict(prefit_initial=1, prefit_update=1, cautious_updates=True)):
                    if extra and not th and (dbg, vb) != (True, 3):
                        continue
                    H = [("fit", data(r, 8)), ("update", data(r, 2)), ("update", data(r, 1))]
                    scenario(rep, "N1", f"{'path' if path else 'ols'} debug={dbg} verbose={vb} {o}x{i} {'schedule' if extra else ''}", GA, dict(kw, **extra), H, X=data(r, 2)["X"])
    # contents
    wh = where(GA, "get_debug_information")
    for P in (1, 2) + ((3,) if th else ()):
        for path in (False, True):
            for ncalls in (1, 2, 3):
                def go(P=P, path=path, ncalls=ncalls):
                    kw = dict(method=meths(P, path), forget=0.1, equation={p: "all" if p != 1 else np.array([0, 2]) for p in range(P)}, max_it_outer=2, max_it_inner=2, debug=True,
                              abs_tol_outer=1e-9, abs_tol_inner=1e-9, rel_tol_outer=1e-12, rel_tol_inner=1e-12)
                    L, R = build(GA, P, kw)
                    for k in range(ncalls):
                        d = data(r, 8 if k == 0 else 2)
                        L.call("fit" if k == 0 else "update", **d)
                        getattr(R, "fit" if k == 0 else "update")(**d)
                    con = f"{P} parameters {'path' if path else 'ols'} after {ncalls} calls"
                    bad, n = [], 0
                    for p in range(P):
                        want = R.debug_X[1][p]
                        got = L.call("get_debug_information", variable="X_dict", param=p)
                        n += 1
                        if not close(got, want, 1e-6, 1e-8):
                            bad.append(f"X_dict of parameter {p}: {short(got, 80)} instead of {short(want, 80)}")
                    if not close(L.call("get_debug_information", variable="X_scaled"), R.debug_X[0], 1e-6, 1e-8):
                        bad.append("X_scaled")
                    for (p, o, i), w in R.trace.items():
                        for v in VARS:
                            if w.get(v) is None:
                                continue
                            try:
                                got = L.call("get_debug_information", variable=v, param=p, it_outer=o, it_inner=i + 1)
                            except Raised as e:
                                bad.append(f"{v} of {(p, o, i + 1)} raises {e.exc}")
                                continue
                            n += 1
                            if not close(got, w[v], 1e-6, 1e-8):
                                bad.append(f"{v} of parameter {p}, outer {o}, inner {i + 1}: {short(got, 80)} instead of {short(w[v], 80)}")
                    rep.count("debug records", n)
                    rep.ob("N2", con, REFUTED if bad else HOLDS, wh, "; ".join(bad[:3]) if bad else f"{n} records agree")
                    rep.functions.update(L.it.funcs_seen)
                rep.guard("N2", f"{P} parameters {'path' if path else 'ols'} after {ncalls} calls", go, wh)

    for path in (False, True):
        def stale(path=path):
            # fit does two inner iterations, the update only one
            kw = dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: np.array([0, 2])}, max_it_outer=2, max_it_inner=2, prefit_update=2, debug=True,
                      abs_tol_outer=0.0, abs_tol_inner=0.0, rel_tol_outer=0.0, rel_tol_inner=0.0)
            L, R = build(GA, 2, kw)
            for k in range(2):
                d = data(r, 8 if k == 0 else 2)
                L.call("fit" if k == 0 else "update", **d)
                before = set(R.trace)
                R.trace.clear()
                getattr(R, "fit" if k == 0 else "update")(**d)
            gone = sorted(before - set(R.trace))
            bad = []
            for p, o, i in gone:
                for v in VARS:
                    if v == "coef_path" and not path:
                        continue
                    try:
                        got = L.call("get_debug_information", variable=v, param=p, it_outer=o, it_inner=i + 1)
                    except (Raised, Fault):
                        continue
                    bad.append(f"{v} of parameter {p}, outer {o}, inner {i + 1} is answered with {short(got, 60)}, but the last call had no such iteration")
            rep.ob("N4", f"iterations of the fit after an update, {'path' if path else 'ols'}", UNDECIDED if not gone else REFUTED if bad else HOLDS, wh, "; ".join(bad[:2]) if bad else f"{len(gone)} iterations absent")
        rep.guard("N4", f"iterations of the fit after an update, {'path' if path else 'ols'}", stale, wh)

    def off():
        L, R = build(GA, 2, dict(method=meths(2, False), max_it_outer=1, max_it_inner=1))
        L.call("fit", **data(r, 8))
        try:
            L.call("get_debug_information")
            rep.ob("N3", "debug off", REFUTED, wh, "answers although debug mode is off")
        except Raised as e:
            ok = "ValueError" in str(e.exc)
            rep.ob("N3", "debug off", HOLDS if ok else REFUTED, wh, f"raises {e.exc}")
    rep.guard("N3", "debug off", off, wh)
