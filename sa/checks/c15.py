"""C15 A rejected call leaves the estimator as it was."""
from ..evalt import close
from ..model import *
from ..scen import *

RULES = {
    "R1": "at every point where update() rejects its input (validation calls, out-of-support response) the estimator still is in the state it was in before the call: the same predictions, and the same result of the next valid update",
    "R2": "a first fit rejected by validation or by the estimation method (singular design, wrong bounds) leaves the estimator unfitted: the next partial_fit starts with a fit",
    "R4": "update rejects malformed input (another number of columns, non-finite values, inconsistent lengths)",
    "R3": "update really rejects out-of-support responses of distributional regression before anything else happens",
}
EXPL = ("The abstract state at every rejection point of an update is captured; if any value reachable from the estimator differs from the state "
        "before the call, the history is continued from there and its observables are compared with the history without the rejected call.")


def strip(t):
    while isinstance(t, Term) and t.op in ("validX", "validy", "sw", "array", "asarray"):
        t = t.args[0]
    return t


def points(L, call, d):
    """rejection points of a call: (event, state); raises outside loops whose condition holds and first validations"""
    out = []

    def hook(st, e):
        if e.kind in ("raise", "reject", "mayraise") and not e.loops:
            out.append((e, st.copy()))
        elif e.kind == "icall" and call == "fit" and e.data[0].startswith("EstimationMethod."):
            # estimation methods reject singular designs and bounds of the wrong length
            out.append((e, st.copy()))
    L.it.on_event = hook
    try:
        L.run(call, **d)
    except Raised:
        pass
    finally:
        L.it.on_event = None
    done, res = set(), []
    for e, st in out:
        if e.kind in ("raise", "reject"):
            if L.holds(e.pc):
                res.append((e, st))
            continue
        if e.kind == "icall":
            if e.data[0] not in done:
                done.add(e.data[0])
                res.append((e, st))
            continue
        ts = {strip(t) for t in e.data[1] if t.op != "const"} if len(e.data) > 1 else set()
        if e.data[0] == "check_is_fitted":
            # only the first one can fail: later ones see the estimator that passed it, or objects this call has fitted
            if "fitted" not in done and call != "fit":
                done.add("fitted")
                res.append((e, st))
            continue
        if not ts <= done:
            res.append((e, st))
        done |= ts
    return res


def _set(k, i, v):
    def f(d):
        d[k][i] = v
        return d
    return f


SPOIL = [("one column less", lambda d: dict(d, X=d["X"][:, :-1])), ("one column more", lambda d: dict(d, X=np.hstack([d["X"], d["X"][:, :1]]))),
         ("NaN in X", _set("X", (1, 2), np.nan)), ("infinite X", _set("X", (2, 0), np.inf)), ("NaN in y", _set("y", 2, np.nan)), ("infinite y", _set("y", 0, -np.inf)),
         ("NaN weight", _set("sample_weight", 1, np.nan)), ("a weight too few", lambda d: dict(d, sample_weight=d["sample_weight"][:-1])),
         ("a response too few", lambda d: dict(d, y=d["y"][:-1], sample_weight=d["sample_weight"][:-1])),
         ("a single row with NaN", lambda d: {k: np.where(np.arange(v[:1].size).reshape(v[:1].shape) == 0, np.nan, v[:1]) if k == "X" else v[:1] for k, v in d.items()})]


def run(rep):
    r = rng(15)
    th = rep.tier == "thorough"
    cfgs = []
    for path in (False, True):
        cfgs.append((LI, 1, dict(method=record("M", path), forget=0.1), {}))
        for extra in ({}, dict(cautious_updates=True), dict(prefit_update=1)) if th or not path else ({},):
            cfgs.append((GA, 2, dict(method=meths(2, path), forget=0.1, equation={0: "all", 1: "all"}, max_it_outer=1, max_it_inner=1, **extra), dict(support=(-4.0, 4.0))))
    for cname, P, kw, lab in cfgs:
        tag = f"{cname} {'path' if (kw['method'] if cname == LI else kw['method'][0])._path_based_method else 'ols'} {({k: kw[k] for k in ('cautious_updates', 'prefit_update') if k in kw}) or ''}"
        bad = [("invalid input", None)] + ([("below", -9.0), ("above", 9.0)] if cname == GA else [])
        for kind, val in bad:
            for n_before in (0, 1):
                def go(kind=kind, val=val, n_before=n_before):
                    L, R = build(cname, P, kw, **lab)
                    hist = [("fit", data(r, 8))] + [("update", data(r, 2))] * n_before
                    for name, d in hist:
                        d = {k: np.clip(v, -3.5, 3.5) if k == "y" else v for k, v in d.items()}
                        L.call(name, **d)
                        getattr(R, name)(**d)
                    pre, st0 = L.reach(), L.st.copy()
                    d = data(r, 3)
                    d["y"] = np.clip(d["y"], -3.5, 3.5)
                    if val is not None:
                        d["y"][1] = val
                    pts = points(L, "update", d)
                    if val is not None:
                        hit = [e for e, _ in pts if e.kind == "raise"]
                        rep.ob("R3", f"{tag} {kind}", HOLDS if hit else REFUTED, hit[0].where() if hit else where(cname, "update"), "rejected" if hit else "an out-of-support response is accepted")
                        pts = [(e, s) for e, s in pts if e.kind == "raise"][:1]
                    rep.count("rejection_points", len(pts))
                    for e, s in pts:
                        con = f"{tag} {kind} after {n_before} updates: {e.data[0]}"
                        F = L.fork(s)
                        diff = [k for k in set(pre) | set(F.reach()) if pre.get(k) is not F.reach().get(k)]
                        if not diff:
                            rep.ob("R1", con, HOLDS, e.where(), "no value reachable from the estimator differs")
                            continue
                        import copy
                        R2 = copy.deepcopy(R)
                        good = data(r, 2)
                        good["y"] = np.clip(good["y"], -3.5, 3.5)
                        try:
                            observe(F, R2, cname, "update", ())
                            compare(F, R2, cname, [], X=good["X"])
                            compare(F, R2, cname, [("update", good)], X=good["X"])
                        except Diff as x:
                            rep.ob("R1", con, REFUTED, e.where(), f"state changed before the rejection ({', '.join(sorted(diff)[:4])}); afterwards {x.what}: {x.detail}")
                        else:
                            rep.ob("R1", con, HOLDS, e.where(), f"differing values {sorted(diff)[:4]} are not observable")
                    rep.functions.update(L.it.funcs_seen)
                rep.guard("R1", f"{tag} {kind} {n_before}", go)
        # malformed input
        for label, spoil in SPOIL:
            def go(label=label, spoil=spoil):
                L, R = build(cname, P, kw, **lab)
                for name, n in (("fit", 8), ("update", 2)):
                    d = data(r, n)
                    d["y"] = np.clip(d["y"], -3.5, 3.5)
                    L.call(name, **d)
                    getattr(R, name)(**d)
                pre = L.reach()
                d = data(r, 3)
                d["y"] = np.clip(d["y"], -3.5, 3.5)
                d = spoil({k: v.copy() for k, v in d.items()})
                pts = [(e, s) for e, s in points(L, "update", d) if e.kind in ("raise", "reject")][:1]
                con = f"{tag} {label}"
                if not pts:
                    rep.ob("R4", con, REFUTED, where(cname, "update"), "no check of update rejects it")
                    return
                e, s = pts[0]
                rep.ob("R4", con, HOLDS, e.where(), str(e.data[0]))
                F = L.fork(s)
                diff = [k for k in set(pre) | set(F.reach()) if pre.get(k) is not F.reach().get(k)]
                if diff:
                    import copy
                    R2, good = copy.deepcopy(R), data(r, 2)
                    good["y"] = np.clip(good["y"], -3.5, 3.5)
                    try:
                        observe(F, R2, cname, "update", ())
                        compare(F, R2, cname, [("update", good)], X=good["X"])
                    except Diff as x:
                        rep.ob("R1", con, REFUTED, e.where(), f"state changed before the rejection ({', '.join(sorted(diff)[:4])}); afterwards {x.what}: {x.detail}")
                        return
                rep.ob("R1", con, HOLDS, e.where(), "state as before the call")
            rep.guard("R4", f"{tag} {label}", go)
        # rejected first fit
        for kind, val in bad:
            def go(kind=kind, val=val):
                L, R = build(cname, P, kw, **lab)
                d = data(r, 8)
                d["y"] = np.clip(d["y"], -3.5, 3.5)
                if val is not None:
                    d["y"][0] = val
                st0 = L.st.copy()
                pts = points(L, "fit", d)
                if val is not None:
                    pts = [(e, s) for e, s in pts if e.kind == "raise"][:1]
                for e, s in pts:
                    import copy
                    F, R2 = L.fork(s), copy.deepcopy(R)
                    good = data(r, 8)
                    good["y"] = np.clip(good["y"], -3.5, 3.5)
                    con = f"{tag} {kind}: {e.data[0]}"
                    try:
                        F.call("partial_fit", **good)
                        R2.fit(**good)
                        observe(F, R2, cname, "fit", ())
                    except (Diff, Raised, Fault) as x:
                        rep.ob("R2", con, REFUTED, e.where(), f"after the rejected fit partial_fit does not fit afresh: {x}")
                    else:
                        rep.ob("R2", con, HOLDS, e.where(), "partial_fit fits afresh")
            rep.guard("R2", f"{tag} {kind}", go)
