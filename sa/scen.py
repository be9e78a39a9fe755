"""Scenarios shared by the estimator checks: histories x configurations compared
between the extracted value graph (`lab`) and the prescribed semantics (`ref`)."""
from __future__ import annotations

import sys

import numpy as np

from . import ref
from .evalt import Fault, Unknown, close
from .lab import Lab, Raised, Rec, reading, record  # noqa: F401
from .model import method, prog, short
from .report import HOLDS, REFUTED, UNDECIDED

GA, LI = "OnlineDistributionalRegression", "OnlineLinearModel"
sys.setrecursionlimit(100000)


def meths(P, path, length=7):
    return {p: record(f"M{p}", path, length) for p in range(P)}


def data(r, n, J=3, w=True):
    d = dict(X=r.normal(size=(n, J)), y=r.normal(size=n))
    d["sample_weight"] = r.uniform(0.5, 2, n) if w else None
    return d


def where(cname, name):
    import os
    f = method(cname, name)
    return f"{os.path.relpath(f.module.path, prog().repo)}:{f.node.lineno} {f.qual}"


class Diff(Exception):
    def __init__(self, what, at, detail):
        super().__init__(f"{what}: {detail}")
        self.what, self.at, self.detail = what, at, detail


def build(cname, P, kw, **lab):
    L = Lab(cname, params=P, **lab, **kw)
    if cname == GA:
        R = ref.Gamlss(P, support=L.support, columns=L.it.columns, **kw)
    else:
        R = ref.Linear(**kw)
    return L, R


def observe(L, R, cname, call, what):
    """compare the observable state after a call"""
    vals = {"coef_": R.coef_, "n_observations_": R.n_observations_, "n_training_": R.n_training_}
    if "path" in what:
        vals["coef_path_"] = getattr(R, "coef_path_", None)
    for k, want in vals.items():
        if want is None:
            continue
        try:
            got = L.get(k)
        except Fault as e:
            raise Diff(k, call, f"evaluation fails: {e}")
        if isinstance(want, dict) and isinstance(got, dict):
            for p in want:
                if want[p] is None:
                    continue
                if p not in got or not close(got[p], want[p], 1e-6, 1e-8):
                    raise Diff(f"{k}[{p}]", call, f"{short(got.get(p), 120)} instead of {short(want[p], 120)}")
        elif want is not None and not close(got, want, 1e-6, 1e-8):
            raise Diff(k, call, f"{short(got, 120)} instead of {short(want, 120)}")


def compare(L, R, cname, hist, X=None, what=("path",)):
    """run the history in both; raises Diff at the first observable difference"""
    for name, d in hist:
        try:
            L.call(name, **d)
        except Raised as e:
            raise Diff("raises", name, f"the call raises {e.exc} at {e.event.where() if e.event else '?'}")
        except Fault as e:
            raise Diff("no value", name, f"evaluation fails: {e}")
        getattr(R, name)(**d)
        observe(L, R, cname, name, what)
    if X is not None:
        if cname == GA:
            pairs = [("predict_distribution_parameters", L.call("predict_distribution_parameters", X=X), R.theta(X))]
        else:
            pairs = [("predict", L.call("predict", X=X), R.predict(X))]
        for nm, got, want in pairs:
            if not close(got, want, 1e-6, 1e-8):
                raise Diff("prediction", nm, f"{short(got, 120)} instead of {short(want, 120)}")


def sensitive(cname, P, kw, alts, hist, tries=40):
    """data for which the prescribed result of the history tells `kw` from every alternative configuration"""
    mk_ = (lambda k: ref.Gamlss(P, **k)) if cname == GA else (lambda k: ref.Linear(**k))
    best, left = None, list(alts)
    for _ in range(tries):
        h = hist()
        Rs = [mk_(k) for k in [kw] + list(alts)]
        seen = set()
        for name, d in h:
            for R in Rs:
                getattr(R, name)(**d)
            for j, R in enumerate(Rs[1:]):
                a, b = (list(x.coef_.values()) if isinstance(x.coef_, dict) else [x.coef_] for x in (Rs[0], R))
                if name == h[-1][0] and any(not close(x, y, 1e-6, 1e-8) for x, y in zip(a, b)):
                    seen.add(j)
        if best is None or len(seen) > best[0]:
            best = (len(seen), h)
        if len(seen) == len(alts):
            break
    return best[1]


def scenario(rep, rule, con, cname, kw, hist, P=2, X=None, what=("path",), **lab):
    def go():
        L, R = build(cname, P, kw, **lab)
        try:
            compare(L, R, cname, hist, X, what)
        except Diff as e:
            rep.ob(rule, con, REFUTED, where(cname, e.at), f"history {[(n, len(d['y'])) for n, d in hist]}: {e.what} after {e.at}: {e.detail}")
        else:
            rep.ob(rule, con, HOLDS, where(cname, hist[-1][0]), f"{len(hist)} calls, state and predictions agree")
        rep.functions |= L.it.funcs_seen
        rep.count("histories")
        rep.count("calls", len(hist))
        rep.count("events", len(L.it.events))
        rep.count("loops", len(L.it.loops))
    rep.guard(rule, con, go, where(cname, "fit"))


def curved(rep, rule, r, thorough=False):
    """working weights of every magnitude, on both sides of every constant of the estimators"""
    from . import mine
    cs = {1e-10, 1e-5, 1e-2, 1e2, 1e5, 1e10} | {10.0 ** round(np.log10(c)) for c in mine.literals(("estimators",)) if 1e-12 < c < 1e12 and c not in (1.0, 2.0, 4.0)}
    for i, c in enumerate(sorted(cs)):
        for p in ((False, True) if thorough else (bool(i % 2),)):
            with reading(curv=c):
                kw = dict(method=meths(2, p, 6), forget=0.05, ic="bic", max_it_outer=2, max_it_inner=(1, 2)[i % 2], equation={0: "all", 1: "all"}, model_selection=("local_rss", "global_ll")[i // 2 % 2])
                scenario(rep, rule, f"distributional curvature around {c:g} {'path' if p else 'ols'}", GA, kw, [("fit", data(r, 9)), ("update", data(r, 3)), ("update", data(r, 1))], X=data(r, 2)["X"])
    # the statistics carried to the next call: the earlier observations keep their share in the selection
    for i, c in enumerate(sorted(cs)):
        for f in (1e-3, 1e3) if thorough or c not in (1e-5, 1e-2, 1e2, 1e5) else (1e-3,):
            if not 1e-12 < c * f < 1e12:
                continue
            with reading(curv=c * f):
                kw = dict(method=meths(1, True, 12), forget=0.02, ic="aic", max_it_outer=1, max_it_inner=1, equation={0: "all"}, model_selection="local_rss")
                H = sensitive(GA, 1, kw, [dict(kw, _carry=0.3), dict(kw, _carry=3.0)], lambda: [("fit", data(r, 8)), ("update", data(r, 3)), ("update", data(r, 2))], 25)
                scenario(rep, rule, f"distributional curvature around {c * f:g}, share of the past", GA, kw, H, P=1, X=data(r, 2)["X"])


SRC = ("estimators", "scaler", "gram", "methods", "utils", "information_criteria", "design_matrix", "base")


def stress(r, thorough=False):
    """(label, history, kw, J): unusual sizes, weights, scales and forgetting factors, and both sides of the constants of the code"""
    from . import mine

    def h(ns, J=3, wm=1.0, xm=1.0, ym=1.0, spread=False, w=True):
        out = []
        for i, n in enumerate(ns):
            d = data(r, n, J, w)
            d["X"] = d["X"] * xm
            d["y"] = d["y"] * ym
            if w:
                d["sample_weight"] = np.exp(r.uniform(np.log(1e-3), np.log(1e3), n)) if spread else d["sample_weight"] * wm
            out.append(("fit" if i == 0 else "update", d))
        return out
    out = []
    for wm in (1e-3, 60.0, 1e4):
        out.append((f"weights x{wm:g}", h((9, 3, 1), wm=wm), {}, 3))
    out.append(("weights over six decades", h((9, 4, 1), spread=True), {}, 3))
    out.append(("60 rows, then 25 and 1", h((60, 25, 1)), {}, 3))
    out.append(("one new row, then 130", h((9, 1, 130)), {}, 3))
    out.append(("9 rows, then 14 single rows", h((9,) + (1,) * 14), {}, 3))
    out.append(("14 columns", h((20, 3, 1), J=14), {}, 14))
    for s in (1e-3, 1e3):
        out.append((f"X x{s:g}", h((9, 3, 1), xm=s), {}, 3))
        out.append((f"y x{s:g}", h((9, 3, 1), ym=s), {}, 3))
    for f in (1e-5, 0.003, 0.6, 0.95):
        out.append((f"forget {f}", h((9, 3, 1)), dict(forget=f), 3))
    consts = [c for c in mine.literals(SRC) if 8 <= c <= 1e6]
    for c in consts:  # the accumulated weight passes the constant
        hh = h((9, 3, 2, 1))
        tot = [0.8 * c, 0.15 * c, 0.15 * c, 0.5 * c]
        for (_, d), t in zip(hh, tot):
            d["sample_weight"] *= t / d["sample_weight"].sum()
        out.append((f"weight total around {c:g}", hh, {}, 3))
    for n in mine.sizes(SRC, 8, 400 if thorough else 150, 4):
        out.append((f"{n} rows, then {n}", h((n, n, 1)), {}, 3))
        if n <= 40:
            out.append((f"{n} columns", h((n + 6, 3, 1), J=n), {}, n))
    for f in mine.fracs(SRC):
        if 1e-6 < f < 0.99:
            out.append((f"forget {f:.6g}", h((9, 3, 1)), dict(forget=f), 3))
    return out


def stressed(rep, rule, r, thorough=False, keep=lambda lb: True, **more):
    """every stress history for the linear and the distributional model"""
    for i, (lb, H, kw, J) in enumerate(stress(r, thorough)):
        if not keep(lb):
            continue
        big = sum(len(d["y"]) for _, d in H) > 60 or len(H) > 6
        path = bool(i % 2)
        X = data(r, 2, J)["X"]
        for p in ((path, not path) if thorough else (path,)):
            scenario(rep, rule, f"linear {lb} {'path' if p else 'ols'}", LI, dict(dict(method=record("M", p), forget=0.05, ic="bic"), **kw), H, X=X)
            o, n = (1, 1) if big else ((2, 1), (1, 2))[i % 2]
            a = dict(method=meths(2, p, 6), forget=0.05, ic="bic", max_it_outer=o, max_it_inner=n, equation={0: "all", 1: "all"}, model_selection=("local_rss", "global_ll")[i // 2 % 2])
            scenario(rep, rule, f"distributional {lb} {'path' if p else 'ols'}", GA, dict(a, **kw, **more), H, X=X)
