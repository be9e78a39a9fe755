"""C04 Streaming scaler statistics equal the discounted, weighted batch statistics."""
import numpy as np

from .c01 import fv
from .. import mine
from ..evalt import close
from ..model import *

ID = "C04"
RULES = {
    "S1": "after fit, mean and variance of every scaled column are those of the discount*weight-averaged rows",
    "S2": "after any fit/update sequence they equal the batch statistics of the whole history",
    "S3": "the observation counter is the accumulated sample weight",
}
EXPL = ("The post-state terms of fit and update (the row loop is a mu node) are composed over several chunkings and compared with "
        "the prescribed weighted statistics by identity testing; no private attribute is named.")


def stats(X, w, f):
    e = w * fv(len(X), f)
    m = (e[:, None] * X).sum(0) / e.sum()
    return m, (e[:, None] * (X - m) ** 2).sum(0) / e.sum()


def configs(J):
    yield "all", True, np.arange(J)
    b = np.zeros(J, bool)
    b[::2] = True
    yield "bool mask", b, np.flatnonzero(b)
    yield "int index", np.array([J - 1, 0]), np.array([J - 1, 0])


def run(rep):
    r = rng(7)
    J = 3
    chunks = [(4,), (3, 1), (2, 3), (2, 1, 1, 2)] + ([] if rep.tier == "quick" else [(5, 4, 3, 2, 1), (2, 7), (3, 1, 5, 1), (2,) * 6])
    forgets = (0.0, 0.15) if rep.tier == "quick" else (0.0, 0.01, 0.15, 0.5, 0.9)
    src = ("scaler",)
    plan = [(f, s, 1.0, 1.0) for f in forgets for s in chunks]
    plan += [(f, (3, 1, 2), 1.0, 1.0) for f in sorted({1e-4, 0.01, 0.6, 0.9, *mine.fracs(src)})]
    plan += [(f, s, 1.0, 1.0) for f in (0.0, 0.02) for s in ((40, 1), (2, 120, 1), *((n, n) for n in mine.sizes(src, 4, 500)))]
    plan += [(.05, (3, 1, 2), m, 1.0) for m in sorted({1e-3, 1e3, 1e5, *mine.mags(src, 1e-6, 1e8)})]
    plan += [(.05, (3, 1, 2), 1.0, m) for m in sorted({1e-6, 1e-3, 1e3, *mine.mags(src, 1e-6, 1e6)})]
    plan += [(f, (3, 1, 2), 1.0, "constant") for f in (0.0, 0.1)]
    for weighted in (False, True):
        for cname, ts, cols in configs(J):
            con = f"{cname}, {'weighted' if weighted else 'unweighted'}"

            def go(weighted=weighted, ts=ts, cols=cols, con=con):
                n = 0
                for f, split, wm, xm in plan:
                    N = sum(split)
                    X = arr(r, N, J)
                    if xm == "constant":  # columns without variation at first, or ever
                        X[:split[0], 0] = 1.0
                        X[:, 1:] = 2.0
                        xm = 1.0
                    X = xm * X
                    w = wm * arr(r, N, lo=.2, hi=3) if weighted else np.ones(N)
                    m = Machine("OnlineScaler", {"forget": f, "to_scale": ts})
                    a = 0
                    for i, s in enumerate(split):
                        sl = slice(a, a + s)
                        m.apply("fit" if i == 0 else "update", X=X[sl], y=None, sample_weight=w[sl] if weighted else None)
                        a += s
                        rule = "S1" if i == 0 else "S2"
                        me, va = stats(X[:a][:, cols], w[:a], f)
                        e = m.ext("fit" if i == 0 else "update", ("y",) if weighted else ("sample_weight", "y"))
                        for nm, want in (("mean_", me), ("var_", va), ("std_", np.sqrt(va))):
                            got = m.apply("std_") if nm == "std_" else m.state[nm]
                            if not close(np.asarray(got) / (xm * xm if nm == "var_" else xm), want / (xm * xm if nm == "var_" else xm), 1e-7, 1e-7 if nm == "std_" else 1e-9):
                                rep.ob(rule, f"{nm} ({con})", REFUTED, e.where(), f"chunks {split[:i+1]} forget {f}: {short(got)} instead of {short(want)}")
                                return
                        if not close(m.state.get("n_observations_"), w[:a].sum()):
                            rep.ob("S3", f"n_observations_ ({con})", REFUTED, e.where(), f"{m.state.get('n_observations_')} instead of {w[:a].sum()}")
                            return
                        n += 1
                for e in m.cache.values():
                    seen(rep, e)
                for rule, what in (("S1", "fit"), ("S2", "fit+update"), ("S3", "counter")):
                    rep.ob(rule, f"{what} ({con})", HOLDS, "src/ondil/scaler.py OnlineScaler", f"{n} compositions")
            rep.guard("S2", con, go)
