"""C03 Discount weights, effective sample size and online mean."""
import numpy as np

from .c01 import fv
from .. import mine
from ..evalt import Eval
from ..model import *

ID = "C03"
RULES = {
    "D1": "weight of the k-th newest of n observations is (1-forget)^k, newest weight 1, no discount when forget = 0",
    "D2": "effective length = sum of the discount weights (n when forget = 0); asymptotic length = its limit 1/forget",
    "D3": "online mean, fed one value or a chunk, equals the discounted average of the whole history",
}
EXPL = ("Extraction of the discount-vector recurrence, effective-length formulas and the online-mean recurrence; identity-tested "
        "against geometric sums and the discounted batch average over several chunkings.")


def run(rep):
    src = ('gram', 'utils')
    fs = (0.0, 0.1, 0.35) if rep.tier == "quick" else (0.0, 0.001, 0.1, 0.35, 0.8)
    ns = (1, 2, 3, 6) if rep.tier == "quick" else (1, 2, 3, 6, 13, 30)

    fs = sorted({*fs, 1e-5, 0.01, 0.6, 0.95, *mine.fracs(src)})
    ns = sorted({*ns, 37, 150, 1100, *mine.sizes(src)})

    def vec():
        e = ext(func("gram", "init_forget_vector"))
        seen(rep, e)
        ident(rep, "D1", "init_forget_vector", e, e.term, [dict(forget=f, size=n) for f in fs for n in ns], lambda p: fv(p["size"], p["forget"]))
    rep.guard("D1", "init_forget_vector", vec)

    def eff():
        e = ext(func("utils", "calculate_effective_training_length"))
        seen(rep, e)
        ident(rep, "D2", "calculate_effective_training_length", e, e.term, [dict(forget=f, n_obs=n) for f in fs for n in ns], lambda p: fv(p["n_obs"], p["forget"]).sum())
    rep.guard("D2", "calculate_effective_training_length", eff)

    def asy():
        e = ext(func("utils", "calculate_asymptotic_training_length"))
        seen(rep, e)
        ident(rep, "D2", "calculate_asymptotic_training_length", e, e.term, [dict(forget=f) for f in fs if f], lambda p: 1 / p["forget"])
        v = Eval({sym("forget"): 0.0}, e.loops)(e.term)
        rep.ob("D2", "calculate_asymptotic_training_length(0)", HOLDS if v >= 1e15 else REFUTED, e.where(), f"unbounded history must not be truncated: {v}")
    rep.guard("D2", "calculate_asymptotic_training_length", asy)

    def mean():
        f = func("utils", "online_mean_update")
        e = ext(f)
        seen(rep, e)
        r = rng(11)

        def disc(v, f):
            w = fv(len(v), f)
            return (w * v).sum() / w.sum()
        pts = []
        for fo in fs:
            for n0, b in [(i, j) for i in (1, 2, 5) for j in (1, 2, 4)] + [(60, 1), (200, 1), (1500, 1), (40, 70), (1, 300)]:
                h = arr(r, n0 + b)
                pts.append(dict(avg=disc(h[:n0], fo), value=h[n0:], forget=fo, n_seen=n0 + b, _want=disc(h, fo)))
                if b == 1:
                    pts.append(dict(avg=disc(h[:n0], fo), value=float(h[n0]), forget=fo, n_seen=n0 + 1, _want=disc(h, fo)))
        ident(rep, "D3", "online_mean_update", e, e.term, pts, lambda p: p["_want"])
    rep.guard("D3", "online_mean_update", mean)
