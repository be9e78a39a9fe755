"""C05 Scaling and back-scaling."""
import numpy as np

from .c01 import fv
from .c04 import configs, stats
from ..evalt import close
from ..model import *

ID = "C05"
RULES = {
    "T1": "transform maps each selected column to (x-mean)/std of the fitted statistics and leaves every other column unchanged",
    "T2": "inverse_transform maps each selected column to x*std+mean and leaves every other column unchanged",
    "T3": "inverse_transform(transform(X)) = X and transform(inverse_transform(Z)) = Z",
    "T4": "with scaling switched off both are the identity",
    "T5": "neither changes the array of the caller or the scaler",
}
EXPL = ("Return terms of transform/inverse_transform composed with the extracted post-fit state and compared with the prescribed "
        "column expressions by identity testing.")


def run(rep):
    r = rng(9)
    J = 4
    for cname, ts, cols in list(configs(J)) + [("off", False, np.array([], int))]:
        def go(cname=cname, ts=ts, cols=cols):
            for f, xs, zs, ws in ((0.0, 1.0, 1.0, 1.0), (0.2, 1.0, 1.0, 1.0), (0.0, 1e-6, 1e-6, 1.0), (0.1, 1e5, 1e5, 1.0), (0.0, 1.0, 1e6, 1.0), (0.1, 1.0, 1e-7, 1.0), (0.1, 1.0, 1.0, 1e-3), (0.0, 1.0, 1.0, 1e4)):
                X0, X1 = xs * arr(r, 6, J), xs * arr(r, 2, J)
                m = Machine("OnlineScaler", {"forget": f, "to_scale": ts})
                w = ws * arr(r, 8, lo=.5, hi=2)
                m.apply("fit", X=X0, y=None, sample_weight=w[:6])
                m.apply("update", X=X1, y=None, sample_weight=w[6:])
                me, va = stats(np.r_[X0, X1][:, cols], w, f)
                for n in (1, 3, 60):
                    Z = zs * arr(r, n, J)
                    st0 = dict(m.state)
                    t = m.apply("transform", X=Z)
                    b = m.apply("inverse_transform", X=Z)
                    wt, wb = Z.copy(), Z.copy()
                    if len(cols):
                        wt[:, cols] = (Z[:, cols] - me) / np.sqrt(va)
                        wb[:, cols] = Z[:, cols] * np.sqrt(va) + me
                    et, eb = m.ext("transform"), m.ext("inverse_transform")
                    for e in (et, eb):
                        w = param_writes(e)
                        if w or set(m.state) != set(st0) or not all(m.state[k] is v or close(m.state[k], v) for k, v in st0.items()):
                            rep.ob("T5", f"{e.f.name} ({cname})", REFUTED, w[0].where() if w else e.where(), "writes the caller's array" if w else "changes the scaler")
                            return
                    for rule, e, g, want in (("T1" if len(cols) else "T4", et, t, wt), ("T2" if len(cols) else "T4", eb, b, wb),
                                             ("T3", eb, m.apply("inverse_transform", X=t), Z), ("T3", et, m.apply("transform", X=b), Z)):
                        con = f"{e.f.name} ({cname})"
                        if not close(g, want, 1e-7, 1e-8 * np.abs(want).max()):
                            rep.ob(rule, con, REFUTED, e.where(), f"at {short(Z)}: {short(g)} instead of {short(want)}")
                            return
            seen(rep, et)
            seen(rep, eb)
            for rule in (("T1", "T2", "T3", "T5") if len(cols) else ("T4", "T3", "T5")):
                rep.ob(rule, cname, HOLDS, et.where())
        rep.guard("T1", cname, go)
