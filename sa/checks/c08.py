"""C08 Scores are the derivatives of the log density."""
from ..dists import *

ID = "C08"
RULES = {
    "L1": "the reported log density is the documented density of the family in its documented parameterisation (incl. point masses)",
    "L2": "first derivative w.r.t. parameter j = d/d theta_j of the log density, at every y in the support",
}
EXPL = ("For every distribution class and parameter index the returned term is extracted with the parameter index constant-propagated, the "
        "documented log density is differentiated symbolically, and the two expressions are identity-tested on core and far-out points.")


def cmp_(got, want):
    d = np.abs(got - want)
    return np.isfinite(got) & (d <= 1e-6 * np.abs(want) + 1e-7 * (1 + np.abs(want).max() * 1e-3))


def run(rep):
    n = 24 if rep.tier == "quick" else 150
    for name in names():
        def one(name=name):
            D = Dist(name)
            y, th = D.sample(n)
            rep.count("identity_points", len(y) * (D.k + 1))

            def lp():
                e = D.m("logpdf")
                seen(rep, e)
                got, want = D.ev(e, e.term, y, th), D.refval(lambda t: t, y, th)
                judge(rep, "L1", f"{name}.logpdf", e, got, want, y, th, ok=cmp_(got, want) | (want < -600))  # densities below exp(-600) may underflow
            rep.guard("L1", f"{name}.logpdf", lp)
            ym, tm_ = D.mined()

            def far(rule, con, e, term_of):
                """both sides of every constant in the module, looser tolerance"""
                if not len(ym) or e.term is None:
                    return
                ok, want = D.benign(term_of, ym, tm_)
                if not ok.any():
                    return
                rep.count("identity_points", int(ok.sum()))
                yy, tt, want = ym[ok], tm_[ok], want[ok]
                with np.errstate(all="ignore"):
                    got = D.ev(e, e.term, yy, tt)
                good = (np.isfinite(got) & (np.abs(got - want) <= 1e-4 * np.abs(want) + 1e-6)) | ((want < -600) & (rule == "L1"))
                judge(rep, rule, con + " around constants", e, got, want, yy, tt, ok=good)
            rep.guard("L1", f"{name}.logpdf", lambda: far("L1", f"{name}.logpdf", D.m("logpdf"), lambda t: t))
            for j in range(D.k):
                def sc(j=j):
                    e = D.m("dl1_dp1", param=const(j))
                    seen(rep, e)
                    if e.term is None:
                        rep.ob("L2", f"{name} parameter {j}", REFUTED, e.where(), "no value for this parameter")
                        return
                    got = D.ev(e, e.term, y, th)
                    want = D.refval(lambda t: diff(t, D.leaf(j)), y, th)
                    judge(rep, "L2", f"{name} parameter {j}", e, got, want, y, th)
                    far("L2", f"{name} parameter {j}", e, lambda t: diff(t, D.leaf(j)))
                rep.guard("L2", f"{name} parameter {j}", sc)
        rep.guard("L2", name, one)


def judge(rep, rule, con, e, got, want, y, th, ok=None):
    ok = cmp_(got, want) if ok is None else ok
    if ok.all():
        rep.ob(rule, con, HOLDS, e.where(), f"{len(y)} points")
    else:
        i = int(np.flatnonzero(~ok)[0])
        rep.ob(rule, con, REFUTED, e.where(), f"at y={y[i]:.6g}, theta={short(th[i])}: extracted {got[i]:.9g}, prescribed {want[i]:.9g} ({(~ok).sum()} of {len(y)} points)")
