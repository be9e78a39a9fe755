"""C09 Curvature reported to the scoring algorithm."""
import itertools

from .c08 import judge
from ..dists import *

ID = "C09"
RULES = {
    "K1": "second derivative w.r.t. parameter j is, at all points, one admissible curvature: the exact second derivative, its expectation "
          "(given the continuous/point-mass branch for mixed families), or minus the squared score",
    "K2": "expected or score-based curvature is never positive",
    "K3": "cross derivative (i,j) is likewise exact, expected, or minus the product of scores",
}
EXPL = ("Extraction per distribution, parameter and pair with constant-propagated indices; candidates are derived symbolically from the documented "
        "log density (expectations by quadrature of the expressions) and identity-tested.")


def near(a, b):
    return np.isfinite(a) & (np.abs(a - b) <= 5e-3 * np.abs(b) + 1e-5)


def sub(D, y, th):
    """rows where the quadrature of the expectation is trustworthy"""
    ok = np.ones(len(y), bool)
    if D.support[1] < 2:  # unit interval: avoid extreme beta shapes
        ok &= (th[:, 1] < 0.75) & (np.minimum(th[:, 0], 1 - th[:, 0]) * (1 - th[:, 1] ** 2) / th[:, 1] ** 2 > 0.25)
    if D.name == "StudentT":
        ok &= th[:, 2] > 2.2
    if D.name in ("Gamma", "ZeroAdjustedGamma"):
        ok &= th[:, 1] < 2.0
    if D.name == "InverseGamma":
        ok &= th[:, 1] < 1.5
    if D.name in ("LogNormal", "LogNormalMedian"):
        ok &= th[:, 1] < 3
    if D.name == "InverseGaussian":
        ok &= th[:, 1] ** 2 * th[:, 0] < 50
    return y[ok], th[ok]


def expected(D, term_of, y, th):
    out = np.empty(len(y))
    masses = MIXED.get(D.name, ())
    glob = np.array([D.expect(term_of, t) for t in th])
    cont = np.array([cond(D, term_of, t) for t in th]) if masses else glob
    br = cont.copy()
    for m in masses:
        s = y == m
        if s.any():
            br[s] = np.broadcast_to(Eval({Y: y[s], TH: th[s]})(term_of(D.refterm(m))), s.sum())
    return glob, br


def cond(D, term_of, t):
    save = MIXED.pop(D.name)
    try:
        one = D.expect(lambda x: const(1), t)
        return D.expect(term_of, t) / one
    finally:
        MIXED[D.name] = save


def mass(D, t):
    k = t.tobytes()
    if not hasattr(D, "_mass"):
        D._mass = {}
    if k not in D._mass:
        D._mass[k] = abs(D.expect(lambda x: const(1), t) - 1) < 1e-6
    return D._mass[k]


def run(rep):
    n = 10 if rep.tier == "quick" else 40
    for name in names():
        def one(name=name):
            D = Dist(name)
            y0, th0 = D.sample(n, seed=5)
            y, th = sub(D, y0, th0)
            rep.count("identity_points", len(y))
            S = {}
            for j in range(D.k):
                S[j] = D.refval(lambda t: diff(t, D.leaf(j)), y, th)

            ym, tm_ = D.mined(3)

            def far(rule, con, e, f2, hit, neg, core):
                """the same law on both sides of every constant in the module and over several decades"""
                yy, tt = ym, tm_
                if hit == "exact":
                    ok, want = D.benign(f2, yy, tt)
                elif hit == "minus score product":
                    (o1, s1), (o2, s2) = (D.benign(lambda t, j=j: diff(t, D.leaf(j)), yy, tt) for j in neg)
                    ok, want = o1 & o2, -s1 * s2
                else:
                    yy, tt = sub(D, yy, tt)
                    if np.abs(core).max() < 1e-6:  # the expectation vanishes identically
                        want, ok = np.zeros(len(yy)), np.ones(len(yy), bool)
                    else:
                        yy, tt = yy[::3], tt[::3]
                        keep = np.array([mass(D, t) for t in tt], bool)
                        yy, tt = yy[keep], tt[keep]
                        keys = {t.tobytes(): t for t in tt}
                        g = {k: expected(D, f2, np.zeros(1) + 0.5, t[None])[0 if hit == "expected" else 1][0] for k, t in keys.items()}
                        want = np.array([g[t.tobytes()] for t in tt])
                        ok = np.isfinite(want) & (np.abs(want) > 1e-8)
                if not ok.any():
                    return
                yy, tt, want = yy[ok], tt[ok], want[ok]
                rep.count("identity_points", len(yy))
                with np.errstate(all="ignore"):
                    got = D.ev(e, e.term, yy, tt)
                good = np.isfinite(got) & (np.abs(got - want) <= 1e-3 * np.abs(want) + 1e-6)
                judge(rep, rule, con + " around constants", e, got, want, yy, tt, ok=good)

            def law(rule, con, e, f2, neg_score, neg=()):
                seen(rep, e)
                if e.term is None:
                    rep.ob(rule, con, REFUTED, e.where(), "no value")
                    return
                got = D.ev(e, e.term, y, th)
                ex = D.refval(f2, y, th)
                cands = {"exact": ex, "minus score product": neg_score}
                okc = {k: near(got, v) for k, v in cands.items()}
                if not any(v.all() for v in okc.values()):
                    g, b = expected(D, f2, y, th)
                    cands["expected"] = g
                    cands["expected per branch"] = b
                    for k in ("expected", "expected per branch"):
                        okc[k] = near(got, cands[k])
                hit = next((k for k, v in okc.items() if v.all()), None)
                if hit:
                    rep.ob(rule, con, HOLDS, e.where(), f"{hit}, {len(y)} points")
                    far(rule, con, e, f2, hit, neg, cands[hit])
                else:
                    best = max(okc, key=lambda k: okc[k].sum())
                    i = int(np.flatnonzero(~okc[best])[0])
                    rep.ob(rule, con, REFUTED, e.where(), f"matches no admissible curvature; at y={y[i]:.6g}, theta={short(th[i])}: {got[i]:.8g}, while " + ", ".join(f"{k}={v[i]:.8g}" for k, v in cands.items()))
                return hit, got

            for j in range(D.k):
                def k1(j=j):
                    e = D.m("dl2_dp2", param=const(j))
                    f2 = lambda t: diff(diff(t, D.leaf(j)), D.leaf(j))
                    r = law("K1", f"{name} parameter {j}", e, f2, -S[j] ** 2, (j, j))
                    if r and r[0] and r[0] != "exact":
                        g = D.ev(e, e.term, y0, th0)
                        bad = ~(g <= 1e-12)
                        judge(rep, "K2", f"{name} parameter {j}", e, g, np.zeros(len(g)), y0, th0, ok=~bad)
                rep.guard("K1", f"{name} parameter {j}", k1)
            if name == "StudentT":
                # the information about the tail falls like nu^-4: far below the resolution of the quadrature, so compare with the closed form
                def tail():
                    e = D.m("dl2_dp2", param=const(2))
                    r = rng(91)
                    nu = np.exp(r.uniform(np.log(1.0), np.log(1500.0), 40))
                    th = np.column_stack([r.uniform(-3, 3, 40), r.uniform(.3, 3, 40), nu])
                    yy = r.uniform(-4, 4, 40)
                    got = D.ev(e, e.term, yy, th)
                    ex = D.refval(lambda t: diff(diff(t, D.leaf(2)), D.leaf(2)), yy, th)
                    from scipy.special import polygamma
                    want = (polygamma(1, (nu + 1) / 2) - polygamma(1, nu / 2)) / 4 + (nu + 5) / (2 * nu * (nu + 1) * (nu + 3))
                    sc = -D.refval(lambda t: diff(t, D.leaf(2)), yy, th) ** 2
                    best = max((want, ex, sc), key=lambda v: (np.abs(got - v) <= 1e-2 * np.abs(v)).sum())
                    judge(rep, "K1", "StudentT parameter 2, up to 1500 degrees of freedom", e, got, best, yy, th, ok=np.abs(got - best) <= 1e-2 * np.abs(best) + 1e-15)
                rep.guard("K1", "StudentT parameter 2, up to 1500 degrees of freedom", tail)
            for a, b in itertools.permutations(range(D.k), 2):
                def k3(a=a, b=b):
                    e = D.m("dl2_dpp", params=mk("tuple", const(a), const(b)))
                    law("K3", f"{name} parameters {a},{b}", e, lambda t: diff(diff(t, D.leaf(a)), D.leaf(b)), -S[a] * S[b], (a, b))
                rep.guard("K3", f"{name} parameters {a},{b}", k3)
        rep.guard("K1", name, one)
