"""C12 coordinate descent: exact coordinate minimisation inside the box."""
from .. import mine
from ..model import *

ID = "C12"
RULES = {
    "D1": "one sweep sets each coefficient in turn to the exact minimiser of the penalised quadratic, clipped to its bounds (unpenalised ones without shrinkage)",
    "D2": "a point satisfying the optimality conditions is left unchanged and reported as converged after one sweep",
    "D3": "later sweeps repeat the same coordinate update (coefficients at zero may be skipped); random selection is a permutation of all coordinates",
    "D4": "at most max_iterations sweeps; a sweep whose relative change is within tolerance is the last, otherwise sweeping continues",
    "D5": "inputs (Gramians, start vector, bounds) are not modified",
    "D6": "soft thresholding is sign(x) max(|x| - t, 0)",
}
EXPL = ("The solver's sweep and stopping rule are extracted as nested recurrences; single and double unrollings of the recurrence kernel are "
        "identity-tested against the prescribed coordinate minimiser over generic Gramians, penalties, bounds, start vectors and regularisation masks.")


SRC = ("coordinate_descent",)


def point(r, J, k, wide=False):
    A = arr(r, 6 * J + 2, J)
    lo, hi = (np.full(J, -np.inf), np.full(J, np.inf)) if k % 2 == 0 else (arr(r, J, lo=-.4, hi=-.05), arr(r, J, lo=.05, hi=.4))
    reg = np.ones(J, bool)
    if k % 3 != 2:
        reg[0 if k % 3 == 0 else J - 1] = False
    return dict(x_gram=A.T @ A, y_gram=A.T @ arr(r, 6 * J + 2) * (3 if k % 4 else 1), beta=arr(r, J), regularization=float(r.uniform(.3, 6)),
                is_regularized=reg, alpha=[0.0, 1.0, .35, .8][k % 4], beta_lower_bound=lo, beta_upper_bound=hi,
                selection="cyclic", tolerance=0.0, max_iterations=1)


def upd(p, b, j):
    u = p["y_gram"][j] - p["x_gram"][j] @ b + p["x_gram"][j, j] * b[j]
    d = p["x_gram"][j, j]
    if p["is_regularized"][j]:
        u = np.sign(u) * max(abs(u) - p["alpha"] * p["regularization"], 0)
        d = d + p["regularization"] * (1 - p["alpha"])
    return min(max(u / d, p["beta_lower_bound"][j]), p["beta_upper_bound"][j])


def sweep(p, b, order, active=False):
    b = b.copy()
    for j in order:
        if active and b[j] == 0:
            continue
        b[j] = upd(p, b, j)
    return b


def solve(p):
    b = p["beta"] * 0
    for _ in range(4000):
        b = sweep(p, b, range(len(b)))
    return b


def run(rep):
    f = func("coordinate_descent", "online_coordinate_descent")
    e = ext(f)
    seen(rep, e)
    w = e.where()
    con = f.name
    if e.term is None:
        rep.ob("D1", con, REFUTED, w, "no path returns")
        return
    n = 8 if rep.tier == "quick" else 24

    def val(p, **kw):
        q = dict(p, **kw)
        calls = {"call": perm}
        v = Eval({sym(k): x for k, x in q.items()}, e.loops, calls)(e.term)
        return np.asarray(v[0], float), int(v[1])
    order_used = []

    def perm(ev, t):
        if not str(t.args[0]).endswith("permutation"):
            return NotImplemented
        J = int(np.ravel(ev(t.args[-1]))[0]) if np.ndim(ev(t.args[-1])) == 0 else len(ev(t.args[-1]))
        o = np.roll(np.arange(J)[::-1], 1)
        order_used.append(o)
        return o

    def d1():
        r = rng(12)
        for k in range(n):
            for J in (1, 3, 4) if k else sorted({1, 3, 4, 12, 25, 60, *mine.sizes(SRC, 4, 150)}):
                p = point(r, J, k)
                got, it = val(p)
                want = sweep(p, p["beta"], range(J))
                rep.count("identity_points")
                if got.shape != (J,) or not close(got, want):
                    rep.ob("D1", con, REFUTED, w, f"one sweep at {short(p)} gives {short(got)}, prescribed {short(want)}")
                    return
                # start outside the bounds / start at zero
                p["beta"] = np.where(np.arange(J) % 2 == 0, 5.0, 0.0)
                got, it = val(p)
                want = sweep(p, p["beta"], range(J))
                if not close(got, want):
                    rep.ob("D1", con, REFUTED, w, f"one sweep from {short(p['beta'])} gives {short(got)}, prescribed {short(want)}")
                    return
        for m in sorted({1e-8, 1e-4, 1e-2, 50.0, 1e4, *(f * v for v in mine.mags(SRC, 1e-18, 1e12) for f in (0.05, 1.0, 20.0))}):
            for gs, ys in ((m, m), (1.0, m)):  # the same problem in other units: smaller or larger data, smaller or larger coefficients
                p = point(r, 3, 2)
                q = dict(p, x_gram=p["x_gram"] * gs, y_gram=p["y_gram"] * ys, regularization=p["regularization"] * (ys if p["alpha"] == 1.0 else gs), beta=p["beta"] * ys / gs, alpha=p["alpha"] if gs == ys else 1.0)
                if gs != ys:
                    q["regularization"] = p["regularization"] * ys
                for N in (1, 3):
                    got, it = val(q, max_iterations=N)
                    if not any(close(got * gs / ys, iterate(q, N, act) * gs / ys) for act in (True, False)):
                        rep.ob("D1", con, REFUTED, w, f"{N} sweeps at {short(q)} give {short(got)}, prescribed {short(iterate(q, N, True))}")
                        return
            for key in ("regularization", "y_gram", "x_gram", "beta"):
                p = point(r, 3, 2)
                p[key] = p[key] * m
                got, it = val(p)
                want = sweep(p, p["beta"], range(3))
                if not close(got, want):
                    rep.ob("D1", con, REFUTED, w, f"one sweep at {short(p)} gives {short(got)}, prescribed {short(want)}")
                    return
        rep.ob("D1", con, HOLDS, w, f"{6 * n} sweeps")
    rep.guard("D1", con, d1)

    def d2():
        r = rng(13)
        for k in range(n):
            p = point(r, 4, k)
            b = solve(p)
            p["beta"] = b
            got, it = val(p, tolerance=1e-9, max_iterations=50)
            if not close(got, b, 1e-6, 1e-8) or it != 1:
                rep.ob("D2", con, REFUTED, w, f"optimal point {short(b)} becomes {short(got)} after {it} sweeps")
                return
        rep.ob("D2", con, HOLDS, w, f"{n} optimal points")
    rep.guard("D2", con, d2)

    def d3():
        r = rng(14)
        for k in range(n):
            p = point(r, 4, k)
            for sel in ("cyclic", "random"):
                del order_used[:]
                got, it = val(p, max_iterations=2, selection=sel)
                o = range(4) if sel == "cyclic" else (order_used[-1] if order_used else None)
                if o is None:
                    raise Unknown("random order not recognised")
                if sorted(o) != [0, 1, 2, 3]:
                    rep.ob("D3", f"{con} {sel}", REFUTED, w, f"a random sweep over 4 coefficients visits only {sorted(o)}")
                    return
                cand = [sweep(p, sweep(p, p["beta"], o1), o, act) for o1 in (range(4), o) for act in (True, False)]
                if not any(close(got, x) for x in cand):
                    rep.ob("D3", f"{con} {sel}", REFUTED, w, f"two sweeps at {short(p)} give {short(got)}, prescribed {short(cand[0])}")
                    return
        # long runs of a slowly converging problem: no sweep number is special
        for N in sorted({3, 60, 130, *mine.ints(SRC, 3, 300), *(c + 5 for c in mine.ints(SRC, 3, 300))}):
            for k in (0, 1):
                p = slow(r, 4, k)
                got, it = val(p, max_iterations=N, tolerance=0.0)
                cand = [iterate(p, N, act) for act in (True, False)]
                if not any(close(got, x, 1e-7, 1e-10) for x in cand):
                    rep.ob("D3", con, REFUTED, w, f"{N} sweeps give {short(got)}, prescribed {short(cand[0])}")
                    return
        rep.ob("D3", con, HOLDS, w, f"{2 * n} double sweeps")
    rep.guard("D3", con, d3)

    def d4():
        r = rng(15)
        for k in range(n):
            p = point(r, 4, 2 * k)
            for m in (1, 2, 5):
                got, it = val(p, max_iterations=m, tolerance=0.0)
                b = p["beta"]
                full = sum(1 for _ in iter_sweeps(p, m))
                if it > m:
                    rep.ob("D4", con, REFUTED, w, f"{it} sweeps with max_iterations={m}")
                    return
                if it < min(full, m):
                    rep.ob("D4", con, REFUTED, w, f"stopped after {it} of {m} sweeps although the coefficients still change")
                    return
            got, it = val(p, max_iterations=30, tolerance=1e6)
            if it != 1:
                rep.ob("D4", con, REFUTED, w, f"{it} sweeps although the first change is within tolerance")
                return
            for tol in (1.0, 0.4, 1e-2, 1e-5):
                p = dict(p, beta=p["beta"] * (k % 2))
                got, it = val(p, max_iterations=400, tolerance=tol)
                seq = list(iter_sweeps(p, 400, tol, True))
                alt = list(iter_sweeps(p, 400, tol, False))
                if it not in (len(seq), len(alt)):
                    rep.ob("D4", con, REFUTED, w, f"tolerance {tol}: {it} sweeps, prescribed {len(seq)}")
                    return
        rep.ob("D4", con, HOLDS, w, f"{6 * n} stopping decisions")
    rep.guard("D4", con, d4)

    def d5():
        ws = param_writes(e)
        if ws:
            v = ws[0]
            rep.ob("D5", con, REFUTED, f"{v.file}:{v.line} {con}", f"writes into argument {v.data[1]}")
        else:
            rep.ob("D5", con, PROVED, w, "no store reaches an argument")
    rep.guard("D5", con, d5)

    def d6():
        s = func("coordinate_descent", "soft_threshold")
        es = ext(s)
        a, b = s.params()[:2]
        r = rng(16)
        pts = [{a: float(r.uniform(-3, 3)), b: float(r.uniform(0, 2))} for _ in range(12)] + [{a: 0.0, b: 1.0}, {a: -2.0, b: 0.0}]
        ident(rep, "D6", s.name, es, es.term, pts, lambda p: np.sign(p[a]) * max(abs(p[a]) - p[b], 0))
    if "soft_threshold" in func("coordinate_descent", "online_coordinate_descent").module.defs:
        rep.guard("D6", "soft_threshold", d6)


def slow(r, J, k):
    p = point(r, J, k * 2)
    n = 6 * J + 2
    A = arr(r, n, 1) + 0.06 * arr(r, n, J)  # nearly collinear columns: hundreds of sweeps
    p.update(x_gram=A.T @ A, y_gram=A.T @ arr(r, n) + A.T @ A @ (3 * (-1.0) ** np.arange(J)), regularization=1e-4, beta=np.ones(J))
    return p


def iterate(p, N, active):
    b = p["beta"]
    for i in range(N):
        b = sweep(p, b, range(len(b)), active and i > 0)
    return b


def iter_sweeps(p, m, tol=0.0, active=True):
    b = p["beta"]
    for i in range(m):
        c = sweep(p, b, range(len(b)), active and i > 0)
        yield c
        if np.max(np.abs(c - b)) <= tol * np.max(np.abs(c)):
            return
        b = c
