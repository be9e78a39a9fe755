"""C31 Conditional starting values maximise the likelihood given the other parameters."""
from ..dists import *
from ..terms import Term

ID = "C31"
RULES = {
    "V1": "parameters before the index keep the values handed in, the others receive the optimiser's solution, the same for every observation",
    "V2": "what the optimiser minimises is, up to a positive factor and a constant, minus the documented log likelihood of the response at the values that would be returned",
    "V3": "the search is bounded by the admissible range of exactly the parameters searched and starts at admissible values",
    "V4": "if the optimiser reports failure the values handed in are returned; the array handed in is not modified",
}
EXPL = ("calculate_conditional_initial_values is interpreted for every family and index with the optimiser uninterpreted: its objective is extracted as a term of the "
        "decision vector, its result is a leaf. Returned values as a function of that leaf define the parameters a decision stands for; the objective is compared with "
        "minus the documented log likelihood at these parameters.")


def leaf_attrs(t, m, out=None, seen_=None):
    """attributes of the optimiser result a term mentions"""
    out, seen_ = ({} if out is None else out), (set() if seen_ is None else seen_)
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.id in seen_:
            continue
        seen_.add(x.id)
        if x.op == "attr" and x.args[0] is m:
            out[x.args[1] if not isinstance(x.args[1], Term) else x.args[1].args[0]] = x
        if x.op == "getitem" and x.args[0] is m and isinstance(x.args[1], Term) and x.args[1].op == "const":
            out[x.args[1].args[0]] = x
        stack.extend(x.args)
    return out


def run(rep):
    n = 12 if rep.tier == "quick" else 40
    reps = 6 if rep.tier == "quick" else 30
    for name in names():
        k = rep_k(rep, name)
        for p in range(1, k):
            rep.guard("V1", f"{name} from parameter {p}", lambda p=p: one(rep, name, p, n, reps))


def rep_k(rep, name):
    out = []
    rep.guard("V1", name, lambda: out.append(Dist(name).k))
    return out[0] if out else 0


def one(rep, name, p, n, reps):
    D = Dist(name)
    con = f"{name} from parameter {p}"
    e = D.m("calculate_conditional_initial_values", param=const(p))
    seen(rep, e)
    if e.term is None:
        rep.ob("V1", con, REFUTED, e.where(), "no path returns a value")
        return
    ms = [v.data[0] for v in e.it.events if v.kind == "minimize"]
    if len(ms) != 1:
        if e.term is tm.NONE:
            rep.ob("V1", con, REFUTED, e.where(), "returns None")
            return
        raise Unknown(f"{len(ms)} optimisations")
    m = ms[0]
    _, obj, x, x0, bounds = m.args
    used = leaf_attrs(e.term, m)
    if "x" not in used:
        rep.ob("V1", con, REFUTED, e.where(), "the solution of the optimiser is not used")
        return
    r = rng(310 + p)
    q = D.k - p

    def points(i):
        y, th = D.ys(n, i), D.thetas(n, i)
        for mass in MIXED.get(name, ()):
            y[r.integers(0, n, 2)] = mass
        th[:, p:] = th[0, p:]  # earlier parameters differ by row, the others do not yet
        return y, th

    def env(y, th, d, ok):
        E = {Y: y, TH: th, x: d}
        for a, t in used.items():
            E[t] = {"x": d, "success": ok, "message": "reported", "fun": 1.0, "status": 0 if ok else 2}.get(a, 0)
        for a in ("x", "success", "message", "fun", "status"):
            E.setdefault(mk("attr", m, a), {"x": d, "success": ok, "message": "reported", "fun": 1.0, "status": 0 if ok else 2}[a])
        return E

    def returned(y, th, d, ok=True):
        return np.asarray(Eval(env(y, th, d, ok), e.loops)(e.term), float)

    ident_x = True
    bad = None
    for i in range(reps):
        y, th = points(i)
        ds = [D.thetas(1, 50 + 7 * i + j)[0, p:] for j in range(5)]
        got, want = [], []
        for d in ds:
            T = returned(y, th, d)
            rep.count("identity_points")
            if T.shape != th.shape or not np.array_equal(T[:, :p], th[:, :p]):
                rep.ob("V1", con, REFUTED, e.where(), f"earlier parameters changed: handed in {short(th[0])}, returned {short(T[0] if T.ndim == 2 else T)}")
                return
            if not (T[:, p:] == T[:1, p:]).all():
                rep.ob("V1", con, REFUTED, e.where(), "the solution differs between observations")
                return
            ident_x &= bool(np.allclose(T[0, p:], d, rtol=1e-12))
            got.append(float(np.asarray(Eval({Y: y, TH: th, x: d}, e.loops)(obj), float)))
            want.append(-float(D.refval(lambda t: t, y, T).sum()))
        got, want = np.array(got), np.array(want)
        dw, dg = want - want[0], got - got[0]
        c = dg @ dw / (dw @ dw)
        if not (np.isfinite(got).all() and c > 0 and np.allclose(dg, c * dw, rtol=1e-6, atol=1e-7 * np.abs(dw).max() * abs(c))):
            bad = bad or f"at theta={short(th[0])}, decisions {short(np.array(ds[:2]))}: objective changes by {short(dg[1:])}, minus log likelihood by {short(dw[1:])}"
        # failure reported
        F = returned(y, th, ds[0], False)
        if not np.array_equal(F, th):
            rep.ob("V4", con, REFUTED, e.where(), f"on failure returns {short(F[0])}, handed in {short(th[0])}")
            return
    rep.ob("V1", con, HOLDS, e.where(), f"{reps} x 5 points")
    if bad:
        rep.ob("V2", con, REFUTED, e.where(), bad)
    else:
        rep.ob("V2", con, HOLDS, e.where(), f"{reps} x 5 points")
    w = param_writes(e)
    rep.ob("V4", con, REFUTED if w else HOLDS, w[0].where() if w else e.where(), "modifies the array handed in" if w else "write set empty")
    if not ident_x:
        return  # searched on another scale: the range rule does not apply
    y, th = points(0)
    E = Eval({Y: y, TH: th}, e.loops)
    if x0 is not tm.NONE:
        s = np.ravel(np.asarray(E(x0), float))
        ok = s.shape == (q,) and all(D.psupport[p + j][0] <= s[j] <= D.psupport[p + j][1] for j in range(q))
        rep.ob("V3", con + ": start", HOLDS if ok else REFUTED, e.where(), f"starts at {short(s)}")
    if bounds is tm.NONE:
        lo, hi = np.full(q, -np.inf), np.full(q, np.inf)
    else:
        B = E(bounds)
        B = [B] if np.shape(B) == (2,) and q == 1 else list(B)
        lo, hi = np.array([float(b[0]) if b[0] is not None else -np.inf for b in B]), np.array([float(b[1]) if b[1] is not None else np.inf for b in B])
    ok = len(lo) == q
    for j in range(q if ok else 0):
        sl, sh = D.psupport[p + j]
        bl, bh = D.box(p + j)
        ok &= lo[j] >= sl and hi[j] <= sh and lo[j] <= bl and hi[j] >= bh
    rep.ob("V3", con + ": range", HOLDS if ok else REFUTED, e.where(), f"searches {short(lo)}..{short(hi)}, admissible {[D.psupport[p + j] for j in range(q)]}")
