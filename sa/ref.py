"""Prescribed semantics of the estimators, over the same readings of the
uninterpreted interface operations as `lab`.  Written from the documentation of the
algorithm (iteratively reweighted scoring with discounted Gramians); it never looks
at the source."""
from __future__ import annotations

import numpy as np

from .lab import dist, meth


def disc(n, f):
    return (1 - f) ** np.arange(n - 1, -1, -1.0)


def eff_len(f, n):
    return n if f == 0 else (1 - (1 - f) ** n) / f


def mean_update(avg, values, f, n_seen):
    for i, v in enumerate(values):
        n = n_seen - len(values) + 1 + i
        if f > 0:
            avg = avg + f * max((1 / f) / eff_len(f, n), 1.0) * (v - avg)
        else:
            avg = avg + (v - avg) / n
    return avg


def ic_value(ic, n, p, ll):
    p = np.asarray(p, float)
    return {"aic": lambda: -2 * ll + 2 * p, "aicc": lambda: -2 * ll + 2 * p * n / (n - p - 1), "bic": lambda: -2 * ll + p * np.log(n),
            "hqc": lambda: -2 * ll + 2 * p * np.log(np.log(n)), "max": lambda: -ll}[ic]()


def ic_rss(ic, n, p, rss):
    return ic_value(ic, n, p, -n / 2 * np.log(rss / n) - n / 2 * (1 + np.log(2 * np.pi)))


class Scaler:
    def __init__(self, sel, forget):
        self.sel, self.f = sel, forget

    def fit(self, X, w):
        J = X.shape[1]
        self.on = not (isinstance(self.sel, (bool, np.bool_)) and not self.sel)
        self.cols = np.arange(J)[self.sel] if isinstance(self.sel, np.ndarray) else np.arange(J)
        self.X, self.w = X.copy(), w.copy()
        self.stat()

    def update(self, X, w):
        self.X, self.w = np.vstack([self.X, X]), np.concatenate([self.w, w])
        self.stat()

    def stat(self):
        e = self.w * disc(len(self.w), self.f)
        A = self.X[:, self.cols]
        self.m = (e[:, None] * A).sum(0) / e.sum()
        self.s = np.sqrt((e[:, None] * (A - self.m) ** 2).sum(0) / e.sum())

    def transform(self, X):
        X = X.copy()
        if self.on:
            X[:, self.cols] = (X[:, self.cols] - self.m) / self.s
        return X


class Linear:
    def __init__(self, method, forget=0.0, scale_inputs=True, fit_intercept=True, regularize_intercept=False, ic="bic"):
        self.__dict__.update(locals())

    def design(self, X):
        X = self.sc.transform(X)
        return np.hstack([np.ones((len(X), 1)), X]) if self.fit_intercept else X

    def m(self, name, **k):
        return meth("EstimationMethod." + name, self.method, k)

    def select(self, p):
        n = np.sum(~np.isclose(p, 0), axis=1)
        return p[np.argmin(ic_rss(self.ic, self.n_training_, n, self.rss))]

    def fit(self, X, y, sample_weight=None):
        w = np.ones(len(y)) if sample_weight is None else sample_weight
        self.sc = Scaler(self.scale_inputs, self.forget)
        self.sc.fit(X, w)
        D = self.design(X)
        self.n_observations_ = w.sum()
        self.n_training_ = eff_len(self.forget, self.n_observations_)
        self.reg = np.ones(D.shape[1], bool)
        if self.fit_intercept:
            self.reg[0] = self.regularize_intercept
        self.G = self.m("init_x_gram", X=D, weights=w, forget=self.forget)
        self.g = self.m("init_y_gram", X=D, y=y, weights=w, forget=self.forget)
        if self.method._path_based_method:
            self.coef_path_ = self.m("fit_beta_path", x_gram=self.G, y_gram=self.g, is_regularized=self.reg)
            e = w * disc(len(y), self.forget)
            self.rss = (e[:, None] * (y[:, None] - D @ self.coef_path_.T) ** 2).sum(0)
            self.coef_ = self.select(self.coef_path_)
        else:
            self.coef_ = self.m("fit_beta", x_gram=self.G, y_gram=self.g, is_regularized=self.reg)
        return self

    def update(self, X, y, sample_weight=None):
        w = np.ones(len(y)) if sample_weight is None else sample_weight
        self.n_observations_ += w.sum()
        self.n_training_ = eff_len(self.forget, self.n_observations_)
        self.sc.update(X, w)
        D = self.design(X)
        self.G = self.m("update_x_gram", gram=self.G, X=D, weights=w, forget=self.forget)
        self.g = self.m("update_y_gram", gram=self.g, X=D, y=y, weights=w, forget=self.forget)
        if self.method._path_based_method:
            self.coef_path_ = self.m("update_beta_path", x_gram=self.G, y_gram=self.g, beta_path=self.coef_path_, is_regularized=self.reg)
            e = w * disc(len(y), self.forget)
            self.rss = (1 - self.forget) ** len(y) * self.rss + (e[:, None] * (y[:, None] - D @ self.coef_path_.T) ** 2).sum(0)
            self.coef_ = self.select(self.coef_path_)
        else:
            self.coef_ = self.m("update_beta", x_gram=self.G, y_gram=self.g, beta=self.coef_, is_regularized=self.reg)
        return self

    def predict(self, X):
        return self.design(X) @ self.coef_

    def predict_path(self, X):
        return self.design(X) @ self.coef_path_.T

    def score(self, X, y):
        return 1 - ((y - self.predict(X)) ** 2).sum() / ((y - y.mean()) ** 2).sum()


class Gamlss:
    DEF = dict(equation=None, forget=0.0, method=None, scale_inputs=True, fit_intercept=True, regularize_intercept=False, ic="aic",
               model_selection="local_rss", prefit_initial=0, prefit_update=0, cautious_updates=False, step_size=1.0, param_order=None,
               cond_start_val=False, max_it_outer=30, max_it_inner=30, abs_tol_outer=1e-3, abs_tol_inner=1e-3, rel_tol_outer=1e-5,
               rel_tol_inner=1e-5, min_it_outer=1, _halv=5, _carry=1.0, _persist=False)
    PER = {"forget": 0.0, "method": None, "fit_intercept": True, "regularize_intercept": False, "ic": "aic", "step_size": 1.0}

    def __init__(self, P=2, support=(-np.inf, np.inf), columns=(), **kw):
        self.P, self.support, self.columns = P, support, list(columns)
        c = dict(self.DEF)
        c.update({k: v for k, v in kw.items() if k not in ("debug", "verbose", "distribution")})
        for k, d in self.PER.items():
            v = c[k]
            c[k] = {p: v.get(p, d) for p in range(P)} if isinstance(v, dict) else {p: v for p in range(P)}
        eq = c["equation"]
        c["equation"] = {p: "all" if p == 0 else "intercept" for p in range(P)} if eq is None else {p: eq.get(p, "intercept") for p in range(P)}
        self.c = c
        self.order = list(range(P)) if c["param_order"] is None else [int(x) for x in c["param_order"]]
        self.trace = {}
        self.log = []  # (kind, call, absolute change, relative change) wherever a tolerance is consulted

    def d(self, name, **k):
        return dist("Distribution." + name, k, self.P)

    def m(self, p, name, **k):
        return meth("EstimationMethod." + name, self.c["method"][p], k)

    def design(self, X, p):
        eq = self.c["equation"][p]
        if isinstance(eq, str) and eq == "intercept":
            return np.ones((len(X), 1))
        if isinstance(eq, list):
            eq = [self.columns.index(c) if isinstance(c, str) else c for c in eq]
        out = X if isinstance(eq, str) else X[:, eq]
        return np.hstack([np.ones((len(X), 1)), out]) if self.c["fit_intercept"][p] else out

    def dev(self, y, th, w):
        return float(np.sum(-2 * self.d("logpdf", y=y, theta=th) * w))

    def working(self, y, fv, p, key, dv):
        eta = self.d("link_function", y=fv[:, p], param=p)
        dr = 1 / self.d("link_inverse_derivative", y=eta, param=p)
        u = self.d("dl1_dp1", y=y, theta=fv, param=p)
        u2 = self.d("dl2_dp2", y=y, theta=fv, param=p)
        wt = np.clip(-u2 / dr**2, 1e-10, 1e10)
        wv = eta + u / (dr * wt)
        self.trace[key] = dict(weights=wt, working_vectors=wv, dl1dlp1=u, dl2dlp2=u2, eta=eta, fv=fv.copy(), dv=dv)
        return eta, wt, wv

    def others(self, p):
        return sum(np.count_nonzero(np.abs(self.coef_[q]) > self.c.get("_others_tol", 0.0)) for q in range(self.P) if q != p)

    def lls(self, X, y, w, path, p):
        f = disc(len(y), self.c["forget"][p])
        out = []
        for b in path:
            th = self.fv.copy()
            th[:, p] = self.d("link_inverse", y=X @ b, param=p)
            out.append(np.sum(w * f * self.d("logpdf", y=y, theta=th)))
        return np.array(out)

    def fit(self, X, y, sample_weight=None):
        c, P = self.c, self.P
        w = np.ones(len(y)) if sample_weight is None else sample_weight
        self.fv = self.d("initial_values", y=y, param=0, axis=None)
        self.sc = Scaler(c["scale_inputs"], c["forget"][0])
        self.sc.fit(X, w)
        Xs = self.sc.transform(X)
        D = {p: self.design(Xs, p) for p in range(P)}
        self.trace, self.debug_X = {}, (Xs, D)
        self.n_observations_ = w.sum()
        self.n_training_ = {p: eff_len(c["forget"][p], self.n_observations_) for p in range(P)}
        self.reg = {}
        for p in range(P):
            r = np.ones(D[p].shape[1], bool)
            only = isinstance(c["equation"][p], str) and c["equation"][p] == "intercept"
            if c["fit_intercept"][p] and not (c["regularize_intercept"][p] or only):
                r[0] = False
            self.reg[p] = r
        self.coef_ = {p: np.zeros(D[p].shape[1]) for p in range(P)}
        self.coef_path_ = {p: None for p in range(P)}
        self.G, self.g, self.msd = {}, {}, {}
        sched = [c["max_it_inner"]] * c["max_it_outer"]
        mn = c["min_it_outer"]
        if c["prefit_initial"] > 0:
            for i in range(min(c["prefit_initial"], len(sched))):
                sched[i] = 1
            mn = c["prefit_initial"]
        g = self.dev(y, self.fv, w)
        old, it = g + 1000, 0
        while it < c["max_it_outer"]:
            if it >= mn:
                self.log.append(("outer", "fit", abs(old - g), abs(old - g) / abs(old)))
            if it >= mn and (abs(old - g) / abs(old) < c["rel_tol_outer"] or abs(old - g) < c["abs_tol_outer"] or g > old):
                break
            old, it = g, it + 1
            for p in self.order:
                g = self.inner_fit(D, y, w, it, p, sched[it - 1])
        self.gdev, self.it_outer = g, it
        return self

    def inner_fit(self, D, y, w, it, p, n_in):
        c = self.c
        X, f, M = D[p], c["forget"][p], c["method"][p]
        dv0 = self.dev(y, self.fv, w)
        dvs = [dv0] * (c["max_it_inner"] + 1)
        fv, new = self.fv.copy(), self.fv.copy()
        step = [c["step_size"][p]] * max(c["max_it_inner"], 1)
        dec, stop = 0, False
        path = None
        for i in range(n_in):
            s = step[i]
            if i == 0 and it == 1 and p >= 1 and c["cond_start_val"]:
                fv = self.d("calculate_conditional_initial_values", y=y, theta=fv, param=p)
            eta, wt, wv = self.working(y, fv, p, (p, it, i), dvs[i])
            G = self.m(p, "init_x_gram", X=X, weights=w * wt, forget=f)
            g = self.m(p, "init_y_gram", X=X, y=wv, weights=w * wt, forget=f)
            e = w * wt * disc(len(y), f)
            if M._path_based_method:
                if i == 0 and it == 1:
                    path = self.m(p, "fit_beta_path", x_gram=G, y_gram=g, is_regularized=self.reg[p])
                else:
                    path = self.m(p, "update_beta_path", x_gram=G, y_gram=g, is_regularized=self.reg[p], beta_path=path if i > 0 else self.coef_path_[p])
                k = np.count_nonzero(path, axis=1) + self.others(p)
                if c["model_selection"] == "local_rss":
                    msd = (e[:, None] * (wv[:, None] - X @ path.T) ** 2).sum(0)
                    ic = ic_rss(c["ic"][p], self.n_training_[p], k, msd)
                else:
                    msd = self.lls(X, y, w, path, p)
                    ic = ic_value(c["ic"][p], self.n_training_[p], k, msd)
                b = path[np.argmin(ic)]
            else:
                b = self.m(p, "fit_beta", x_gram=G, y_gram=g, is_regularized=self.reg[p])
            self.trace[p, it, i].update(coef=b, coef_path=path)
            pred = s * (X @ b) + (1 - s) * eta
            new[:, p] = self.d("link_inverse", y=pred, param=p)
            dv, dvo = self.dev(y, new, w), dvs[i]
            up, bad = dv > dvo, dv > dvs[0]
            if up and i < n_in - 1:
                dec += 1
                self.log.append(("halved", "fit", dec, 0))
                step[i + 1 : len(step) if c["_persist"] else i + 2] = [s / 2] * (len(step) - i - 1 if c["_persist"] else 1)
                stop = stop or dec > c["_halv"]
            if (it == 1 and i >= 1) or it >= 2:
                self.log.append(("inner", "fit", abs(dvo - dv), abs(dvo - dv) / abs(dvo)))
                stop = stop or abs(dvo - dv) <= c["abs_tol_inner"] or abs(dvo - dv) / abs(dvo) < c["rel_tol_inner"] or i == c["max_it_inner"] - 1
            if stop:
                break
            if not up:
                fv[:, p] = new[:, p]
                for j in range(i + 1, len(dvs)):
                    dvs[j] = dv
        if not bad or it == 1:
            self.G[p], self.g[p], self.coef_[p], self.coef_path_[p] = G, g, b, path
            self.fv[:, p] = new[:, p]
            if M._path_based_method:
                self.msd[p] = msd
        return dv

    def update(self, X, y, sample_weight=None):
        c, P = self.c, self.P
        w = np.ones(len(y)) if sample_weight is None else sample_weight
        self.n_observations_ += w.sum()
        self.n_training_ = {p: eff_len(c["forget"][p], self.n_observations_) for p in range(P)}
        self.fv = self.theta(X)
        self.sc.update(X, w)
        Xs = self.sc.transform(X)
        D = {p: self.design(Xs, p) for p in range(P)}
        self.trace, self.debug_X = {}, (Xs, D)
        sched = [c["max_it_inner"]] * c["max_it_outer"]
        mn = c["min_it_outer"]
        if c["prefit_update"] > 0:
            for i in range(min(c["prefit_update"], len(sched))):
                sched[i] = 1
            mn = c["prefit_update"]
        self.careful = False
        if c["cautious_updates"]:
            lo, hi = self.d("quantile", q=0.005, theta=self.fv), self.d("quantile", q=0.995, theta=self.fv)
            if np.any(y < lo) or np.any(y > hi):
                for i in range(min(4, len(sched))):
                    sched[i] = 1
                mn, self.careful = 4, True
            else:
                mn = c["min_it_outer"]
        self.G0, self.g0, self.msd0 = dict(self.G), dict(self.g), dict(self.msd)
        g = (1 - c["forget"][0]) ** len(y) * self.gdev + self.dev(y, self.fv, w)
        old, it = g + 1000, 0
        while it < c["max_it_outer"]:
            if it >= mn:
                self.log.append(("outer", "update", abs(old - g), abs(old - g) / abs(old)))
            if it >= mn and (abs(old - g) / abs(old) < c["rel_tol_outer"] or abs(old - g) < c["abs_tol_outer"]):
                break
            old, it = g, it + 1
            for p in self.order:
                g = self.inner_update(D, y, w, it, p, sched[it - 1])
        self.gdev, self.it_outer = g, it
        return self

    def inner_update(self, D, y, w, it, p, n_in):
        c = self.c
        X, f, M = D[p], c["forget"][p], c["method"][p]
        step = [0.25 if self.careful and it <= 4 else c["step_size"][p]] * max(c["max_it_inner"], 1)
        past = (1 - c["forget"][0]) ** len(y) * self.gdev
        dvs = [self.dev(y, self.fv, w) + past] * (c["max_it_inner"] + 1)
        fv, new = self.fv.copy(), self.fv.copy()
        dec, stop = 0, False
        for i in range(n_in):
            eta, wt, wv = self.working(y, fv, p, (p, it, i), dvs[i])
            G = self.m(p, "update_x_gram", gram=self.G0[p], X=X, weights=w * wt, forget=f)
            g = self.m(p, "update_y_gram", gram=self.g0[p], X=X, y=wv, weights=w * wt, forget=f)
            e = w * wt * disc(len(y), f)
            msd, path = None, None
            if M._path_based_method:
                path = self.m(p, "update_beta_path", x_gram=G, y_gram=g, beta_path=self.coef_path_[p], is_regularized=self.reg[p])
                k = np.count_nonzero(path, axis=1) + self.others(p)
                if c["model_selection"] == "local_rss":
                    msd = (e[:, None] * (wv[:, None] - X @ path.T) ** 2).sum(0) + c["_carry"] * (1 - f) ** len(y) * self.msd0[p]
                    ic = ic_rss(c["ic"][p], self.n_training_[p], k, msd)
                else:
                    msd = self.lls(X, y, w, path, p) + (1 - f) ** len(y) * self.msd0[p]
                    ic = ic_value(c["ic"][p], self.n_training_[p], k, msd)
                b = path[np.argmin(ic)]
            else:
                b = self.m(p, "update_beta", x_gram=G, y_gram=g, beta=self.coef_[p], is_regularized=self.reg[p])
            self.trace[p, it, i].update(coef=b, coef_path=path)
            pred = step[i] * (X @ b) + (1 - step[i]) * eta
            new[:, p] = self.d("link_inverse", y=pred, param=p)
            dv, dvo = self.dev(y, new, w) + past, dvs[i]
            up = dv > dvo
            if up:
                dec += 1
                self.log.append(("halved", "update", dec, 0))
                if i + 1 < len(step):
                    step[i + 1 : len(step) if c["_persist"] else i + 2] = [step[i] / 2] * (len(step) - i - 1 if c["_persist"] else 1)
                stop = stop or dec > c["_halv"]
            if not up or i < c["max_it_inner"] - 1:
                self.log.append(("inner", "update", abs(dvo - dv), abs(dvo - dv) / abs(dvo)))
                stop = stop or abs(dvo - dv) <= c["abs_tol_inner"] or abs(dvo - dv) / abs(dvo) < c["rel_tol_inner"] or i == c["max_it_inner"] - 1
            if stop:
                break
            if not up:
                fv[:, p] = new[:, p]
                for j in range(i + 1, len(dvs)):
                    dvs[j] = dv
        self.G[p], self.g[p], self.coef_[p], self.coef_path_[p], self.msd[p] = G, g, b, path, msd
        self.fv[:, p] = new[:, p]
        return dv

    def eta(self, X):
        Xs = self.sc.transform(X)
        return np.stack([self.design(Xs, p) @ self.coef_[p] for p in range(self.P)], 1)

    def theta(self, X):
        e = self.eta(X)
        return np.stack([self.d("link_inverse", y=e[:, p], param=p) for p in range(self.P)], 1)
