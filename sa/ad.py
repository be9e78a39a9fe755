"""Symbolic differentiation of elementwise value-graph terms, and trusted closed
forms of the scipy log-densities (so that log-densities can be differentiated)."""
from __future__ import annotations

import ast

from . import terms as tm
from .evalt import Unknown
from .libmodel import SHAPES
from .terms import Term, add, const, div, is_const, ite, mk, mul, neg, power, sub

ZERO, ONE = const(0), const(1)

FORMS = {
    # log densities of (x; shapes, loc, scale)   z = (x - loc) / scale
    "norm": "-0.5*z**2 - 0.5*log(2*pi) - log(scale)",
    "t": "gammaln((df+1)/2) - gammaln(df/2) - 0.5*log(df*pi) - (df+1)/2*log(1+z**2/df) - log(scale)",
    "gamma": "(a-1)*log(z) - z - gammaln(a) - log(scale)",
    "beta": "(a-1)*log(z) + (b-1)*log(1-z) - gammaln(a) - gammaln(b) + gammaln(a+b) - log(scale)",
    "johnsonsu": "log(b) - 0.5*log(2*pi) - 0.5*log(1+z**2) - 0.5*(a+b*arcsinh(z))**2 - log(scale)",
    "lognorm": "-log(s) - log(z) - 0.5*log(2*pi) - 0.5*(log(z)/s)**2 - log(scale)",
    "logistic": "-z - 2*log(1+exp(-z)) - log(scale)",
    "expon": "-z - log(scale)",
    "gumbel_r": "-z - exp(-z) - log(scale)",
    "gumbel_l": "z - exp(z) - log(scale)",
    "invgauss": "-0.5*log(2*pi*z**3) - (z-mu)**2/(2*z*mu**2) - log(scale)",
    "invgamma": "-(a+1)*log(z) - gammaln(a) - 1/z - log(scale)",
    "laplace": "-abs(z) - log(2) - log(scale)",
    "weibull_min": "log(c) + (c-1)*log(z) - z**c - log(scale)",
}


def parse(src, names):
    """closed-form expression text -> Term over the given leaves"""
    def go(n):
        if isinstance(n, ast.BinOp):
            a, b = go(n.left), go(n.right)
            return {ast.Add: add, ast.Sub: sub, ast.Mult: mul, ast.Div: div, ast.Pow: power}[type(n.op)](a, b)
        if isinstance(n, ast.UnaryOp):
            return neg(go(n.operand))
        if isinstance(n, ast.Constant):
            return const(n.value)
        if isinstance(n, ast.Name):
            if n.id == "pi":
                return tm.sym("pi", "scalar")
            return names[n.id]
        if isinstance(n, ast.Call):
            if n.func.id == "polygamma":
                return mk("polygamma", *[go(x) for x in n.args])
            return mk(n.func.id, *[go(x) for x in n.args])
        raise ValueError(ast.dump(n))
    return go(ast.parse(src, mode="eval").body)


def dist_logpdf(t):
    """expand dist(name, 'logpdf', x, shapes, loc, scale)"""
    name = t.args[0]
    if name not in FORMS:
        raise Unknown(f"no closed form for {name}")
    x = t.args[2]
    ps = t.args[3:]
    sh = SHAPES[name]
    env = dict(zip(sh, ps))
    loc, scale = ps[len(sh)], ps[len(sh) + 1]
    env["scale"] = scale
    env["z"] = div(sub(x, loc), scale)
    return parse(FORMS[name], env)


def diff(t, var, memo=None):
    """d t / d var  for a leaf term `var` (elementwise semantics)"""
    if memo is None:
        memo = {}
    if t is var:
        return ONE
    r = memo.get(t.id)
    if r is None:
        r = _diff(t, var, memo)
        memo[t.id] = r
    return r


def _dep(t, var):
    return tm.contains(t, var)


def _diff(t, var, m):
    if not _dep(t, var):
        return ZERO
    op, a = t.op, t.args
    D = lambda x: diff(x, var, m)
    if op == "add":
        return add(D(a[0]), D(a[1]))
    if op == "sub":
        return sub(D(a[0]), D(a[1]))
    if op == "neg":
        return neg(D(a[0]))
    if op == "mul":
        return add(mul(D(a[0]), a[1]), mul(a[0], D(a[1])))
    if op == "div":
        return sub(div(D(a[0]), a[1]), div(mul(a[0], D(a[1])), power(a[1], const(2))))
    if op == "pow":
        if not _dep(a[1], var):
            return mul(mul(a[1], power(a[0], sub(a[1], ONE))), D(a[0]))
        return mul(t, add(mul(D(a[1]), mk("log", a[0])), div(mul(a[1], D(a[0])), a[0])))
    u = a[0] if a and isinstance(a[0], Term) else None
    one = {
        "log": lambda: div(ONE, u), "exp": lambda: t, "sqrt": lambda: div(const(0.5), t),
        "sinh": lambda: mk("cosh", u), "cosh": lambda: mk("sinh", u), "tanh": lambda: sub(ONE, power(t, const(2))),
        "arcsinh": lambda: div(ONE, mk("sqrt", add(ONE, power(u, const(2))))),
        "arctan": lambda: div(ONE, add(ONE, power(u, const(2)))),
        "sin": lambda: mk("cos", u), "cos": lambda: neg(mk("sin", u)),
        "gammaln": lambda: mk("digamma", u), "digamma": lambda: mk("polygamma", ONE, u),
        "gamma": lambda: mul(t, mk("digamma", u)),
        "expit": lambda: mul(t, sub(ONE, t)), "logit": lambda: div(ONE, mul(u, sub(ONE, u))),
        "abs": lambda: mk("sign", u), "sign": lambda: ZERO,
        "ndtr": lambda: div(mk("exp", neg(div(power(u, const(2)), const(2)))), const(2.5066282746310002)),
    }
    if op in one and len(a) == 1:
        return mul(one[op](), D(u))
    if op == "polygamma":
        return mul(mk("polygamma", add(a[0], ONE), a[1]), D(a[1]))
    if op == "betaln":
        s = mk("digamma", add(a[0], a[1]))
        return add(mul(sub(mk("digamma", a[0]), s), D(a[0])), mul(sub(mk("digamma", a[1]), s), D(a[1])))
    if op == "ite":
        return ite(a[0], D(a[1]), D(a[2]))
    if op == "max2":
        return ite(mk("lt", a[0], a[1]), D(a[1]), D(a[0]))
    if op == "min2":
        return ite(mk("lt", a[1], a[0]), D(a[1]), D(a[0]))
    if op == "setitem":
        return mk("setitem", D(a[0]), a[1], D(a[2]))
    if op == "getitem":
        d = D(a[0])
        if d is ZERO:
            return ZERO
        return mk("getitem", d, a[1])
    if op in ("validy", "validX", "forcedscalar", "squeeze", "expand_dims", "ravel", "T"):
        return mk(op, D(a[0]), *a[1:])
    if op == "dist" and a[1] == "logpdf":
        return D(dist_logpdf(t))
    if op == "dist" and a[1] == "pdf":
        return mul(t, D(dist_logpdf(mk("dist", a[0], "logpdf", *a[2:]))))
    raise Unknown(f"derivative of {op}")
