"""Numeric literals of the analysed source: the places where a formula can change its form.

Identity tests of closed forms are only as good as the points they are denoted at.  Besides a fixed wide domain, every check
adds points on both sides of each numeric constant written in the code it analyses, so that a gate on a constant has both outcomes.
"""
import ast

from .model import prog


def _fold(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        return float(n.value)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand)
        return None if v is None else -v
    if isinstance(n, ast.BinOp):
        a, b = _fold(n.left), _fold(n.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(n.op, ast.Pow):
                return float(a ** b)
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Add):
                return a + b
            if isinstance(n.op, ast.Sub):
                return a - b
        except (ArithmeticError, TypeError, ValueError):
            return None
    return None


_cache = {}


def literals(mods):
    """sorted distinct |constants| of the named modules (name prefixes relative to the package; '' = all)"""
    key = tuple(mods)
    if key not in _cache:
        out = set()
        for m in prog().modules.values():
            rel = m.name.split(".", 1)[1] if "." in m.name else ""
            if not any(rel == k or rel.startswith(k + ".") or k == "" for k in mods):
                continue
            for n in ast.walk(m.tree):
                v = _fold(n)
                if isinstance(v, float) and v == v and abs(v) != float("inf"):
                    out.add(abs(v))
        _cache[key] = sorted(out)
    return _cache[key]


def ints(mods, lo, hi):
    return sorted({int(v) for v in literals(mods) if v == int(v) and lo <= v <= hi})


def sizes(mods, lo=4, hi=2000, cap=6):
    """sizes just beside each integer constant (largest constants last)"""
    c = ints(mods, lo, hi)
    c = c[:cap] + [x for x in c[cap:]][-2:]
    return sorted({x + d for x in c for d in (0, 1)})


def fracs(mods):
    """values in (0,1) around every constant or its complement"""
    out = set()
    for v in literals(mods):
        if 0 < v < 1:
            for u in (v, 1 - v):
                for s in (u * 0.9, 1 - (1 - u) * 0.9, u * 1.1, 1 - (1 - u) * 1.1):
                    if 1e-9 < s < 1 - 1e-6:
                        out.add(round(s, 12))
    return sorted(out)


def mags(mods, lo=1e-12, hi=1e9):
    out = set()
    for v in literals(mods):
        if lo <= v <= hi:
            out.update((v * 0.9, v * 1.1))
    return sorted(out)
