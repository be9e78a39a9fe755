"""C28 No hidden shared state and no hidden randomness."""
import ast
import os

from ..model import *
from ..scen import where as swhere

RULES = {
    "Z1": "no function writes module globals, class attributes or mutable default arguments, and no memoisation survives a change of the object it was computed from",
    "Z2": "randomness is used only by the sampling functions and by coordinate selection 'random'; no other function depends on random numbers, clocks, object identities, hash order or the environment",
    "Z3": "sampling draws from numpy's global generator: no private, fixed or re-seeded generator",
    "Z4": "process-wide settings (random seed, floating point error handling, warning filters, environment) are not changed outside a context that restores them",
}
EXPL = ("Whole-program effect scan: every store and mutating call whose root is a module variable, a class or a default argument, and every call of a library function "
        "that is random, time dependent or changes process-wide settings, is located by import resolution; random sites are followed backwards through the "
        "name-based call graph to sampling functions or to a coordinate-selection guard that is decided by interpretation with selection='cyclic'.")
MUT = {"append", "extend", "insert", "update", "setdefault", "pop", "popitem", "clear", "add", "remove", "discard", "sort", "reverse", "fill", "put", "itemset", "resize", "setflags", "appendleft", "__setitem__"}
NONDET = ("random.", "numpy.random.", "time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.environ", "os.getenv", "scipy.stats.qmc")
NONDET_OK = ("time.strftime",)
SETTERS = {"numpy.seterr", "numpy.seterrcall", "numpy.setbufsize", "numpy.random.seed", "random.seed", "numpy.random.set_state", "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings",
           "os.putenv", "os.chdir", "sys.setrecursionlimit", "numpy.set_printoptions", "scipy.special.seterr", "sklearn.set_config", "locale.setlocale", "gc.disable"}
CTX = {"catch_warnings", "errstate", "printoptions", "config_context"}


def functions():
    """(module, class or None, FunctionDef) of the whole package, nested functions belong to their outermost one"""
    for m in prog().modules.values():
        for n in m.tree.body:
            stack = [(None, n)]
            while stack:
                c, x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, c, x
                elif isinstance(x, ast.ClassDef):
                    stack += [(x, y) for y in x.body]
                elif isinstance(x, (ast.If, ast.Try, ast.With)):
                    stack += [(c, y) for y in ast.iter_child_nodes(x) if isinstance(y, ast.stmt)]


def bound(fn):
    out, glob = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob, glob


def root(x):
    path = []
    while True:
        if isinstance(x, ast.Subscript):
            x = x.value
            path.append("[]")
        elif isinstance(x, ast.Attribute):
            path.append(x.attr)
            x = x.value
        else:
            return x, path[::-1]


def mutable(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or \
        isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("dict", "list", "set", "defaultdict", "OrderedDict", "Counter", "deque", "array", "zeros", "ones", "empty", "full", "bytearray", "WeakKeyDictionary", "WeakValueDictionary")


def stores(fn):
    """(node, target expression, kind) of all writes through references"""
    for n in ast.walk(fn):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
        for t in ts:
            for e in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                if isinstance(e, ast.Starred):
                    e = e.value
                if isinstance(e, (ast.Subscript, ast.Attribute)):
                    yield n, e, "store"
                elif isinstance(e, ast.Name) and isinstance(n, ast.AugAssign):
                    yield n, e, "aug"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            yield n, n.func.value, "mutate"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
            yield n, ast.Attribute(value=n.args[0], attr="*", ctx=ast.Store()), "store"


def lib_name(m, loc, f, env):
    """dotted library name of a called expression, following local imports"""
    r, path = root(f)
    if not isinstance(r, ast.Name) or "[]" in path:
        return None
    if r.id in env:
        return ".".join([env[r.id]] + path)
    if r.id in loc:
        return None
    d = prog().resolve(m, r.id)
    if isinstance(d, tuple) and d[0] == "lib":
        return ".".join([d[1]] + path)
    return None


def local_imports(fn):
    env = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Import):
            for a in n.names:
                env[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.level == 0:
            for a in n.names:
                env[a.asname or a.name] = f"{n.module}.{a.name}"
    return env


def loc_of(fn):
    return bound(fn)[0]


def fixed(v):
    """the given random state is neither None nor one handed in by the caller nor numpy's global one"""
    if isinstance(v, ast.Constant):
        return "" if v.value is None else f"fixed random_state={v.value}"
    names = {n.id for n in ast.walk(v) if isinstance(n, ast.Name)}
    attrs = {n.attr for n in ast.walk(v) if isinstance(n, ast.Attribute)}
    if names and not names & {"size", "theta"} and not attrs & {"default_rng", "RandomState", "Generator", "PCG64", "MT19937"}:
        return ""
    return f"random_state={ast.unparse(v)} replaces numpy's global generator"


def run(rep):
    fns = list(functions())
    rep.count("functions", len(fns))
    where = lambda m, c, fn, n: f"{os.path.relpath(m.path, prog().repo)}:{getattr(n, 'lineno', fn.lineno)} {(c.name + '.') if c is not None else ''}{fn.name}"
    name = lambda m, c, fn: f"{m.name}.{(c.name + '.') if c is not None else ''}{fn.name}"
    classes = prog().classes
    callers = {}
    for m, c, fn in fns:
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) or isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                callers.setdefault(n.attr if isinstance(n, ast.Attribute) else n.id, set()).add((m.name, c.name if c is not None else None, fn.name))
    index = {(m.name, c.name if c is not None else None, fn.name): (m, c, fn) for m, c, fn in fns}
    selfassigned = {}
    for m, c, fn in fns:
        if c is None or not fn.args.args:
            continue
        me = fn.args.args[0].arg
        for n in ast.walk(fn):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                selfassigned.setdefault(n.attr, set()).add((c.name, fn.name))
    random_sites = []
    for m, c, fn in fns:
        loc, glob = bound(fn)
        env = local_imports(fn)
        bad = []
        # local names that are other names for module variables
        alias = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Name, ast.Attribute)):
                r, p = root(n.value)
                if isinstance(r, ast.Name) and r.id not in loc:
                    alias[n.targets[0].id] = n.value
        args = fn.args
        pos = args.posonlyargs + args.args
        defaults = dict(zip([a.arg for a in pos[len(pos) - len(args.defaults):]], args.defaults))
        defaults.update({a.arg: d for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None})
        rebound = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        me = pos[0].arg if c is not None and pos else None
        deco = [ast.unparse(d) for d in fn.decorator_list]
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in glob:
                bad.append((n, f"writes the global {n.id}"))
        for n, t, kind in stores(fn):
            r, path = root(t)
            if isinstance(r, ast.Name) and r.id in alias and kind != "aug":
                r2, p2 = root(alias[r.id])
                r, path = r2, p2 + path
            if isinstance(r, ast.Name):
                if r.id in defaults and mutable(defaults[r.id]) and r.id not in rebound and (path or kind == "mutate"):
                    bad.append((n, f"modifies its mutable default argument {r.id}"))
                elif r.id == me and "classmethod" in deco and kind == "store":
                    bad.append((n, f"writes class attribute {'.'.join(path)}"))
                elif r.id == me and path[:1] == ["__class__"]:
                    bad.append((n, f"writes class attribute {'.'.join(path[1:])}"))
                elif r.id == me and path and path[0] not in selfassigned and c is not None and c.name in classes:
                    if (kind == "mutate" or len(path) > 1):
                        a = classes[c.name].lookup(path[0])
                        if isinstance(a, tuple):
                            bad.append((n, f"modifies the class attribute {path[0]} shared by all instances"))
                elif r.id not in loc and r.id not in env and kind != "aug":
                    d = prog().resolve(m, r.id)
                    if isinstance(d, tuple) and d[0] in ("assign", "opaque", "mod") or isinstance(d, (Cls, Func)):
                        bad.append((n, f"writes {'.'.join([r.id] + path)}, which is shared by all objects"))
            elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type" and kind == "store":
                bad.append((n, "writes an attribute of the class"))
            elif isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ("globals", "vars") and path[:1] == ["[]"] and not r.args:
                bad.append((n, "writes the module namespace"))
        # mutable default stored on the object and modified in place there
        for n in ast.walk(fn):
            if c is not None and isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in defaults and mutable(defaults[n.value.id]):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        for m2, c2, f2 in fns:
                            if c2 is not None and c2.name in classes and classes[c2.name].is_sub(c.name) and f2.args.args:
                                for k, t2, kind in stores(f2):
                                    r2, p2 = root(t2)
                                    if isinstance(r2, ast.Name) and r2.id == f2.args.args[0].arg and p2[:1] == [t.attr] and (len(p2) > 1 or kind == "mutate"):
                                        bad.append((n, f"keeps its mutable default {n.value.id} as {t.attr}, which {c2.name}.{f2.name} modifies in place"))
        # memoisation
        for d in deco:
            base = d.split("(")[0].split(".")[-1]
            if base in ("lru_cache", "cache", "cached_property") and c is not None and me is not None and "staticmethod" not in deco:
                reads = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}
                late = sorted(a for a in reads if any(f != "__init__" for _, f in selfassigned.get(a, ())))
                if late or any(isinstance(classes.get(c.name).lookup(a), Func) for a in reads if c.name in classes):
                    bad.append((fn, f"is memoised ({base}) but depends on {', '.join(late) or 'other methods'} of the object"))
        for n, what in bad[:3]:
            rep.ob("Z1", name(m, c, fn), REFUTED, where(m, c, fn, n), what)
        if not bad:
            rep.ob("Z1", name(m, c, fn), HOLDS, where(m, c, fn, fn), "no shared state written")
        # library calls
        inctx = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and ast.unparse(i.context_expr.func).split(".")[-1] in CTX for i in n.items):
                inctx |= {id(x) for b in n.body for x in ast.walk(b)}
        set4 = []
        for n in ast.walk(fn):
            if isinstance(n, ast.Call):
                ln = lib_name(m, loc, n.func, env)
                if ln in SETTERS and not (id(n) in inctx and not ln.endswith("seed")):
                    set4.append((n, f"calls {ln}"))
                elif ln and ln.startswith(NONDET) and not ln.startswith(NONDET_OK):
                    random_sites.append((m, c, fn, n, ln))
                elif isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and n.func.id not in loc:
                    random_sites.append((m, c, fn, n, n.func.id))
                elif isinstance(n.func, ast.Attribute) and n.func.attr == "rvs":
                    random_sites.append((m, c, fn, n, "rvs"))
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Set) or isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "set":
                    if not (isinstance(it, ast.Call) and it.args and "range" in ast.unparse(it.args[0])):
                        random_sites.append((m, c, fn, it, "set iteration"))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if lib_name(m, loc, n, env) == "os.environ":
                    random_sites.append((m, c, fn, n, "os.environ"))
        if set4:
            rep.ob("Z4", name(m, c, fn), REFUTED, where(m, c, fn, set4[0][0]), set4[0][1])
        else:
            rep.ob("Z4", name(m, c, fn), HOLDS, where(m, c, fn, fn), "no process-wide setting changed")
    # import time
    for m in prog().modules.values():
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and lib_name(m, set(), n.func, {}) in SETTERS:
                    rep.ob("Z4", m.name, REFUTED, f"{os.path.relpath(m.path, prog().repo)}:{n.lineno}", f"importing the module calls {lib_name(m, set(), n.func, {})}")
    # random sites
    rep.count("random call sites", len(random_sites))
    for m, c, fn, n, ln in random_sites:
        con, wh = f"{name(m, c, fn)}: {ln}", where(m, c, fn, n)

        def go(m=m, c=c, fn=fn, n=n, ln=ln, con=con, wh=wh):
            todo, seen, tops = [(m.name, c.name if c is not None else None, fn.name)], set(), []
            sampling = False
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                if k[2] in ("rvs", "sample"):
                    sampling = True
                    continue
                f = index[k]
                F = Func(f[0], f[2], None if f[1] is None else classes.get(f[1].name))
                if "selection" in F.params() and ln.startswith(("random.", "numpy.random.")):
                    e = ext(F, {"selection": const("cyclic")}, F.cls)
                    hit = [x for x in e.it.events if x.kind == "random"]
                    if not hit:
                        continue
                    tops.append(f"{k} also with selection='cyclic'")
                    continue
                up = callers.get(k[2], set()) - {k}
                if not up or not k[2].startswith("_"):
                    tops.append(".".join(str(x) for x in k if x))
                todo += list(up)
            rep.ob("Z2", con, REFUTED if tops else HOLDS, wh, f"reached from {', '.join(sorted(set(tops))[:3])}" if tops else "only for sampling" if sampling else "only for selection='random'")
            if sampling and not tops:
                why = ""
                if ln in ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.PCG64", "numpy.random.SeedSequence", "random.Random") or ln.startswith("random.") or ln.startswith("secrets."):
                    given = [ast.unparse(a) for a in n.args] + [ast.unparse(k.value) for k in n.keywords]
                    pars = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
                    if not any(g.split(".")[0] in pars - {"self", "size", "theta"} for g in given):
                        why = f"draws from its own generator {ln}({', '.join(given)})"
                for k in n.keywords:
                    if k.arg == "random_state":
                        why = why or fixed(k.value)
                if ln == "rvs" and len(n.args) > 1 and not (isinstance(n.func.value, ast.Attribute) and lib_name(m, loc_of(fn), n.func.value, local_imports(fn))):
                    why = why or fixed(n.args[-1])
                rep.ob("Z3", con, REFUTED if why else HOLDS, wh, why or "global generator")
        rep.guard("Z2", con, go, wh)
