"""Source front end: parses /repo/src/ondil, resolves imports, classes and MROs.

Nothing of /repo is ever imported or executed.
"""
from __future__ import annotations

import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "ondil"


class AnchorError(Exception):
    """A construct the analysis is anchored on has vanished."""


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg
        self.defs = {}  # name -> ('func',node)|('class',node)|('import',mod,attr)|('module',mod)|('assign',node)|('opaque',)
        self._scan(tree.body, False)

    def _scan(self, body, conditional):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                self.defs[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    nm = a.asname or a.name.split(".")[0]
                    self.defs[nm] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._rel(s)
                for a in s.names:
                    self.defs[a.asname or a.name] = ("import", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if conditional:
                            self.defs[t.id] = ("opaque",)
                        else:
                            self.defs[t.id] = ("assign", s.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ("assign", ast.Subscript(value=s.value, slice=ast.Constant(i), ctx=ast.Load()))
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs[s.target.id] = ("assign", s.value)
            elif isinstance(s, ast.Try):
                self._scan(s.body, True)
                for h in s.handlers:
                    self._scan(h.body, True)
                self._scan(s.orelse, True)
            elif isinstance(s, ast.If):
                self._scan(s.body, True)
                self._scan(s.orelse, True)

    def _rel(self, s):
        if s.level == 0:
            return s.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: -(s.level - 1)]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)


class Func:
    """A function definition in the analysed source."""

    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = (cls.name + "." if cls else "") + self.name
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_static(self):
        return any(d == "staticmethod" for d in self.decorators)

    @property
    def is_class(self):
        return any(d == "classmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any(d in ("property", "cached_property", "functools.cached_property") for d in self.decorators)

    @property
    def is_abstract(self):
        return any(d.endswith("abstractmethod") for d in self.decorators)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def loc(self):
        return f"{os.path.relpath(self.module.path, REPO)}:{self.node.lineno}"

    def __repr__(self):
        return f"<Func {self.module.name}.{self.qual}>"


class Cls:
    def __init__(self, prog, module, node):
        self.prog = prog
        self.module = module
        self.node = node
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(module, s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value
        self._mro = None

    def bases(self):
        out = []
        for b in self.node.bases:
            r = self.prog.resolve_expr(self.module, b)
            if isinstance(r, Cls):
                out.append(r)
            else:
                out.append(("ext", ast.unparse(b)))
        return out

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def repo_mro(self):
        return [c for c in self.mro() if isinstance(c, Cls)]

    def lookup(self, name):
        for c in self.repo_mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return (c, c.attrs[name])
        return None

    def lookup_after(self, cls, name):
        m = self.repo_mro()
        i = m.index(cls)
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
            if name in c.attrs:
                return (c, c.attrs[name])
        return None

    def is_sub(self, other_name):
        for c in self.mro():
            if isinstance(c, Cls):
                if c.name == other_name:
                    return True
            elif c[1].split(".")[-1] == other_name:
                return True
        return False

    def __repr__(self):
        return f"<Cls {self.module.name}.{self.name}>"


def _c3(c):
    bases = c.bases()
    seqs = []
    for b in bases:
        if isinstance(b, Cls):
            seqs.append(list(b.mro()))
        else:
            seqs.append([b])
    seqs.append(list(bases))
    out = [c]
    while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            h = seqs[0][0]
        out.append(h)
        for s in seqs:
            while h in s:
                s.remove(h)
    return out


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, "src", PKG)
        if not os.path.isdir(self.root):
            raise AnchorError(f"package directory {self.root} not found")
        self.modules = {}
        self.classes = {}
        self._cls = {}
        self._func = {}
        for d, _, fs in sorted(os.walk(self.root)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.join(self.repo, "src"))[:-3].replace(os.sep, ".")
                    is_pkg = rel.endswith(".__init__")
                    if is_pkg:
                        rel = rel[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        src = fh.read()
                    import warnings as _w
                    with _w.catch_warnings():
                        _w.simplefilter("ignore")
                        tree = ast.parse(src, p)
                    self.modules[rel] = Module(rel, p, tree, is_pkg)
        for m in self.modules.values():
            for n, d in m.defs.items():
                if d[0] == "class":
                    self.get_class(m, d[1])

    def get_class(self, module, node):
        k = (module.name, node.name)
        if k not in self._cls:
            self._cls[k] = Cls(self, module, node)
            self.classes.setdefault(node.name, self._cls[k])
        return self._cls[k]

    def get_func(self, module, node):
        k = (module.name, node.name)
        if k not in self._func:
            self._func[k] = Func(module, node)
        return self._func[k]

    def resolve(self, module, name, depth=0):
        """Resolve a global name: Cls, Func, ('lib', dotted), ('assign', module, node), ('mod', Module), ('opaque', ..) or None"""
        if depth > 20:
            return None
        d = module.defs.get(name)
        if d is None:
            sub = self.modules.get(module.name + "." + name)
            if sub is not None:
                return ("mod", sub)
            return None
        if d[0] == "func":
            return self.get_func(module, d[1])
        if d[0] == "class":
            return self.get_class(module, d[1])
        if d[0] == "assign":
            return ("assign", module, d[1], name)
        if d[0] == "opaque":
            return ("opaque", module.name + "." + name)
        if d[0] == "module":
            if d[1] in self.modules:
                return ("mod", self.modules[d[1]])
            return ("lib", d[1])
        if d[0] == "import":
            base, attr = d[1], d[2]
            if base in self.modules:
                m = self.modules[base]
                r = self.resolve(m, attr, depth + 1)
                if r is not None:
                    return r
                return ("opaque", base + "." + attr)
            return ("lib", base + "." + attr)
        return None

    def resolve_expr(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if isinstance(b, tuple) and b[0] == "mod":
                return self.resolve(b[1], node.attr)
            if isinstance(b, tuple) and b[0] == "lib":
                return ("lib", b[1] + "." + node.attr)
        return None

    def find_class(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnchorError(f"class {name} not found in {self.root}")
        return c

    def find_function(self, modname, name):
        m = self.modules.get(PKG + ("." + modname if modname else ""))
        if m is None:
            raise AnchorError(f"module {PKG}.{modname} not found")
        r = self.resolve(m, name)
        if not isinstance(r, Func):
            raise AnchorError(f"function {modname}.{name} not found")
        return r

    def subclasses(self, base):
        return [c for c in self.classes.values() if c.name != base and c.is_sub(base)]
