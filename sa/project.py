"""Parse /repo's package and resolve names: modules, imports, classes, functions, decorators."""

from __future__ import annotations

import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot decide (a vanished anchor, an unparsable file)."""


def _registrations(tree):
    """Registrations written as statements are the decorators they stand for.
    Returns the dispatchers of those that cannot be told."""
    defs = {n.name: n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))}
    lists = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Tuple, ast.List)):
            lists[n.targets[0].id] = None if n.targets[0].id in lists else n.value

    def one(s, env):
        """-> [(definition, decorator)] or None"""
        e = s.value if isinstance(s, ast.Expr) else None
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            e = s.value
        if not isinstance(e, ast.Call) or e.keywords:
            return None
        if isinstance(e.func, ast.Call) and isinstance(e.func.func, ast.Attribute) and e.func.func.attr == "register" and len(e.args) == 1 and not e.func.keywords:
            reg, f, ts = e.func.func, e.args[0], e.func.args
        elif isinstance(e.func, ast.Attribute) and e.func.attr == "register" and len(e.args) == 2:
            reg, f, ts = e.func, e.args[1], e.args[:1]
        else:
            return None
        if dotted(reg) is None or not isinstance(f, ast.Name) or f.id not in defs or len(ts) != 1:
            return None
        if isinstance(s, ast.Assign) and s.targets[0].id != f.id:
            return None
        t = env.get(ts[0].id, ts[0]) if isinstance(ts[0], ast.Name) else ts[0]
        if any(isinstance(x, ast.Name) and x.id in env for x in ast.walk(t)) or dotted(t) is None:
            return None
        return [(defs[f.id], ast.copy_location(ast.Call(ast.copy_location(reg, s), [t], []), s))]

    def stmt(s, env):
        if not isinstance(s, ast.For):
            return one(s, env)
        it = lists.get(s.iter.id) if isinstance(s.iter, ast.Name) else s.iter
        if s.orelse or not isinstance(s.target, ast.Name) or not isinstance(it, (ast.Tuple, ast.List)):
            return None
        out = []
        for x in it.elts:
            for b in s.body:
                r = stmt(b, {**env, s.target.id: x})
                if r is None:
                    return None
                out += r
        return out

    keep, left = [], set()
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)):
            keep.append(s)
            continue
        has = [n for n in ast.walk(s) if isinstance(n, ast.Attribute) and n.attr == "register"]
        r = stmt(s, {}) if has else None
        if not r:
            keep.append(s)
            left |= {dotted(n.value) for n in has}
            continue
        for d, deco in reversed(r):
            d.decorator_list.insert(0, deco)
    tree.body[:] = keep
    return left


class FuncInfo:
    __slots__ = ("qual", "node", "module", "cls", "decorators", "outer")

    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.outer = outer
        self.decorators = node.decorator_list if hasattr(node, "decorator_list") else []

    @property
    def name(self):
        return self.node.name

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<func {self.qual}>"


class ClassInfo:
    __slots__ = ("qual", "node", "module", "bases", "methods", "attrs", "all_methods")

    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.bases = []
        self.methods = {}
        self.all_methods = []
        self.attrs = {}

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    def __init__(self, name, path, rel, is_pkg, data=None):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        if data is None:
            with open(path, "rb") as f:
                data = f.read()
        self.digest = hashlib.sha256(data).hexdigest()
        self.tree = ast.parse(data, path)
        self.imports = {}  # local name -> dotted
        self.star_imports = []
        self.funcs = {}  # last definition of a module-level name
        self.all_funcs = []  # every FuncInfo in the module, nested and methods included
        self.classes = {}
        self.assigns = {}  # name -> last assigned expr
        self.assign_nodes = []

    def absmod(self, node):
        if not node.level:
            return node.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, root=None, package="effectful", overrides=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}  # qual -> FuncInfo (last definition wins)
        self.classes = {}
        self.allfuncs = []
        base = os.path.join(self.root, package)
        if not os.path.isdir(base):
            raise AnalysisBroken(f"no package at {base}")
        for dp, dn, fn in sorted(os.walk(base)):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                try:
                    m = Module(".".join(parts), p, rel, is_pkg, (overrides or {}).get(rel))
                except SyntaxError as e:
                    raise AnalysisBroken(f"cannot parse {rel}: {e}")
                self.modules[m.name] = m
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b) for b in c.node.bases]

    # ---- indexing
    def _index(self, m):
        m.open_regs = _registrations(m.tree)

        def do_imports(stmts):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = a.name
                        else:
                            m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(s, ast.ImportFrom):
                    mod = m.absmod(s)
                    for a in s.names:
                        if a.name == "*":
                            m.star_imports.append(mod)
                        else:
                            m.imports[a.asname or a.name] = mod + "." + a.name
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ("body", "orelse", "finalbody"):
                        do_imports(getattr(s, fld, []))
                    for h in getattr(s, "handlers", []):
                        do_imports(h.body)

        do_imports(m.tree.body)

        def walk(stmts, prefix, cls, top, outer):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f"{prefix}.{s.name}"
                    fi = FuncInfo(q, s, m, cls if not outer else None, outer)
                    if cls is not None and outer is None:
                        fi.cls = cls
                        cls.all_methods.append(fi)
                        if not _is_overload(s):
                            cls.methods[s.name] = fi
                    m.all_funcs.append(fi)
                    self.allfuncs.append(fi)
                    if not _is_overload(s):
                        self.funcs[q] = fi
                        if top:
                            m.funcs[s.name] = fi
                    walk(s.body, q, None, False, fi)
                elif isinstance(s, ast.ClassDef):
                    q = f"{prefix}.{s.name}"
                    ci = ClassInfo(q, s, m)
                    self.classes[q] = ci
                    if top:
                        m.classes[s.name] = ci
                    walk(s.body, q, ci, False, None)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            if top:
                                m.assigns[t.id] = s.value
                                m.assign_nodes.append((t.id, s))
                            elif cls is not None and outer is None:
                                cls.attrs[t.id] = s.value
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if top and s.value is not None:
                        m.assigns[s.target.id] = s.value
                        m.assign_nodes.append((s.target.id, s))
                    elif cls is not None and outer is None:
                        cls.attrs[s.target.id] = s.value
                else:
                    for fld in ("body", "orelse", "finalbody"):
                        b = getattr(s, fld, None)
                        if isinstance(b, list):
                            walk(b, prefix, cls, top, outer)
                    for h in getattr(s, "handlers", []):
                        walk(h.body, prefix, cls, top, outer)

        walk(m.tree.body, m.name, None, True, None)

    # ---- resolution
    def resolve_name(self, m, name, _seen=None):
        """Qualified name a module-level name denotes (following re-exports), or None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return f"{m.name}.{name}"
        _seen.add((m.name, name))
        if name in m.funcs or name in m.classes:
            return f"{m.name}.{name}"
        if name in m.assigns:
            v = m.assigns[name]
            d = dotted(v)
            if d is not None and d.split(".")[0] != name:
                r = self.resolve_dotted(m, d, _seen)
                if r is not None:
                    return r
            return f"{m.name}.{name}"
        if name in m.imports:
            return self.canon(m.imports[name], _seen)
        for sm in m.star_imports:
            if sm in self.modules:
                m2 = self.modules[sm]
                if name in m2.funcs or name in m2.classes or name in m2.assigns or name in m2.imports:
                    return self.resolve_name(m2, name, _seen)
        return None

    def canon(self, q, _seen=None):
        """Follow re-exports inside the repo: pkg.mod.name -> defining module's qualified name."""
        if q in self.modules or q in self.funcs or q in self.classes:
            return q
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            if mod in self.modules:
                r = self.resolve_name(self.modules[mod], parts[i], _seen)
                if r is None:
                    return q
                rest = parts[i + 1 :]
                return ".".join([r] + rest)
        return q

    def resolve_dotted(self, m, d, _seen=None):
        parts = d.split(".")
        r = self.resolve_name(m, parts[0], _seen)
        if r is None:
            import builtins

            if hasattr(builtins, parts[0]):
                r = "builtins." + parts[0]
            else:
                return None
        for p in parts[1:]:
            r = self.canon(f"{r}.{p}")
        return r

    def resolve_expr(self, m, node):
        if isinstance(node, ast.Subscript):
            node = node.value
        if isinstance(node, ast.Call):
            node = node.func
        d = dotted(node)
        return self.resolve_dotted(m, d) if d else None

    # ---- classes
    def mro(self, qual, _seen=None):
        """Linear list of repo classes + external base names (approximate, depth first, later duplicates win)."""
        out = []
        c = self.classes.get(qual)
        if c is None:
            return [qual] if qual else []
        out.append(qual)
        for b in c.bases:
            if b and b != qual:
                for x in self.mro(b):
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def find_method(self, clsqual, name):
        for q in self.mro(clsqual):
            c = self.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def is_subclass(self, a, b):
        return b in self.mro(a)

    # ---- anchors
    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            c = self.canon(qual)
            f = self.funcs.get(c)
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def cls(self, qual):
        c = self.classes.get(qual) or self.classes.get(self.canon(qual))
        if c is None:
            raise AnalysisBroken(f"anchor class {qual} not found")
        return c

    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f"anchor module {name} not found")
        return self.modules[name]


def _is_overload(node):
    for d in node.decorator_list:
        n = dotted(d)
        if n and n.split(".")[-1] == "overload":
            return True
    return False
