"""Facts of the current tree: function summaries, registrations, class and module tables."""

from __future__ import annotations

import ast

from .absint import FrameInfo, Interp, Limit, Outcome, State
from .project import dotted
from .summary import (
    Summary, _is_overload, effects_of, module_value, signature, decorators, summarize,
)
from .values import BEYOND, show

LIMIT = 1500

# public one-liners that code may as well spell out
TRANSPARENT = {"effectful.internals.unification.freetypevars", "effectful.internals.runtime.get_interpretation"}


class Facts:
    def __init__(self, project, opaque, ref_names=None):
        """opaque: private helpers judged on their own; ref_names: names of the confirmed tree
        (functions outside it are new helpers and are always inlined)."""
        self.p = project
        self.opaque = set(opaque)
        self.ref_names = ref_names
        self.keys = self._keys()
        self.sums = {}

    def inline_pred(self, fi):
        if fi.outer is not None:
            return True
        if self.ref_names is not None and fi.qual not in self.ref_names:
            return True
        return is_private(fi) and fi.qual not in self.opaque or fi.qual in TRANSPARENT

    def _keys(self):
        out = {}
        for fi in self.p.allfuncs:
            if fi.outer is not None or _is_overload(fi):
                continue
            regs = []
            for d in fi.decorators:
                regs += reg_keys(self.p, fi, d)
            for k in regs or [fi.qual]:
                base, i = k, 2
                while k in out:
                    k = f"{base}#{i}"
                    i += 1
                out[k] = fi
        return out

    def summary(self, key):
        fi = self.keys[key]
        k = id(fi)
        if k not in self.sums:
            self.sums[k] = summarize(self.p, fi, key, dict(inline=self.inline_pred, limit=LIMIT))
        return self.sums[k]

    # ---- classes
    def class_facts(self):
        out = {}
        for q, c in self.p.classes.items():
            m = c.module
            bases = tuple(module_value(self.p, m, b) for b in c.node.bases)
            kws = tuple((k.arg, module_value(self.p, m, k.value)) for k in c.node.keywords)
            decos = tuple(module_value(self.p, m, d) for d in c.node.decorator_list)
            attrs = []
            fields = []
            for s in c.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    fields.append(s.target.id)
                    if s.value is not None:
                        attrs.append((s.target.id, self._val(m, s.value)))
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            attrs.append((t.id, self._val(m, s.value)))
            meths = tuple(sorted({f.name for f in c.all_methods}))
            out[q] = (bases, kws, decos, tuple(attrs), tuple(fields), meths)
        return out

    def _val(self, m, e):
        try:
            return module_value(self.p, m, e)
        except (Limit, RecursionError, *BEYOND):
            return ("unk", "limit")

    # ---- modules
    def module_facts(self):
        return {n: self.module_fact(m) for n, m in self.p.modules.items()}

    def module_fact(self, m):
        I = Interp(self.p, inline=lambda f: self.ref_names is not None and f.qual not in self.ref_names, limit=LIMIT)
        st = State()
        fid = I.new_id()
        I.fi[fid] = FrameInfo(None, m, None)
        st.frames[fid] = {}
        st.cur = fid
        I.exc_stack.append([])
        body = [s for s in _flat(m.tree.body)]
        try:
            res = I.block(body, st)
        except (Limit, RecursionError, *BEYOND) as e:
            return ("limit", (), ())
        res = [(s, g) for s, g in res if g is None][:1]
        if not res:
            return ("limit", (), ())
        s = res[0][0]
        o = Outcome("return", ("const", "NoneType", None), ("const", "NoneType", None), s, "")
        names = tuple(sorted((k, I.expand(I.freeze(v, s), s)) for k, v in s.frames[fid].items() if not k.startswith("__y")))
        return ("ok", names, effects_of(I, o))


def _flat(body):
    """Module-level statements that execute (definitions and imports are facts of their own)."""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            continue
        if isinstance(s, ast.If) and (dotted(s.test) or "").endswith("TYPE_CHECKING"):
            continue
        if isinstance(s, (ast.If, ast.Try)) and not any(
                isinstance(x, (ast.Assign, ast.AnnAssign, ast.Expr, ast.For)) for x in ast.walk(s)):
            continue
        if isinstance(s, ast.Try):
            # optional imports: the body is what runs when they are present
            yield from _flat(s.body)
            continue
        yield s


def is_private(fi):
    return fi.name.startswith("_") and not (fi.name.startswith("__") and fi.name.endswith("__"))


def reg_keys(p, fi, d):
    m = fi.module

    def reg_name(n):
        dn = dotted(n)
        if dn is None:
            return ast.unparse(n)
        if fi.cls is not None and dn.split(".")[0] in fi.cls.methods:
            return f"{fi.cls.qual}.{dn}"
        return p.resolve_dotted(m, dn) or dn

    if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register":
        ts = ", ".join(show(module_value(p, m, a), 6) for a in d.args)
        return [f"{reg_name(d.func.value)}.register({ts})"]
    if isinstance(d, ast.Attribute) and d.attr == "register":
        args = fi.node.args.args
        if fi.cls is not None and args and args[0].arg in ("self", "cls"):
            args = args[1:]
        ann = args[0].annotation if args else None
        ts = show(module_value(p, m, ann), 6) if ann is not None else "?"
        return [f"{reg_name(d.value)}.register({ts})"]
    if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
        return [f"{fi.qual}.{d.attr}"]
    return []


def all_names(p):
    out = set(p.modules) | set(p.funcs) | set(p.classes)
    for n, m in p.modules.items():
        out |= {f"{n}.{a}" for a in m.assigns}
    for q, c in p.classes.items():
        out |= {f"{q}.{a}" for a in c.attrs} | {f"{q}.{f.name}" for f in c.all_methods}
    return out


def call_sigs(p):
    """qualified name -> positional parameter names, for calls written with keywords."""
    out = {}
    for q, fi in p.funcs.items():
        if fi.outer is not None:
            continue
        a = fi.node.args
        out[q] = [x.arg for x in a.posonlyargs + a.args]
    for q, c in p.classes.items():
        init = p.find_method(q, "__init__")
        if init is not None and init.cls is not None and init.cls.qual in p.classes:
            a = init.node.args
            out[q] = [x.arg for x in (a.posonlyargs + a.args)[1:]]
        elif any("dataclass" in (dotted(d.func if isinstance(d, ast.Call) else d) or "") for d in c.node.decorator_list):
            out[q] = [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
    return out
