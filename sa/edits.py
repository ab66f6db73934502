"""Edits of one source text, made in memory, for finding out whether the analysis is alive.

`breaking` drops, swaps, negates or replaces one construct; most of these change what the code
does (some do not, which is why nothing depends on all of them being reported).  `neutral`
rewrites one construct into another that does the same.
"""

from __future__ import annotations

import ast
import copy

OPS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
       ast.GtE: ast.Gt, ast.BitOr: ast.BitAnd}
SWAP = {"args": "kwargs", "kwargs": "args", "values": "keys", "keys": "values"}


def _load(n):
    return ast.Name(n, ast.Load())


def _inside(node, spans):
    ln = getattr(node, "lineno", None)
    return ln is not None and any(a <= ln <= b for a, b in spans)


def _skipped(tree):
    """Annotations, docstrings, messages of exceptions, assertions: not behaviour a property is about."""
    skip = set()

    def drop(n):
        skip.update(id(x) for x in ast.walk(n))

    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                drop(getattr(n, f))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Assert):
            drop(n)
        if isinstance(n, ast.Raise):
            skip.update(id(x) for x in ast.walk(n) if x is not n and x is not n.exc)
        for t in getattr(n, "type_params", ()):
            drop(t)
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
            drop(n)
    return skip


def breaking(src, spans):
    """Yield (kind, line, edited source) for every single edit inside the line spans."""
    tree = ast.parse(src)
    skip = _skipped(tree)
    sites = []

    def rec(node):
        for field, val in ast.iter_fields(node):
            for i, c in enumerate(val) if isinstance(val, list) else [(None, val)]:
                if isinstance(c, ast.AST):
                    sites.append((c, node, field, i))
                    rec(c)

    rec(tree)
    for node, par, field, i in sites:
        if id(node) in skip or not _inside(node, spans):
            continue

        def put(new):
            if i is None:
                setattr(par, field, new)
            else:
                getattr(par, field)[i] = new

        def splice(new, old=1):
            getattr(par, field)[i:i + old] = new

        def emit(kind):
            return kind, node.lineno, ast.unparse(ast.fix_missing_locations(tree))

        if isinstance(node, ast.Call):
            for j in range(len(node.keywords)):
                k = node.keywords.pop(j)
                yield emit("keyword dropped")
                node.keywords.insert(j, k)
            if len(node.args) == 2 and not (isinstance(node.func, ast.Name) and node.func.id in ("isinstance", "issubclass", "hasattr", "getattr")):
                node.args.reverse()
                yield emit("arguments swapped")
                node.args.reverse()
            if len(node.args) == 1 and not node.keywords and not isinstance(node.args[0], ast.Starred) and isinstance(par, (ast.Call, ast.Assign, ast.Return)):
                put(node.args[0])
                yield emit("call left out")
                put(node)
        if isinstance(node, ast.Compare) and type(node.ops[0]) in OPS:
            o = node.ops[0]
            node.ops[0] = OPS[type(o)]()
            yield emit("comparison changed")
            node.ops[0] = o
        if isinstance(node, ast.BinOp) and type(node.op) in OPS:
            o = node.op
            node.op = OPS[type(o)]()
            yield emit("operator changed")
            node.op = o
            node.left, node.right = node.right, node.left
            yield emit("operands swapped")
            node.left, node.right = node.right, node.left
        if isinstance(node, ast.BoolOp):
            for j in range(len(node.values)):
                v = node.values.pop(j)
                yield emit("condition dropped")
                node.values.insert(j, v)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node.operand)
            yield emit("negation dropped")
            put(node)
        if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(par, (ast.JoinedStr, ast.FormattedValue)):
            v = node.value
            node.value = not v if isinstance(v, bool) else v + 1
            yield emit("constant changed")
            node.value = v
        if isinstance(node, ast.If):
            t = node.test
            node.test = ast.UnaryOp(ast.Not(), t)
            yield emit("branch condition negated")
            node.test = t
            if i is not None and not node.orelse:
                put(ast.Pass())
                yield emit("branch dropped")
                put(node)
        if isinstance(node, ast.IfExp):
            for x in (node.body, node.orelse):
                put(x)
                yield emit("conditional expression fixed")
            put(node)
        if isinstance(node, (ast.Expr, ast.AugAssign)) and i is not None and not isinstance(par, (ast.ClassDef, ast.Module)):
            put(ast.Pass())
            yield emit("statement dropped")
            put(node)
        if isinstance(node, ast.With) and i is not None:
            splice(node.body)
            yield emit("context manager dropped")
            splice([node], len(node.body))
        if isinstance(node, ast.Try) and i is not None:
            splice(node.body + ([] if node.handlers else node.finalbody))
            yield emit("try dropped")
            splice([node], len(node.body + ([] if node.handlers else node.finalbody)))
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in node.generators:
                v = g.ifs
                if v:
                    g.ifs = []
                    yield emit("filter dropped")
                    g.ifs = v
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.decorator_list:
            d = node.decorator_list.pop(0)
            yield emit("decorator dropped")
            node.decorator_list.insert(0, d)
        if isinstance(node, ast.Starred) and isinstance(par, ast.Call):
            getattr(par, field).pop(i)
            yield emit("star argument dropped")
            getattr(par, field).insert(i, node)
        if isinstance(node, ast.Attribute) and node.attr in SWAP and isinstance(node.ctx, ast.Load):
            v = node.attr
            node.attr = SWAP[v]
            yield emit("attribute swapped")
            node.attr = v


# --------------------------------------------------------------------- neutral
def _blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def _has(e, *ts):
    return any(isinstance(x, ts) for x in ast.walk(e))


def _simple(e):
    return isinstance(e, (ast.Name, ast.Constant, ast.Attribute))


def _names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def _inverted(fn, new, extra):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not _has(n.test, ast.NamedExpr):
            def go(n=n):
                n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            yield "branches exchanged", go


def _named_result(fn, new, extra):
    for b in _blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Return) and s.value is not None and not _simple(s.value):
                def go(b=b, i=i, s=s):
                    b[i:i + 1] = [ast.Assign([ast.Name(new, ast.Store())], s.value), ast.Return(_load(new))]
                yield "result named", go


def _hoisted(fn, new, extra):
    for b in _blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call):
                c = s.value
                if not _simple(c.func) or any(isinstance(a, ast.Starred) for a in c.args):
                    continue
                for j, a in enumerate(c.args):
                    if not _simple(a) and not _has(a, ast.Yield, ast.Await, ast.NamedExpr) and all(_simple(x) for x in c.args[:j]):
                        def go(b=b, i=i, c=c, j=j):
                            x, c.args[j] = c.args[j], _load(new)
                            b.insert(i, ast.Assign([ast.Name(new, ast.Store())], x))
                        yield "argument named", go


def _guard_clause(fn, new, extra):
    for b in _blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                if not s.orelse and i + 1 < len(b):
                    def go(b=b, i=i, s=s):
                        s.orelse = b[i + 1:]
                        del b[i + 1:]
                    yield "else made explicit", go
                elif s.orelse:
                    def go(b=b, i=i, s=s):
                        r, s.orelse = s.orelse, []
                        b[i + 1:i + 1] = r
                    yield "else flattened", go


def _nested(fn, new, extra):
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            def go(n=n):
                v = n.test.values
                n.body = [ast.If(v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:]), n.body, [])]
                n.test = v[0]
            yield "conjunction nested", go


def _de_morgan(fn, new, extra):
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, ast.BoolOp) and not _has(n.test, ast.NamedExpr):
            def go(n=n):
                o = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
            yield "De Morgan", go


def _looped(fn, new, extra):
    for b in _blocks(fn):
        for i, s in enumerate(b):
            if not isinstance(s, (ast.Return, ast.Assign)) or not isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
                continue
            e = s.value
            if _has(e, ast.NamedExpr, ast.Lambda):
                continue

            def go(b=b, i=i, s=s, e=e):
                if isinstance(e, ast.DictComp):
                    init, inner = ast.Dict([], []), ast.Assign([ast.Subscript(_load(new), e.key, ast.Store())], e.value)
                else:
                    one = isinstance(e, ast.SetComp)
                    init = ast.Call(_load("set"), [], []) if one else ast.List([], ast.Load())
                    inner = ast.Expr(ast.Call(ast.Attribute(_load(new), "add" if one else "append", ast.Load()), [e.elt], []))
                for g in reversed(e.generators):
                    for c in reversed(g.ifs):
                        inner = ast.If(c, [inner], [])
                    inner = ast.For(g.target, g.iter, [inner], [])
                s.value = _load(new)
                b[i:i] = [ast.Assign([ast.Name(new, ast.Store())], init), inner]
            yield "comprehension as loop", go


def _extracted(fn, new, extra):
    if _has(fn, ast.Nonlocal, ast.Global):
        return
    from .absint import _local_names

    loc = _local_names(fn)
    inner = {id(y) for x in ast.walk(fn) if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)) for y in ast.walk(x)}
    for b in _blocks(fn):
        for s in b:
            if id(s) in inner or not isinstance(s, (ast.Return, ast.Assign, ast.Expr)) or not isinstance(s.value, (ast.Call, ast.BinOp, ast.ListComp, ast.DictComp, ast.Compare)):
                continue
            if _has(s.value, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Starred, ast.Lambda) or "super" in _names(s.value):
                continue

            def go(s=s):
                used = sorted(n for n in _names(s.value) if n in loc)
                extra.append(ast.FunctionDef(new, ast.arguments([], [ast.arg(n) for n in used], None, [], [], None, []), [ast.Return(s.value)], [], None, []))
                s.value = ast.Call(_load(new), [_load(n) for n in used], [])
            yield "helper extracted", go


def _reordered(fn, new, extra):
    for b in _blocks(fn):
        for i in range(len(b) - 1):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and not _has(x.value, ast.Yield, ast.NamedExpr) for x in (s, t)):
                a, c = s.targets[0].id, t.targets[0].id
                if a != c and a not in _names(t.value) and c not in _names(s.value):
                    def go(b=b, i=i):
                        b[i], b[i + 1] = b[i + 1], b[i]
                    yield "assignments reordered", go


def _idle(fn, new, extra):
    def go():
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, ast.Assign([ast.Name(new, ast.Store())], ast.Constant(None)))
    yield "idle statement", go


NEUTRAL = (_inverted, _named_result, _hoisted, _guard_clause, _nested, _de_morgan, _looped, _extracted, _reordered, _idle)


def _functions(tree):
    out = []

    def walk(body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(s)
            elif isinstance(s, (ast.ClassDef, ast.If, ast.Try)):
                walk(s.body)

    walk(tree.body)
    return out


def neutral(src, spans):
    """Yield (kind, line, edited source)."""
    tree = ast.parse(src)
    for fi, fn in enumerate(_functions(tree)):
        if not any(fn.lineno <= b and a <= fn.end_lineno for a, b in spans):
            continue
        if any((d.id if isinstance(d, ast.Name) else getattr(d, "attr", "")) == "overload" for d in fn.decorator_list):
            continue
        for make in NEUTRAL:
            for k in range(sum(1 for _ in make(fn, "_x", []))):
                t2 = copy.deepcopy(tree)
                f2 = _functions(t2)[fi]
                extra = []
                kind, go = list(make(f2, "_analysis_tmp", extra))[k]
                go()
                t2.body.extend(extra)
                yield kind, fn.lineno, ast.unparse(ast.fix_missing_locations(t2))
