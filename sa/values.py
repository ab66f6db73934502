"""Provenance values: immutable tuples describing where a value comes from."""

from __future__ import annotations

import os

# What is beyond the analysis leaves its obligation undecided; it never ends the run.
BEYOND = () if os.environ.get("SA_STRICT") else (Exception,)


def const(v):
    return ("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(v, *vals):
    if not (isinstance(v, tuple) and v and v[0] == "const"):
        return False
    if not vals:
        return True
    return any(type(x).__name__ == v[1] and x == v[2] for x in vals)


def glob(q):
    return ("glob", q)


def param(n):
    return ("param", n)


def attr(b, n):
    if b[0] == "glob":
        return ("glob", b[1] + "." + n)
    return ("attr", b, n)


def call(fn, args=(), kwargs=()):
    return ("call", fn, tuple(args), tuple(kwargs))


def op(name, *xs):
    return ("op", name) + xs


def coll(kind, parts):
    return ("coll", kind, tuple(parts))


def item_part(v):
    return ("item", v)


def star_part(v):
    return ("star", v)


def each_part(it, v, guards=()):
    return ("each", it, v, tuple(guards))


def pair(k, v):
    return ("pair", k, v)


def phi(vals):
    flat = []
    for v in vals:
        if v[0] == "phi":
            for x in v[1]:
                if x not in flat:
                    flat.append(x)
        elif v not in flat:
            flat.append(v)
    if len(flat) == 1:
        return flat[0]
    return ("phi", tuple(flat))


def _has_phi(v):
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] == "phi" and len(x) > 2 and (len(x[1]) > 3 or any(g is not None for g in x[2])):
            return True
        stack.extend(y for y in x if isinstance(y, tuple))
    return False


def phi_when(pairs):
    """A join of values, each with the conditions (a disjunction) under which it is the one."""
    pairs = [(v, None if g and any(_has_phi(t) for t in g) else g) for v, g in pairs]
    if any(v[0] == "phi" for v, _ in pairs):
        flat = []
        for v, g in pairs:
            g = g and (((),) if () in g else tuple(dict.fromkeys(g)))
            if v[0] != "phi":
                flat.append((v, g))
            elif len(v) > 2 and g == ((),):
                flat.extend(zip(v[1], v[2]))
            else:
                flat.extend((x, None) for x in v[1])
        pairs = flat
    out = {}
    for v, g in pairs:
        if v not in out:
            out[v] = g and tuple(dict.fromkeys(g))
        elif out[v] is None or g is None:
            out[v] = None
        else:
            out[v] = tuple(dict.fromkeys(out[v] + tuple(g)))
    if len(out) == 1:
        return next(iter(out))
    return ("phi", tuple(out), tuple(out.values()))


def alts(v):
    """The alternatives a value may be."""
    if v[0] == "phi":
        return list(v[1])
    return [v]


def is_call_to(v, *quals):
    return v[0] == "call" and v[1][0] == "glob" and v[1][1] in quals


def callee_name(v):
    """Last component of the callee of a call value."""
    if v[0] != "call":
        return None
    f = v[1]
    if f[0] == "glob":
        return f[1].rsplit(".", 1)[-1]
    if f[0] == "attr":
        return f[2]
    return None


def walk(v, seen=None):
    """Every sub-value of v (v included)."""
    stack = [v]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


def replace(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple):
        return v
    return tuple(replace(x, old, new) if isinstance(x, tuple) else x for x in v)


def contains(v, pred):
    return any(pred(x) for x in walk(v))


def mentions(v, target):
    return any(x == target for x in walk(v))


def escapes(v, target, through):
    """Does `target` occur in v anywhere not underneath a sub-value accepted by `through`?"""
    if v == target:
        return True
    if not isinstance(v, tuple):
        return False
    if v and isinstance(v[0], str) and through(v):
        return False
    return any(escapes(x, target, through) for x in v if isinstance(x, tuple))


def show(v, depth=6):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    if depth <= 0:
        return "…"
    t = v[0]
    s = lambda x: show(x, depth - 1)
    if not isinstance(t, str):
        return "<" + " ".join(s(x) if isinstance(x, tuple) else str(x) for x in v) + ">"
    try:
        return _show(v, t, s)
    except (IndexError, TypeError, AttributeError, ValueError):
        return "<" + " ".join(s(x) if isinstance(x, tuple) else str(x) for x in v[1:]) + ">"


def _show(v, t, s):
    if t == "const":
        return repr(v[2])
    if t == "param":
        return v[1]
    if t == "glob":
        return v[1].replace("builtins.", "")
    if t == "attr":
        return f"{s(v[1])}.{v[2]}"
    if t == "item":
        return f"{s(v[1])}[{s(v[2])}]"
    if t == "call":
        a = [("*" + s(x[1])) if x[0] == "star" else s(x) for x in v[2]]
        a += [("**" + s(x)) if k is None else f"{k}={s(x)}" for k, x in v[3]]
        return f"{s(v[1])}({', '.join(a)})"
    if t == "op":
        return "(" + v[1] + " " + " ".join(s(x) for x in v[2:]) + ")"
    if t == "coll":
        ps = []
        for p in v[2]:
            if p[0] == "item":
                ps.append(s(p[1]))
            elif p[0] == "star":
                ps.append("*" + s(p[1]))
            else:
                g = "".join((" if " if b else " if not ") + s(c) for c, b in p[3])
                ps.append(f"{s(p[2])} for each {s(p[1])}{g}")
        return f"{v[1]}[{', '.join(ps)}]"
    if t == "pair":
        return f"{s(v[1])}: {s(v[2])}"
    if t == "phi":
        return "{" + " | ".join(s(x) for x in v[1]) + "}"
    if t == "elem":
        return f"∈{s(v[1])}"
    if t == "val":
        return f"∈{s(v[1])}.values"
    if t == "idx":
        return f"#{s(v[1])}"
    if t == "lam":
        return "λ" + str(v[1][0]) + "{" + "; ".join(s(a[2]) for a in v[2]) + "}"
    return "<" + " ".join(s(x) if isinstance(x, tuple) else str(x) for x in v) + ">"


_CONST_MRO = {"bool": ("bool", "int", "object"), "int": ("int", "object"), "str": ("str", "object"), "float": ("float", "object"), "bytes": ("bytes", "object"), "NoneType": ("object",)}


# classes no display of the language makes an instance of
_NOT_BUILT = {"typing.TypeVar", "inspect.Parameter", "inspect.Signature", "inspect.BoundArguments", "types.GenericAlias", "types.UnionType",
              "typing.ParamSpec", "types.FunctionType", "types.ModuleType", "effectful.ops.types.Operation", "effectful.ops.types.Term"}


def const_truth(a):
    """The truth of a condition between constants, None when they do not settle it."""
    if a[0] == "const":
        return bool(a[2])
    if a[0] == "op" and len(a) == 4 and a[2][0] == "const" and a[3][0] == "const":
        if a[1] == "is" and ("NoneType" in (a[2][1], a[3][1]) or a[2][1] == a[3][1] == "bool"):
            return a[2] == a[3]
        if a[1] == "==" and a[2][1] == a[3][1] and a[2][1] in _CONST_MRO:
            return a[2] == a[3]
        if a[1] == "<" and a[2][1] == a[3][1] and a[2][1] in ("int", "str"):
            return a[2][2] < a[3][2]
    if a[0] == "op" and a[1] == "is" and len(a) == 4:
        # an object made for the comparison is nothing else
        new = ("call", ("glob", "builtins.object"), (), ())
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            if y == NONE and x[0] in ("elem", "item") and x[1][0] == "attr" and x[1][2] == "parameters":
                return False  # neither the names nor the parameters of a signature
            if x == new and not any(z == new or z[0] in ("free", "carry", "mu") for z in walk(y) if z):
                return False
    if a[0] == "call" and a[1] == ("glob", "builtins.isinstance") and len(a[2]) == 2 and not a[3] and a[2][0][0] == "const" \
            and a[2][1][0] == "glob" and a[2][0][1] in _CONST_MRO and a[2][1][1].startswith("builtins."):
        return a[2][1][1][9:] in _CONST_MRO[a[2][0][1]]
    if a[0] == "call" and a[1] == ("glob", "builtins.isinstance") and len(a[2]) == 2 and not a[3] and a[2][0][0] == "coll" \
            and a[2][1][0] == "glob":
        k, c = a[2][0][1], a[2][1][1]
        if k in ("tuple", "list", "set", "frozenset", "dict"):
            if c in ("builtins." + k, "builtins.object"):
                return True
            if c in _NOT_BUILT or c.startswith("builtins.") and c[9:] in ("tuple", "list", "set", "frozenset", "dict", "str", "bytes", "int", "float", "bool", "complex", "type"):
                return False
    return None
