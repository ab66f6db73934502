"""Canonical semantic summaries: what a function returns, raises and does, per path.

A summary is independent of local names, of helper extraction (helpers are inlined), of statement
layout and of how a loop is spelt; it records only provenance of results, conditions and effects.
"""

from __future__ import annotations

import ast

from .absint import Interp, Limit, PURE_CALLS, cond_literal
from .project import dotted
from .values import BEYOND, attr, coll, const, replace, show, walk

IGNORED_CALLEES = ("logging.", "warnings.", "builtins.vars", "inspect.currentframe")
PURE_EXTRA = {
    "builtins.len", "builtins.str", "builtins.repr", "builtins.id", "builtins.hash", "builtins.bool",
    "builtins.enumerate", "builtins.zip", "builtins.range", "builtins.reversed", "builtins.sorted",
    "builtins.min", "builtins.max", "builtins.sum", "builtins.abs", "builtins.int", "builtins.float",
    "builtins.object", "builtins.super", "builtins.frozenset", "builtins.tuple", "builtins.list",
    "builtins.dict", "builtins.set", "builtins.slice", "typing.get_origin", "typing.get_args",
    "inspect.signature", "builtins.round", "builtins.dir",
}
KEEP_EVENTS = ("setattr", "setitem", "delitem", "delattr", "aug", "yield", "setglobal", "enter")


PURE_METHODS = {
    "items", "keys", "values", "get", "copy", "startswith", "endswith", "strip", "join", "format",
    "lower", "upper", "isidentifier", "union", "intersection", "difference", "issubset", "count",
    "index", "rsplit", "split",
}


def is_ignored_call(fn):
    if fn[0] == "attr" and fn[2] in PURE_METHODS:
        return True
    if fn[0] == "glob":
        q = fn[1]
        if q in PURE_CALLS or q in PURE_EXTRA:
            return True
        return any(q.startswith(x) for x in IGNORED_CALLEES) or "logger" in q.split(".")[-2:][0].lower()
    if fn[0] == "attr":
        return fn[1][0] == "glob" and "logger" in fn[1][1].lower()
    return False


def _const_walk(v):
    return v


def effects_of(interp, o, expand=True):
    """Ordered effect descriptors of an outcome: (kind, data, contexts, loops, guards)."""
    ex = (lambda v: interp.expand(interp.freeze(v, o.state), o.state)) if expand else (lambda v: v)
    recs = []
    ctx = []
    pathg = set(o.guards)
    for e in o.events:
        if e.kind == "exit":
            if ctx and e.data[0] in ctx:
                del ctx[len(ctx) - 1 - ctx[::-1].index(e.data[0])]
            continue
        if e.kind == "call":
            fn = e.data[0]
            if is_ignored_call(fn):
                continue
            data = ("call",) + tuple(e.data)
        elif e.kind in KEEP_EVENTS:
            data = (e.kind,) + tuple(interp.freeze(x, o.state) if isinstance(x, tuple) else x for x in e.data)
        else:
            continue
        g = tuple(x for x in e.guards if x not in pathg)
        recs.append((e.kind, data, tuple(ctx), e.loops, g, e))
        if e.kind == "enter":
            ctx.append(e.data[0])
    # calls whose value is used elsewhere are accounted for where the value occurs
    used = set()
    srcs = [interp.freeze(o.raw, o.state)] + [g for g, _ in o.guards]
    for r in recs:
        if r[0] == "call":
            for x in r[1][1:]:
                srcs.append(x)
        else:
            srcs.append(("d",) + r[1][1:])
        srcs.extend(g for g, _ in r[4])
    mus = set()
    while srcs:
        v = srcs.pop()
        for x in walk(v if isinstance(v, tuple) else ("x",)):
            if x and x[0] == "call":
                used.add(x)
            elif x and x[0] == "mu" and x not in mus:
                mus.add(x)
                srcs.append(replace(x[3], ("carry", x[2]), x))
    out = []
    for kind, data, cx, loops, g, e in recs:
        if kind == "call" and data in used:
            continue
        out.append((kind, ex(data), tuple(ex(c) for c in cx), tuple(ex(l) for l in loops),
                    tuple((ex(a), b) for a, b in g)))
    return tuple(out)


_NONLOCALS = {}


FOREIGN = {"torch", "pyro", "jax", "numpyro"}


def scoped_of(interp, o, effs=()):
    """The calls made along the path of what the program cannot know beforehand or of its own functions,
    each with whether it is made within one of the program's own contexts; and what is read off a thing
    that is told to do something, with whether that is read afterwards."""
    out = {}
    told = {e[1][1][1] for e in effs if e[0] == "call" and e[1][1][0] == "attr" and e[1][1][1][0] != "param" and not e[3]}
    reads, tells = [], []
    depth = []
    for e in o.events:
        if e.kind == "enter":
            depth.append(e.data[0])
        elif e.kind == "exit":
            if e.data[0] in depth:
                del depth[len(depth) - 1 - depth[::-1].index(e.data[0])]
        elif e.kind == "read":
            b = e.data[0]
            if b[0] == "param" and b[1] in interp.foreign:
                out.setdefault(("attr",) + tuple(e.data), set()).add(_own_context(depth))
            if told:
                b = interp.expand(interp.freeze(b, o.state), o.state)
                if b in told:
                    reads.append((b, e.data[1], len(tells)))
        elif e.kind == "zip":
            if not e.loops:
                d = interp.expand(interp.freeze(("call", ("glob", "builtins.zip"), e.data[0], ()), o.state), o.state)
                out.setdefault(("strict", d), set()).add(e.data[1])
        elif e.kind == "call":
            f = e.data[0]
            if told and f[0] == "attr":
                d = interp.expand(interp.freeze(("call",) + tuple(e.data), o.state), o.state)
                if d[1][1] in told and any(x[1] == d for x in effs):
                    tells.append(d)
            if f[0] not in ("param", "elem", "item", "call", "bound") and not (f[0] == "glob" and f[1].startswith("effectful.")):
                continue
            if any(c[0] == "call" and c[1] == f for c in depth):
                continue
            d = interp.expand(interp.freeze(("call",) + tuple(e.data), o.state), o.state)
            out.setdefault(d, set()).add(_own_context(depth))
    changes_in_turn(interp, o, out)
    for b, name, k in reads:
        for i, d in enumerate(tells):
            if d[1][1] == b and d[1][2] != name:
                out.setdefault(("told", d, attr(b, name)), set()).add(k > i)
    return out


ANYWHERE = ("told", "after", "strict")  # facts that matter whether or not there is a context about
CHANGING = {"append", "appendleft", "extend", "extendleft", "insert", "add", "update", "setdefault", "pop", "popitem", "popleft", "remove", "discard", "clear"}
NO_LOOK = {"builtins.isinstance", "builtins.type", "builtins.id", "builtins.callable", "builtins.issubclass", "builtins.super",
           "builtins.setattr", "builtins.delattr", "builtins.hasattr", "typing.cast"}


def changes_in_turn(interp, o, out):
    """What is asked of (or told to) a thing that is also changed along the path: whether before or after the change."""
    changes, calls = [], []
    for i, e in enumerate(o.events):
        if e.kind in ("setattr", "setitem", "delitem", "delattr"):
            changes.append((i, e.kind, e.data[0], e.data[1], e.loops))
        elif e.kind == "call":
            f = e.data[0]
            if f[0] == "attr" and f[2] in CHANGING:
                if f[1][0] in ("attr", "glob"):
                    changes.append((i, "call", f[1], ("const", "str", f[2]), e.loops))
                continue
            if f[0] == "glob" and f[1] in NO_LOOK or f[0] == "attr" and f[2] == "__init__":
                continue
            calls.append((i, e.data, e.loops))
    if not changes or not calls or len(changes) * len(calls) > 2000:
        return
    ex = lambda v: interp.expand(interp.freeze(v, o.state), o.state)
    cs = []
    for i, d, loops in calls:
        v = ex(("call",) + tuple(d))
        if v[0] != "call":
            continue
        if v[1][0] == "attr":
            # a method of the object's own
            near = {v[1][1]} if v[1][1] == ("param", "self") else set()
        else:
            near = set(v[2]) | {x[1] for x in v[3] if len(x) == 2} if v[1][0] == "glob" else set()
            near |= {x[1] for x in near if x[0] == "item" and x[1][0] == "call"}
        if near:
            cs.append((i, v, near, loops))
    for i, kind, b, key, loops in changes:
        b, key = ex(b), ex(key) if isinstance(key, tuple) else ("const", "str", key)
        roots = {b}
        x = b
        while x[0] in ("attr", "item"):
            x = x[1]
            if x[0] in ("param", "call", "attr", "item"):
                roots.add(x)
        for j, v, near, lp in cs:
            if lp == loops and near & roots and (v[1][0] == "glob" or kind in ("call", "setitem", "delitem")):
                out.setdefault(("after", ("changed", ("const", "str", kind), b, key), v), set()).add(j > i)


def _own_context(depth):
    return any(c[0] == "call" and c[1][0] == "glob" and c[1][1].startswith("effectful.") for c in depth)


def foreign_params(project, fi):
    """The parameters declared to be of classes from elsewhere, whose attributes may be properties."""
    out = set()
    a = fi.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.annotation is not None and any(
            v[0] == "glob" and v[1].split(".")[0] in FOREIGN for v in walk(module_value(project, fi.module, x.annotation))
        ):
            out.add(x.arg)
    return frozenset(out)


def _assigned_from_within(interp):
    """The names some closure at hand declares nonlocal."""
    out = set()
    for c in interp.closures.values():
        node = c[0]
        if id(node) not in _NONLOCALS:
            _NONLOCALS[id(node)] = (node, frozenset(n for x in ast.walk(node) if isinstance(x, (ast.Nonlocal, ast.NamedExpr))
                                              for n in (x.names if isinstance(x, ast.Nonlocal) else [x.target.id])))
        out |= _NONLOCALS[id(node)][1]
    return out


def captured(interp, o, st):
    """What a closure does to what it captures: containers it changes, variables it assigns."""
    out = []
    for r, (kind, parts, _) in st.heap.items():
        h = o.state.heap.get(r)
        if h is None or h[1] == parts:
            continue
        old, new = interp.freeze(("ref", r), st), interp.freeze(("ref", r), o.state)
        if old != new:
            out.append((old, new))
    for fid, fr in st.frames.items():
        now = o.state.frames.get(fid)
        if now is None or now is fr:
            continue
        names = [n for n in fr if now.get(n, fr[n]) != fr[n]]
        if names:
            names = [n for n in names if n in _assigned_from_within(interp)]
        for name in names:
            v, w = fr[name], now[name]
            if w != v:
                out.append((interp.freeze(v, st), interp.freeze(w, o.state)))
    return tuple(("captured", ("captured",) + tuple(interp.expand(x, o.state) for x in p), (), (), ()) for p in out)


def lam_alts(interp, r, st):
    als = []
    for o in r.outcomes:
        val = o.value if o.kind == "return" else ("raises", o.value)
        if o.kind == "return" and isinstance(o.raw, tuple) and o.raw[:1] == ("ref",) and o.raw[1] in st.heap and val[0] == "coll" and not val[2]:
            val = ("same", val)  # one empty container, whatever the call
        g = tuple((interp.expand(interp.freeze(a, o.state), o.state), b) for a, b in o.guards)
        effs = effects_of(interp, o)
        a = (g, val, effs + captured(interp, o, st), excs_of(interp, o))
        own = any(e.kind == "enter" and _own_context([e.data[0]]) for e in o.events)
        for d, w in scoped_of(interp, o, effs).items():
            if own or d[0] in ANYWHERE:
                interp.within.setdefault(d, set()).update(w)
        if a not in als:
            als.append(a)
    return tuple(als)


def excs_of(interp, o):
    """The exception classes caught along the path."""
    out = []
    for e in o.events:
        if e.kind == "caught":
            out.append(tuple(e.data[0][1:]))
    return tuple(out)


class Summary:
    __slots__ = ("key", "loc", "sig", "decorators", "paths", "status", "inlined", "calls", "module", "cleanups", "catches", "scoped")

    def __init__(self, key, loc):
        self.key, self.loc = key, loc
        self.sig = ()
        self.decorators = ()
        self.paths = ()
        self.cleanups = ()
        self.catches = ()
        self.scoped = ()
        self.status = "ok"
        self.inlined = ()
        self.calls = 0
        self.module = ""


UNDOING = {"call", "setattr", "setitem", "delattr", "delitem", "aug", "setglobal"}


class _Exit:
    """What happened after an exception, seen as an outcome of its own."""

    def __init__(self, events, state):
        self.events, self.state = events, state
        self.raw = ("const", "NoneType", None)
        self.guards = state.guards


SKIP_DECOS = {"overload", "override", "no_type_check", "contextmanager_"}


def summarize(project, fi, key, interp_args):
    s = Summary(key, fi.loc)
    s.module = fi.module.name
    I = Interp(project, **interp_args)
    try:
        s.sig = signature(project, fi, I)
        s.decorators = decorators(project, fi)
        if _is_overload(fi):
            s.status = "overload"
            return s
        I.foreign = foreign_params(project, fi)
        r = I.run(fi)
        paths = []
        scoped = {}
        for o in r.outcomes:
            g = tuple((I.expand(I.freeze(a, o.state), o.state), b) for a, b in o.guards)
            p = (g, o.kind, o.value, effects_of(I, o), excs_of(I, o))
            for d, w in scoped_of(I, o, p[3]).items():
                scoped.setdefault(d, set()).update(w)
            if p not in paths:
                paths.append(p)
        s.paths = tuple(paths)
        if not any(e.kind == "enter" and _own_context([e.data[0]]) for o in r.outcomes for e in o.events):
            scoped = {d: w for d, w in scoped.items() if d[0] in ANYWHERE}
        for d, w in I.within.items():
            scoped.setdefault(d, set()).update(w)
        if scoped:
            s.scoped = tuple((d, tuple(sorted(w))) for d, w in scoped.items())
        done = {}
        for kind, events, state in I.cleanups:
            for e in effects_of(I, _Exit(events, state)):
                if e[0] in UNDOING:
                    done[(kind, e[1])] = None
        s.cleanups = tuple(done)
        s.catches = tuple(dict.fromkeys((t, f) for ts, f in I.catches for t in ts if t[0] == "glob" and f[0] in ("glob", "attr")))
    except Limit as e:
        s.status = f"limit: {e}"
    except RecursionError:
        s.status = "limit: recursion"
    except BEYOND as e:
        s.status = f"limit: {type(e).__name__}"
    s.inlined = tuple(sorted(I.inlined))
    s.calls = I.visited_calls
    return s


def _is_overload(fi):
    return any((dotted(d) or "").split(".")[-1] == "overload" for d in fi.decorators)


def module_value(project, m, expr):
    """Provenance value of a module-level expression."""
    from .absint import FrameInfo, State

    I = Interp(project, inline=lambda f: False)
    st = State()
    fid = I.new_id()
    I.fi[fid] = FrameInfo(None, m, None)
    st.frames[fid] = {}
    st.cur = fid
    I.exc_stack.append([])
    vals = I.ev(expr, st)
    s, v = vals[0]
    out = I.expand(I.freeze(v, s), s)
    return out if len(vals) == 1 else ("phi", tuple(I.expand(I.freeze(x, y), y) for y, x in vals))


def signature(project, fi, I):
    a = fi.node.args
    out = []
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    dmap = dict(zip([x.arg for x in pos[len(pos) - nd:]], a.defaults)) if nd else {}
    for i, x in enumerate(pos):
        d = dmap.get(x.arg)
        out.append(("pos" if i < len(a.posonlyargs) else "any", x.arg,
                    module_value(project, fi.module, d) if d is not None else None))
    if a.vararg:
        out.append(("star", a.vararg.arg, None))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append(("kw", x.arg, module_value(project, fi.module, d) if d is not None else None))
    if a.kwarg:
        out.append(("dstar", a.kwarg.arg, None))
    return tuple(out)


def decorators(project, fi):
    out = []
    for d in fi.decorators:
        n = (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
        if n in SKIP_DECOS:
            continue
        out.append(module_value(project, fi.module, d))
    return tuple(out)


def func_keys(project):
    """Stable keys of every non-nested function: registrations are keyed by what they register."""
    out = {}
    for fi in project.allfuncs:
        if fi.outer is not None or _is_overload(fi):
            continue
        regs = []
        for d in fi.decorators:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ("register",):
                regs.append(f"{dotted(d.func.value)}.register({', '.join(ast.unparse(a) for a in d.args)})")
            elif isinstance(d, ast.Attribute) and d.attr == "register":
                ann = fi.node.args.args[0].annotation if fi.node.args.args else None
                regs.append(f"{dotted(d.value)}.register(:{ast.unparse(ann) if ann is not None else '?'})")
            elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter"):
                regs.append(d.attr)
        base = fi.qual
        if regs:
            if fi.cls is None:
                base = fi.module.name
            base = f"{base}@{'+'.join(regs)}"
        k, i = base, 2
        while k in out:
            k = f"{base}#{i}"
            i += 1
        out[k] = fi
    return out


def render(p):
    g, kind, val, effs, excs = p
    gs = " and ".join(("" if b else "not ") + show(c, 8) for c, b in g) or "always"
    out = [f"  when {gs}" + (f" [caught {excs}]" if excs else "")]
    for k, data, cx, loops, eg in effs:
        c = f" within {', '.join(show(x) for x in cx)}" if cx else ""
        l = f" for each {', '.join(show(x) for x in loops)}" if loops else ""
        gg = " if " + " and ".join(("" if b else "not ") + show(a) for a, b in eg) if eg else ""
        d = show(data, 8) if k == "call" else f"{k} " + ", ".join(show(x, 8) for x in data[1:])
        out.append(f"     do {d}{c}{l}{gg}")
    out.append(f"     {kind} {show(val, 9)}")
    return "\n".join(out)
