"""Trace-partitioned abstract interpretation of Python functions over provenance values.

Nothing of the analysed program is executed: an abstract state maps variables to *provenance
values* (see values.py), branches partition the state by guard literals, loops and comprehensions
are joined into one abstract iteration, local helpers are inlined up to a bound, and calls that are
not inlined become opaque `call` values plus events.  No solver is involved.
"""

from __future__ import annotations

import ast
import builtins
import time

from .project import FuncInfo, dotted
from .values import (
    FALSE, NONE, TRUE, alts, attr, call, coll, const, const_truth, contains, each_part, glob, is_const,
    item_part, op, pair, param, phi, phi_when, star_part, walk,
)

ENTERS_ITSELF = {"io.BytesIO", "io.StringIO", "builtins.open", "contextlib.ExitStack", "concurrent.futures.ThreadPoolExecutor"}
CONTAINER_METHODS = {"append", "extend", "insert", "update", "clear", "pop", "popitem", "move_to_end", "setdefault", "items", "keys", "values", "get", "copy", "add", "remove", "discard"}

BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&",
    ast.BitOr: "|", ast.BitXor: "^",
}
OPERATOR = {
    "add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "pow": "**",
    "matmul": "@", "lshift": "<<", "rshift": ">>", "and_": "&", "or_": "|", "xor": "^",
    "neg": "neg", "pos": "pos", "invert": "invert", "inv": "invert", "not_": "not",
    "eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=",
    "is_": "is", "is_not": "is not",
}
OPERATOR.update({f"__{k.rstrip('_')}__": v for k, v in [*OPERATOR.items()]})
PURE_CALLS = {
    "builtins.isinstance", "builtins.issubclass", "builtins.len", "builtins.hasattr",
    "builtins.callable", "builtins.type", "builtins.getattr", "builtins.any", "builtins.all",
}
EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "TypeError": "Exception", "ValueError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "AssertionError": "Exception", "SyntaxError": "Exception", "OSError": "Exception",
    "StopIteration": "Exception", "ImportError": "Exception", "NameError": "Exception",
    "UnicodeDecodeError": "ValueError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "Exception": "BaseException",
    "KeyboardInterrupt": "BaseException", "GeneratorExit": "BaseException",
    "SystemExit": "BaseException",
}


class Limit(Exception):
    """Too many paths: the obligation stays undecided."""


class Event:
    __slots__ = ("kind", "data", "loc", "guards", "loops", "fn")

    def __init__(self, kind, data, loc, guards, loops, fn):
        self.kind, self.data, self.loc, self.guards, self.loops, self.fn = (
            kind, data, loc, guards, loops, fn)

    def __repr__(self):
        from .values import show

        return f"{self.kind}({', '.join(show(d) if isinstance(d, tuple) and d else str(d) for d in self.data)})@{self.loc}"

    @property
    def callval(self):
        return ("call",) + tuple(self.data)


class State:
    __slots__ = ("frames", "cur", "heap", "attrs", "guards", "events", "loops", "stack")

    def __init__(self):
        self.frames = {}
        self.cur = None
        self.heap = {}
        self.attrs = {}
        self.guards = ()
        self.events = ()
        self.loops = ()
        self.stack = ()

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cur = self.cur
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.guards, s.events, s.loops, s.stack = self.guards, self.events, self.loops, self.stack
        return s


class FrameInfo:
    __slots__ = ("parent", "module", "func", "nonlocals", "globals", "cls", "cont", "depth",
                 "localnames")

    def __init__(self, parent, module, func, cls=None, depth=0):
        self.parent, self.module, self.func, self.cls = parent, module, func, cls
        self.nonlocals, self.globals = set(), set()
        self.cont = None
        self.depth = depth
        self.localnames = None


class Outcome:
    __slots__ = ("kind", "value", "raw", "state", "guards", "events", "loc", "excval", "why")

    def __init__(self, kind, value, raw, state, loc, why=""):
        self.kind, self.value, self.raw, self.state, self.loc = kind, value, raw, state, loc
        self.guards, self.events = state.guards, state.events
        self.why = why

    def __repr__(self):
        from .values import show

        g = ", ".join(("" if b else "not ") + show(c) for c, b in self.guards)
        return f"[{g}] -> {self.kind} {show(self.value)}"


def _handlers(n):
    """The except clauses, those that ask first which exception it is told apart."""
    r = getattr(n, "_sa_handlers", None)
    if r is None:
        r = n._sa_handlers = [x for h in n.handlers for x in _asked(h)]
    return r


def _asked(h):
    """except T as e: if isinstance(e, X): A; B   is   except X as e: A; B'   except T as e: B"""
    b = h.body[0]
    if h.name and isinstance(b, ast.If):
        t, pos = b.test, True
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, pos = t.operand, not pos
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 and not t.keywords \
                and isinstance(t.args[0], ast.Name) and t.args[0].id == h.name:
            yes, no = (b.body, b.orelse) if pos else (b.orelse, b.body)
            types = t.args[1]
            if isinstance(types, ast.BinOp) and isinstance(types.op, ast.BitOr):
                alts, todo = [], [types]
                while todo:
                    x = todo.pop()
                    if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                        todo += [x.right, x.left]
                    else:
                        alts.append(x)
                types = ast.copy_location(ast.Tuple(elts=alts, ctx=ast.Load()), types)
            mk = lambda ty, body: ast.copy_location(ast.ExceptHandler(type=ty, name=h.name, body=body or [ast.copy_location(ast.Pass(), b)]), h)
            return [mk(types, yes + h.body[1:]), *_asked(mk(h.type, no + h.body[1:]))]
    return [h]


class Result:
    def __init__(self, interp, fi, params, outcomes):
        self.interp, self.fi, self.params, self.outcomes = interp, fi, params, outcomes

    @property
    def returns(self):
        return [o for o in self.outcomes if o.kind == "return"]

    @property
    def raises(self):
        return [o for o in self.outcomes if o.kind == "raise"]


def cond_literal(v):
    """Normalise a condition to (literal, polarity)."""
    pol = True
    while v[0] == "op" and v[1] == "not":
        v, pol = v[2], not pol
    if v[0] == "op" and v[1] in ("!=", "is not", "not in"):
        v, pol = ("op", {"!=": "==", "is not": "is", "not in": "in"}[v[1]]) + v[2:], not pol
    if v[0] == "op" and v[1] == "==" and len(v) == 4 and (v[2][0] == "glob" or v[3][0] == "glob" or v[3] == NONE):
        v = ("op", "is") + v[2:]
    if v[0] == "op" and v[1] == "is" and v[3] == NONE and v[2][0] == "call" and v[2][1][0] == "attr" and v[2][1][2] == "get" \
            and not v[2][3] and (len(v[2][2]) == 1 or len(v[2][2]) == 2 and v[2][2][1] == NONE) and v[2][2][0][0] != "star":
        # a missing key (mappings holding None are not told apart)
        return ("op", "in", v[2][2][0], v[2][1][1]), not pol
    if v[0] == "op" and v[1] == "is" and v[3] == NONE and _object_or_none(v[2]):
        return v[2], not pol
    if v[0] == "op" and v[1] == ">":
        v = ("op", "<", v[3], v[2])
    if v[0] == "op" and v[1] == ">=":
        v = ("op", "<=", v[3], v[2])
    if v[0] == "op" and v[1] == "<=" and not (setlike(v[2]) or setlike(v[3])):
        v, pol = ("op", "<", v[3], v[2]), not pol
    if v[0] == "op" and v[1] == "<" and v[3] == const(1) and v[2][0] == "call" and v[2][1] == ("glob", "builtins.len"):
        return v[2][2][0], not pol
    if v[0] == "call" and v[1] == ("glob", "builtins.bool") and len(v[2]) == 1:
        l, p = cond_literal(v[2][0])
        return l, p if pol else not p
    if v[0] == "call" and v[1] == ("glob", "builtins.len") and len(v[2]) == 1:
        return v[2][0], pol
    if v[0] == "op" and v[1] == "==" and v[3] == const(0) and v[2][0] == "call" and v[2][1] == ("glob", "builtins.len"):
        return v[2][2][0], not pol
    if v[0] == "op" and v[1] == "<" and v[2] == const(0) and v[3][0] == "call" and v[3][1] == ("glob", "builtins.len"):
        return v[3][2][0], pol
    if v[0] == "op" and v[1] == "==" and len(v) == 4:
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if y == const("") and _a_string(x):
                return x, not pol
    return v, pol


def _a_string(v):
    return v[0] == "call" and (v[1] == ("glob", "builtins.str") or v[1][0] == "attr" and v[1][2] in ("join", "strip", "lstrip", "rstrip", "lower", "upper"))


OBJECT_OR_NONE = {"re.match", "re.search", "re.fullmatch", "inspect.getmodule", "inspect.currentframe", "typing.get_origin", "inspect.stack"}


def _object_or_none(v):
    """A call whose result is None or an object that counts as true."""
    return v[0] == "call" and (v[1][0] == "glob" and v[1][1] in OBJECT_OR_NONE or v[1][0] == "attr" and v[1][2] in ("match", "search", "fullmatch") and len(v[2]) >= 1)


def _reads_state(v):
    """Does the value depend on when it is asked for?  (What a function without arguments says.)"""
    return any(x and x is not v and x[0] == "call" and len(x) == 4 and x[1][0] == "glob" and x[1][1].startswith("effectful.") and not x[2] and not x[3]
                                  and x[1][1].rsplit(".", 1)[1].startswith("get_") for x in walk(v))


def _mark_late(e, targets):
    """Functions kept by an iteration that look its variable up when they are called, that is, afterwards."""
    if isinstance(e, ast.Lambda):
        a = e.args
        own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        e._late = {x.id for x in ast.walk(e.body) if isinstance(x, ast.Name)} & targets - own
    elif isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        for x in e.elts:
            _mark_late(x, targets)
    elif isinstance(e, ast.Dict):
        for x in e.values:
            _mark_late(x, targets)
    elif isinstance(e, ast.IfExp):
        _mark_late(e.body, targets)
        _mark_late(e.orelse, targets)
    elif isinstance(e, ast.Call) and _keeps(e.func):
        for x in e.args:
            _mark_late(x, targets)


def _keeps(f):
    """Does the call hand back what it is given, to be called later?"""
    if isinstance(f, ast.Call):
        return (dotted(f.func) or "").split(".")[-1] == "wraps"
    return (dotted(f) or "").split(".")[-1] in ("partial", "staticmethod", "classmethod", "cast", "defop", "define", "cache")


_SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def _own_nodes(body):
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, _SCOPES):
            todo.extend(ast.iter_child_nodes(n))


def _root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def _mark_late_loop(n):
    """The same for the functions that the body of a loop stores outside of it."""
    nodes = list(_own_nodes(n.body))
    kept = []
    made = {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    for x in nodes:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Subscript, ast.Attribute)) and _root(x.targets[0]) not in made:
            kept.append(x.value)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "add", "setdefault", "insert", "appendleft", "extend", "update") \
                and isinstance(x.func.value, (ast.Name, ast.Attribute, ast.Subscript)) and _root(x.func.value) not in made:
            kept.extend(x.args[-1:])
    if not kept:
        return
    bound = made | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    defs = {x.name: x for x in nodes if isinstance(x, ast.FunctionDef)}
    bound |= set(defs)
    lams = {x.targets[0].id: x.value for x in nodes if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)}
    for e in kept:
        if isinstance(e, ast.Name) and e.id in lams:
            e = lams[e.id]
        _mark_late(e, bound)
        for y in ast.walk(e):
            if isinstance(y, ast.Name) and y.id in defs:
                f = defs[y.id]
                a = f.args
                own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z]}
                own |= {x.id for z in f.body for x in ast.walk(z) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                f._late = {x.id for z in f.body for x in ast.walk(z) if isinstance(x, ast.Name)} & bound - own - {f.name}


def setlike(v):
    """Certainly a set (for which `a <= b` is not `not b < a`)."""
    if v[0] == "coll":
        return v[1] in ("set", "frozenset")
    if v[0] == "call":
        return v[1] in (("glob", "builtins.set"), ("glob", "builtins.frozenset")) or v[1][0] == "attr" and v[1][2] in (
            "keys", "union", "intersection", "difference", "symmetric_difference")
    if v[0] == "op" and v[1] in ("|", "&", "-", "^") and len(v) == 4:
        return setlike(v[2]) or setlike(v[3])
    if v[0] == "phi":
        return any(setlike(x) for x in v[1])
    return False


def repeats(p):
    """May this part of a dictionary name a key twice (so that iterating over it drops the second)?"""
    s, x = p[1], p[2]
    return not setlike(s) and x[0] == "pair" and x[1] == ("elem", s) and (
        x[2][0] == "const" or s[0] == "param" and s[1][:1] == "*" and s[1][:2] != "**" or s[0] == "coll" and s[1] in ("list", "tuple", "iter"))


def _identity(v):
    """id(x) of something that stays what it is."""
    return v[0] == "call" and v[1] == ("glob", "builtins.id") and len(v[2]) == 1 and v[2][0][0] in ("param", "glob", "free", "elem")


def is_pure(v):
    def bad(x):
        if x[0] == "call":
            return not (x[1][0] == "glob" and x[1][1] in PURE_CALLS)
        return x[0] in ("unk", "sent", "ref")

    return not contains(v, bad)


BUDGET = 30.0  # CPU seconds per analysed function


class Interp:
    def __init__(self, project, inline=None, opaque=None, exc=False, limit=1500, maxdepth=7,
                 types=None):
        self.p = project
        self.inline_pred = inline
        self.opaque = set(opaque or ())
        self.exc = exc
        self.limit = limit
        self.deadline = time.process_time() + BUDGET
        self.maxdepth = maxdepth
        self.types = dict(types or {})
        self.class_vals = set()
        self.fi = {}  # fid -> FrameInfo
        self._changed = {}  # what calling a closure changes
        self.within = {}  # what closures ask of what is about them
        self.closures = {}
        self.wraps = {}
        self.nid = 0
        self.exc_stack = []
        self.inlined = set()
        self.visited_calls = 0
        self._lam_depth = 0
        self._floor, self._late_names, self.late_of, self.dead = None, (), {}, {}
        self._expanding = {}
        self._memo = {}
        self._hits = set()
        self.foreign = ()  # parameters whose attributes may be anything's properties
        self._suppress = {}
        self._try_from = []
        self.cleanups = []
        self.catches = []

    # ------------------------------------------------------------------ entry points
    def tick(self):
        if self.deadline is not None and time.process_time() > self.deadline:
            raise Limit("time")

    def new_id(self):
        self.nid += 1
        return self.nid

    def run(self, fi, args=None, self_type=None, state=None):
        """Analyse a function from its entry.  args: optional {param name: value}."""
        st = state or State()
        fid = self.new_id()
        cls = fi.cls.qual if fi.cls else None
        fr = FrameInfo(None, fi.module, fi, cls)
        self.fi[fid] = fr
        st.frames[fid] = {}
        st.cur = fid
        st.stack = (fi.qual,)
        params = []
        a = fi.node.args
        pos = [x for x in a.posonlyargs + a.args]
        for i, x in enumerate(pos):
            v = (args or {}).get(x.arg, param(x.arg))
            st.frames[fid][x.arg] = v
            params.append(v)
            if i == 0 and cls and not self._is_static(fi):
                self.types.setdefault(v, self_type or cls)
                if self._is_classm(fi) or fi.name in ("__new__", "__init_subclass__", "__class_getitem__"):
                    self.class_vals.add(v)
            elif x.annotation is not None:
                t = self.p.resolve_expr(fi.module, x.annotation)
                if t in self.p.classes:
                    self.types.setdefault(v, t)
        if a.vararg:
            v = (args or {}).get("*" + a.vararg.arg, param("*" + a.vararg.arg))
            st.frames[fid][a.vararg.arg] = v
            params.append(v)
        for x in a.kwonlyargs:
            v = (args or {}).get(x.arg, param(x.arg))
            st.frames[fid][x.arg] = v
            params.append(v)
        if a.kwarg:
            v = (args or {}).get("**" + a.kwarg.arg, param("**" + a.kwarg.arg))
            st.frames[fid][a.kwarg.arg] = v
            params.append(v)
        # enclosing function variables are visible as free parameters
        outs = self._run_body(fi.node, st)
        return Result(self, fi, params, outs)

    def _is_static(self, fi):
        return any((dotted(d) or "").split(".")[-1] == "staticmethod" for d in fi.decorators)

    def _run_body(self, node, st):
        self.exc_stack.append([])
        base_events = len(st.events)
        if isinstance(node, ast.Lambda):
            res = [(s1, ("return", v1, node)) for s, v in self.ev(node.body, st) for s1, v1 in self.boolfork(v, s)]
        else:
            res = self.block(node.body, st)
        snaps = self.exc_stack.pop()
        outs = []
        for s, sig in res:
            if sig is None:
                outs.append(Outcome("return", NONE, NONE, s, self.loc(node, s), "end"))
            elif sig[0] == "return":
                raw = sig[1]
                outs.append(Outcome("return", self.expand(self.freeze(raw, s), s), raw, s,
                                    self.loc(sig[2], s)))
            elif sig[0] == "raise":
                raw = sig[1]
                outs.append(Outcome("raise", self.expand(self.freeze(raw, s), s), raw, s,
                                    self.loc(sig[2], s), "explicit"))
        for s, v, why, nd in snaps:
            if why == "explicit" or (self.exc and why in ("call", "yield", "assert")):
                outs.append(Outcome("raise", self.freeze(v, s), v, s, self.loc(nd, s), why))
        return outs

    def call_closure(self, outcome_or_state, fnval, args=None, kwargs=None, exc=None, star=None, dstar=None):
        """Analyse a closure value in the state it escaped from; args default to fresh params."""
        st = (outcome_or_state.state if isinstance(outcome_or_state, Outcome) else outcome_or_state).fork()
        if fnval[0] != "fn":
            return None
        node, parent, module, finfo, defaults = self.closures[fnval[1]]
        a = node.args
        fid = self.new_id()
        self.fi[fid] = FrameInfo(parent, module, finfo, None)
        st.frames[fid] = {}
        st.cur = fid
        st.events, st.guards, st.loops = (), (), ()
        st.stack = (finfo.qual if finfo else "<lambda>",)
        params = []
        pos = a.posonlyargs + a.args
        args = list(args) if args is not None else None
        for i, x in enumerate(pos):
            v = args[i] if args is not None and i < len(args) else param(x.arg)
            st.frames[fid][x.arg] = v
            params.append(v)
        if a.vararg:
            v = (coll("tuple", [item_part(z) for z in args[len(pos):]]) if args is not None and len(args) > len(pos)
                 else star if star is not None else param("*" + a.vararg.arg))
            st.frames[fid][a.vararg.arg] = v
            params.append(v)
        for x in a.kwonlyargs:
            v = (kwargs or {}).get(x.arg, param(x.arg))
            st.frames[fid][x.arg] = v
            params.append(v)
        if a.kwarg:
            v = dstar if dstar is not None else param("**" + a.kwarg.arg)
            st.frames[fid][a.kwarg.arg] = v
            params.append(v)
        old = self.exc
        if exc is not None:
            self.exc = exc
        try:
            outs = self._run_body(node, st)
        finally:
            self.exc = old
        fake = finfo or FuncInfo("<lambda>", _named(node), module)
        return Result(self, fake, params, outs)

    # ------------------------------------------------------------------ helpers
    def loc(self, node, st=None):
        m = self.fi[st.cur].module if st and st.cur in self.fi else None
        ln = getattr(node, "lineno", 0)
        return f"{m.rel if m else '?'}:{ln}"

    def event(self, st, kind, data, node):
        f = self.fi[st.cur]
        st.events = st.events + (
            Event(kind, data, self.loc(node, st), st.guards, tuple(l[0] for l in st.loops),
                  f.func.qual if f.func else "?"),)

    def snap(self, st, val, why, node):
        if self.exc_stack:
            self.exc_stack[-1].append((st.fork(), val, why, node))

    def in_try(self):
        return len(self.exc_stack) > 1

    def freeze(self, v, st, _d=0):
        if not isinstance(v, tuple) or not v or _d > 60:
            return v
        t = v[0]
        if t == "ref":
            h = st.heap.get(v[1])
            if h is None:
                return ("unk", "ref")
            return coll(h[0], tuple(self.freeze_part(p, st, _d + 1) for p in h[1]))
        if t in ("const", "param", "glob", "fn", "bound"):
            return v
        if not _has_ref(v):
            return v
        return tuple(self.freeze(x, st, _d + 1) if isinstance(x, tuple) else x for x in v)

    def late(self, v, st):
        """A container stored somewhere counts with the contents it has in the end."""
        return v if v[0] == "ref" and not st.loops else self.freeze(v, st)

    def freeze_part(self, p, st, d):
        return tuple(self.freeze(x, st, d) if isinstance(x, tuple) else x for x in p)

    def expand(self, v, st, depth=0):
        """Replace closures inside v by `lam` values (their frozen result expressions)."""
        if not isinstance(v, tuple) or not v or not _has_fn(v):
            return v
        self.tick()
        given = ()
        if v[0] == "partial" and v[1][0] == "fn" and v[1][1] in self.closures and v[1][1] not in self.wraps and not v[3] and all(x[0] != "star" for x in v[2]):
            a = self.closures[v[1][1]][0].args
            if len(a.posonlyargs + a.args) >= len(v[2]) and not a.defaults:
                v, given = v[1], v[2]
        if v[0] == "fn":
            if v[1] in self._expanding:
                return ("rec", self._expanding[v[1]])
            if self._lam_depth > 6 or v[1] not in self.closures:
                return ("unk", "closure")
            memo = (v[1], given, self._lam_depth, id(st), tuple(self._expanding.items()))
            if memo in self._memo:
                return self._memo[memo][1]
            self._expanding[v[1]] = self._lam_depth
            self._lam_depth += 1
            try:
                node = self.closures[v[1]][0]
                n = len(node.args.posonlyargs + node.args.args)
                n -= len(given)
                args = [*given, *(("bound", self._lam_depth, i) for i in range(n))]
                saved = self.exc_stack
                self.exc_stack = []
                outer = self._floor, self._late_names
                self._floor, self._late_names = self.nid, self.late_of.get(v[1], ())
                try:
                    L = self._lam_depth
                    at = st
                    beside = [c for c, x in self.closures.items() if x[1] in st.frames]
                    changed = {w for c in beside for w in self._changed_by(c, st)}
                    if changed:
                        at = st.fork()
                        self._kept(at, changed)
                    r = self.call_closure(
                        at, v, args, exc=False,
                        kwargs={x.arg: ("bound", L, x.arg) for x in node.args.kwonlyargs},
                        star=("bound", L, "*"), dstar=("bound", L, "**"))
                finally:
                    self.exc_stack = saved
                    self._floor, self._late_names = outer
                from .summary import lam_alts

                a = node.args
                w = self.wraps.get(v[1])
                w = ("none",) if w is None else self.expand(self.freeze(w, st), st, depth + 1) if not _has_own(w, v) else ("unk", "wraps")
                sig = (n, tuple(x.arg for x in a.kwonlyargs), bool(a.vararg), bool(a.kwarg), len(a.defaults), w)
                out = ("lam", sig, lam_alts(self, r, at))
                self._memo[memo] = (st, out)
                return out
            finally:
                self._lam_depth -= 1
                self._expanding.pop(v[1], None)
        return tuple(self.expand(x, st, depth + 1) if isinstance(x, tuple) else x for x in v)

    def new_ref(self, st, kind, parts):
        i = self.new_id()
        st.heap[i] = (kind, tuple(parts), len(st.loops))
        return ("ref", i)

    def ref_add(self, st, ref, part):
        kind, parts, depth = st.heap[ref[1]]
        loops = st.loops[depth:]
        if loops:
            g = st.guards[loops[0][1]:]
            it = loops[0][0] if len(loops) == 1 else ("prod",) + tuple(l[0] for l in loops)
            if part[0] == "item":
                part = each_part(it, part[1], g)
            elif part[0] == "star":
                src = part[1]
                part = each_part(("prod", it, src), self.elem(src, st), g)
            elif part[0] == "each":
                part = each_part(("prod", it, part[1]), part[2], g + part[3])
        st.heap[ref[1]] = (kind, parts + (part,), depth)

    def parts_of(self, v, st):
        """(kind, parts) if v is a collection value."""
        if v[0] == "ref":
            h = st.heap.get(v[1])
            return (h[0], h[1]) if h else None
        if v[0] == "coll":
            return v[1], v[2]
        return None

    # ------------------------------------------------------------------ element/iteration
    def elem(self, it, st, d=0):
        if d > 10:
            return ("elem", it)
        pk = self.parts_of(it, st)
        if pk:
            kind, parts = pk
            out = []
            for p in parts:
                if p[0] == "star":
                    out.append(self.elem(p[1], st, d + 1))
                    continue
                x = p[1] if p[0] == "item" else p[2]
                if x[:2] == ("op", "del"):
                    continue
                out.append(x[1] if x[0] == "pair" else x[3] if x[:2] == ("op", "at") else x)
            return phi(out) if out else ("elem", coll(kind, ()))
        if it[0] == "phi":
            return phi([self.elem(x, st, d + 1) for x in it[1]])
        if it[0] == "call":
            f, args = it[1], it[2]
            if f[0] == "attr" and not args:
                if f[2] == "items":
                    ks, vs = self._kv(f[1], st, d)
                    return coll("tuple", (item_part(ks), item_part(vs)))
                if f[2] == "values":
                    return self._kv(f[1], st, d)[1]
                if f[2] == "keys":
                    return self.elem(f[1], st, d + 1)
            if f[0] == "glob":
                n = f[1]
                if n in ("builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.list",
                         "builtins.tuple", "builtins.set", "builtins.frozenset") and len(args) == 1:
                    return self.elem(args[0], st, d + 1)
                if n == "builtins.enumerate" and args:
                    src, g = self.norm_iter(args[0], st)
                    start = args[1] if len(args) > 1 else const(0)
                    i = ("idx", src if not g else self.freeze(args[0], st))
                    return coll("tuple", (item_part(i if start == const(0) else ("op", "+", i, start)),
                                          item_part(self.elem(args[0], st, d + 1))))
                if n == "builtins.zip":
                    return coll("tuple", tuple(item_part(self.elem(a, st, d + 1)) for a in args if a[0] != "star"))
                if n == "builtins.range" and len(args) == 1 and args[0][0] == "call" and args[0][1] == ("glob", "builtins.len"):
                    return ("idx", args[0][2][0])
        return ("elem", it)

    def _kv(self, d, st, depth=0):
        pk = self.parts_of(d, st)
        if pk:
            ks, vs = [], []
            for p in pk[1]:
                if p[0] == "star":
                    k, v = self._kv(p[1], st, depth + 1)
                    ks.append(k), vs.append(v)
                else:
                    x = p[1] if p[0] == "item" else p[2]
                    if x[0] == "pair":
                        ks.append(x[1]), vs.append(x[2])
            if ks:
                return phi(ks), phi(vs)
        k = ("elem", d)
        return k, ("item", d, k)

    def get_item(self, v, k, st):
        pk = self.parts_of(v, st)
        if pk:
            kind, parts = pk
            if kind in ("tuple", "list", "iter") and is_const(k) and isinstance(k[2], int) and not isinstance(k[2], bool):
                n = k[2]
                if any(p[0] == "item" and p[1][:2] in (("op", "at"), ("op", "del")) for p in parts):
                    return ("item", self.freeze(v, st), k)
                if all(p[0] == "item" for p in parts) and -len(parts) <= n < len(parts):
                    return parts[n][1]
                if n >= 0 and len(parts) > n and all(p[0] == "item" for p in parts[: n + 1]):
                    return parts[n][1]
                if n < 0 and len(parts) >= -n and all(p[0] == "item" for p in parts[n:]):
                    return parts[n][1]
            if kind == "dict":
                for p in reversed(parts):
                    if p[0] == "item" and p[1][0] == "pair":
                        if p[1][1] == k:
                            return p[1][2]
                        if not (is_const(p[1][1]) and is_const(k)):
                            break
                    else:
                        break
        if pk and pk[0] in ("list", "tuple", "iter") and len(pk[1]) == 1 and pk[1][0][0] == "each" and not pk[1][0][3] and k == ("idx", pk[1][0][1]):
            return pk[1][0][2]
        v = self.freeze(v, st)
        k = self.freeze(k, st)
        if v[0] == "phi":
            return phi([self.get_item(x, k, st) for x in v[1]])
        if k == ("idx", v):
            return ("elem", v)
        if (v, ("k", k)) in st.attrs:
            return self._known(st.attrs[(v, ("k", k))])
        return ("item", v, k)

    # ------------------------------------------------------------------ names
    def _known(self, v):
        if v[0] == "carry":
            self._hits.add(v)
        return v

    def lookup(self, name, st):
        fid = st.cur
        while fid is not None:
            fr = self.fi[fid]
            names = st.frames.get(fid)
            if names is None:
                names = self.dead.get(fid, {})  # an iteration that is over
            if name in names and name not in fr.globals:
                v = names[name]
                if v[0] == "carry":
                    self._hits.add(v)
                if self._floor is not None and fid <= self._floor and v[0] not in ("early", "late"):
                    if name in self._late_names:
                        return ("late", v)
                    if _reads_state(v):
                        return ("early", v)
                return v
            if fr.parent is None and fr.func is not None and fr.func.outer is not None:
                # analysing a nested function on its own: enclosing locals are free variables
                o = fr.func.outer
                while o is not None:
                    if name in _local_names(o.node):
                        return ("free", o.qual, name)
                    o = o.outer
            fid = fr.parent
        m = self.fi[st.cur].module
        return self.global_value(m, name)

    def global_value(self, m, name):
        q = self.p.resolve_name(m, name)
        if q == "typing.TYPE_CHECKING":
            return const(False)
        if q is not None:
            return glob(q)
        if hasattr(builtins, name):
            return glob("builtins." + name)
        for sm in m.star_imports:
            if sm not in self.p.modules:
                return glob(f"{sm}.{name}")
        return glob(f"{m.name}.{name}")

    def assign_name(self, name, v, st):
        fid = st.cur
        fr = self.fi[fid]
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in st.frames.get(f, {}):
                    st.frames[f][name] = v
                    return
                f = self.fi[f].parent
        if name in fr.globals:
            self.event(st, "setglobal", (const(name), self.freeze(v, st)), _dummy)
            return
        st.frames[fid][name] = v

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        self.tick()
        states = [(st, None)]
        for s in stmts:
            nxt = []
            for cur, sig in states:
                if sig is not None:
                    nxt.append((cur, sig))
                else:
                    nxt.extend(self.stmt(s, cur))
            if len(nxt) > 40:
                nxt = self._dedupe(nxt)
            if len(nxt) > self.limit:
                raise Limit(f"{len(nxt)} paths")
            states = nxt
        return states

    def _dedupe(self, sts):
        out, seen = [], set()
        for s, sig in sts:
            try:
                key = (sig[:2] if sig else None, s.guards, tuple(id(e) for e in s.events),
                       tuple(sorted((k, tuple(v.items())) for k, v in s.frames.items())),
                       tuple(sorted(s.heap.items())))
                if key in seen:
                    continue
                seen.add(key)
            except TypeError:
                pass
            out.append((s, sig))
        return out

    def stmt(self, n, st):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, None)]
        return m(n, st)

    def s_Pass(self, n, st):
        return [(st, None)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, _ in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, ("return", NONE, n))]
        return [(s1, ("return", v1, n)) for s, v in self.ev(n.value, st) for s1, v1 in self.boolfork(v, s)]

    def boolfork(self, v, st):
        """A boolean result is a partition of its conditions."""
        fv = v
        if _is_boolean(fv):
            return [(s, TRUE if b else FALSE) for s, b in self.branch(fv, st)]
        return [(st, v)]

    def s_Raise(self, n, st):
        if n.exc is None:
            return [(st, ("raise", ("reraise",), n))]
        out = []
        for s, v in self.ev(n.exc, st):
            if v[0] == "glob":
                v = call(v)
            if n.cause is not None:
                for s2, _ in self.ev(n.cause, s):
                    out.append((s2, ("raise", v, n)))
            else:
                out.append((s, ("raise", v, n)))
        return out

    def s_Break(self, n, st):
        return [(st, ("break",))]

    def s_Continue(self, n, st):
        return [(st, ("continue",))]

    def s_Global(self, n, st):
        self.fi[st.cur].globals.update(n.names)
        return [(st, None)]

    def s_Nonlocal(self, n, st):
        self.fi[st.cur].nonlocals.update(n.names)
        return [(st, None)]

    def s_Import(self, n, st):
        for a in n.names:
            st.frames[st.cur][a.asname or a.name.split(".")[0]] = glob(a.name if a.asname else a.name.split(".")[0])
        return [(st, None)]

    def s_ImportFrom(self, n, st):
        mod = self.fi[st.cur].module.absmod(n)
        for a in n.names:
            st.frames[st.cur][a.asname or a.name] = glob(self.p.canon(f"{mod}.{a.name}"))
        return [(st, None)]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            states = [s]
            for t in n.targets:
                nxt = []
                for s1 in states:
                    nxt.extend(self.assign(t, v, s1, n))
                states = nxt
            out.extend((s2, None) for s2 in states)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            out.extend((s2, None) for s2 in self.assign(n.target, v, s, n))
        return out

    def s_TypeAlias(self, n, st):
        st.frames[st.cur][n.name.id] = ("unk", "typealias")
        return [(st, None)]

    def s_AugAssign(self, n, st):
        o = BIN[type(n.op)]
        out = []
        load = _as_load(n.target)
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(n.value, s):
                if cur[0] == "ref" and o == "+" and s2.heap[cur[1]][0] == "list":
                    self.ref_extend(s2, cur, v)
                    out.append((s2, None))
                    continue
                if cur[0] == "ref" and o == "|" and s2.heap[cur[1]][0] in ("dict", "set", "copy"):
                    self.ref_add(s2, cur, star_part(v))
                    out.append((s2, None))
                    continue
                if not isinstance(n.target, ast.Name):
                    self.event(s2, "aug", (self.freeze(cur, s2), const(o), self.freeze(v, s2)), n)
                else:
                    self.event(s2, "augname", (self.freeze(cur, s2), const(o), self.freeze(v, s2)), n)
                nv = self.binop(o, cur, v, s2)
                out.extend((s3, None) for s3 in self.assign(n.target, nv, s2, n))
        return out

    def ref_extend(self, st, ref, v):
        pk = self.parts_of(v, st)
        if pk:
            for p in pk[1]:
                self.ref_add(st, ref, p)
        else:
            self.ref_add(st, ref, star_part(v))

    def s_Delete(self, n, st):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s.frames[s.cur].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s):
                        for s2, k in self.ev(t.slice, s1):
                            if b[0] == "ref":
                                self._ref_del(s2, b, k)
                                self.event(s2, "delitem_local", (b, self.freeze(k, s2)), n)
                                nxt.append(s2)
                                continue
                            self._forget(s2, self.freeze(b, s2))
                            self.event(s2, "delitem", (self.freeze(b, s2), self.freeze(k, s2)), n)
                            nxt.append(s2)
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, s):
                        self.event(s1, "delattr", (self.freeze(b, s1), const(t.attr)), n)
                        nxt.append(s1)
                else:
                    nxt.append(s)
            states = nxt
        return [(s, None) for s in states]

    def _ref_del(self, st, ref, k):
        kind, parts, d = st.heap[ref[1]]
        k = self.freeze(k, st)
        if len(st.loops) == d:
            left = tuple(p for p in parts if not (p[0] == "item" and p[1][0] == "pair" and p[1][1] == k))
            if len(left) < len(parts) and is_const(k) and all(p[0] == "item" and p[1][0] == "pair" and is_const(p[1][1]) for p in left):
                st.heap[ref[1]] = (kind, left, d)
                return
        self.ref_add(st, ref, item_part(("op", "del", k)))

    def set_item(self, b, k, v, st, node):
        fb = self.freeze(b, st)
        self.event(st, "setitem", (fb, self.freeze(k, st), self.late(v, st)), node)
        self._forget(st, fb, k)
        if is_const(k) and fb[0] in ("param", "attr", "item", "elem"):
            st.attrs[(fb, ("k", k))] = v

    def entries(self, args, kwargs, st):
        """The entries dict(*args, **kwargs) has, if they are written out."""
        res = []
        if len(args) > 1 or any(k is None for k, _ in kwargs):
            return None
        for a in args:
            pk = self.parts_of(a, st)
            if not pk or pk[0] != "dict" or not all(p[0] == "item" and p[1][0] == "pair" and is_const(p[1][1]) for p in pk[1]):
                return None
            res += [(p[1][1], p[1][2]) for p in pk[1]]
        return res + [(const(k), v) for k, v in kwargs]

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, st)
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                fb, fv = self.freeze(b, s), self.freeze(v, s)
                self.event(s, "setattr", (fb, const(t.attr), self.late(v, s)), node)
                s.attrs[(b, t.attr)] = v
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                for s2, k in self.ev(t.slice, s):
                    if b[0] == "ref":
                        kind, parts, d = s2.heap[b[1]]
                        if kind in ("dict", "copy"):
                            fk = self.freeze(k, s2)
                            if len(s2.loops) == d:
                                newparts = tuple(p for p in parts if not (p[0] == "item" and p[1][0] == "pair" and p[1][1] == fk))
                                s2.heap[b[1]] = (kind, newparts, d)
                            self.ref_add(s2, b, item_part(pair(fk, v)))
                        elif kind == "list" and len(s2.loops) == d and is_const(k) and isinstance(k[2], int) \
                                and all(p[0] == "item" for p in parts) and -len(parts) <= k[2] < len(parts):
                            lst = list(parts)
                            lst[k[2]] = item_part(v)
                            s2.heap[b[1]] = (kind, tuple(lst), d)
                        else:
                            self.ref_add(s2, b, item_part(("op", "at", self.freeze(k, s2), self.freeze(v, s2))))
                        self.event(s2, "setitem_local", (b, self.freeze(k, s2), self.freeze(v, s2)), node)
                    else:
                        self.set_item(b, k, v, s2, node)
                    out.append(s2)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            states = [st]
            elts = t.elts
            star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(elts):
                nxt = []
                for s in states:
                    if star is None or i < star:
                        x = self.get_item(v, const(i), s)
                        nxt.extend(self.assign(e, x, s, node))
                    elif i == star:
                        x = self.slice_of(v, i, len(elts) - 1 - i, s)
                        nxt.extend(self.assign(e.value, x, s, node))
                    else:
                        x = self.get_item(v, const(i - len(elts)), s)
                        nxt.extend(self.assign(e, x, s, node))
                states = nxt
            return states
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        return [st]

    def _forget(self, st, b, k=None):
        """What was stored in b (under k) may have changed."""
        for x in [x for x in st.attrs if isinstance(x[1], tuple) and x[0] == b and (k is None or not is_const(k) or x[1][1] == k)]:
            del st.attrs[x]

    def slice_of(self, v, lo, hi, st):
        pk = self.parts_of(v, st)
        if pk:
            parts = pk[1]
            if all(p[0] == "item" for p in parts[:lo]) and (hi == 0 or all(p[0] == "item" for p in parts[-hi:])) and len(parts) >= lo + hi:
                mid = parts[lo: len(parts) - hi]
                return coll("list", mid)
        return ("item", self.freeze(v, st), ("slice", const(lo), const(-hi) if hi else NONE, NONE))

    def s_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if b:
                out.append((s, None))
            else:
                out.append((s, ("raise", call(glob("builtins.AssertionError")), n)))
        return out

    def s_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.block(n.body if b else n.orelse, s))
        return out

    # ---- loops
    def s_For(self, n, st):
        _mark_late_loop(n)
        out = []
        for s, it in self.ev(n.iter, st):
            out.extend(self._for(n, s, it))
        return out

    s_AsyncFor = s_For

    def norm_iter(self, it, st):
        """(iteration source, extra guards) with wrappers removed."""
        pk = self.parts_of(it, st)
        if pk and len(pk[1]) == 1 and pk[1][0][0] == "each":
            p = pk[1][0]
            if pk[0] in ("set", "frozenset") and not p[3] and p[2] == ("elem", p[1]) and not setlike(p[1]):
                return coll(pk[0], (star_part(p[1]),)), ()
            if pk[0] == "dict" and repeats(p):
                return self.freeze(it, st), ()
            return p[1], p[3]
        if pk and len(pk[1]) == 1 and pk[1][0][0] == "star":
            src, g = self.norm_iter(pk[1][0][1], st)
            if pk[0] in ("set", "frozenset") and not g and not setlike(src):
                return coll(pk[0], (star_part(src),)), g  # each once, in no order
            return src, g
        it = self.freeze(it, st)
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
            d = it[1][1]
            return self.norm_iter(d, st)
        if it[0] == "call" and it[1][0] == "glob" and it[1][1] in ("builtins.enumerate", "builtins.iter", "builtins.list", "builtins.tuple") and len(it[2]) >= 1:
            return self.norm_iter(it[2][0], st)
        if it[0] == "call" and it[1] == ("glob", "builtins.range") and len(it[2]) == 1 and it[2][0][0] == "call" and it[2][0][1] == ("glob", "builtins.len"):
            return it[2][0][2][0], ()
        if it[0] == "call" and it[1] == ("glob", "builtins.reversed") and len(it[2]) == 1 and not it[3]:
            src, g = self.norm_iter(it[2][0], st)
            return call(it[1], (src,)), g
        if it[0] == "call" and it[1] == ("glob", "builtins.zip") and len(it[2]) > 1 and not it[3] and all(a[0] != "star" for a in it[2]):
            ss = {self.norm_iter(a, st) for a in it[2]}
            if len(ss) == 1 and not next(iter(ss))[1]:
                return ss.pop()  # in step with itself
        return it, ()

    def _for(self, n, st, it):
        # a literal collection of up to 8 items is unrolled exactly
        pk = self.parts_of(it, st)
        if pk and len(pk[1]) <= 8 and all(p[0] == "item" for p in pk[1]) and pk[0] != "set":
            states = [(st, None)]
            done = []
            for p in pk[1]:
                x = p[1][1] if p[1][0] == "pair" else p[1]
                nxt = []
                for s, sig in states:
                    for s1 in self.assign(n.target, x, s, n):
                        for s2, sg in self.block(n.body, s1):
                            if sg is None or sg[0] == "continue":
                                nxt.append((s2, None))
                            elif sg[0] == "break":
                                done.append((s2, None))
                            else:
                                done.append((s2, sg))
                states = nxt
            for s, _ in states:
                done.extend(self.block(n.orelse, s) if n.orelse else [(s, None)])
            return done
        src, g0 = self.norm_iter(it, st)
        base = st

        def once(start):
            s1 = base.fork()
            s1.loops = s1.loops + ((src, len(s1.guards)),)
            s1.guards = s1.guards + tuple(g0)
            self._unremember(s1, n.body)
            self._set(s1, start)
            ends, outs, breaks = [], [], []
            for s2 in self.assign(n.target, self.elem(it, s1), s1, n):
                for s3, sig in self.block(n.body, s2):
                    if sig is None or sig[0] == "continue":
                        ends.append(s3)
                    elif sig[0] == "break":
                        s3.loops = base.loops
                        breaks.append(s3)
                    else:
                        s3.loops = base.loops
                        outs.append((s3, sig))
            return ends, outs, breaks

        nsnap = len(self.exc_stack[-1]) if self.exc_stack else 0
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        (ends, outs, breaks), mus = self._iterate(once, n.body, base, src, targets, nsnap)
        after = self.join(base, ends)
        self._set(after, mus)
        self._left(base, after, breaks)
        self._loop_exits(base, src, after, outs + [(b, None) for b in breaks], nsnap)
        for s in self.block(n.orelse, after) if n.orelse else [(after, None)]:
            outs.append(s)
        outs.extend((b, None) for b in breaks)
        return outs

    def _home(self, name, st):
        """The frame a name assigned here belongs to."""
        fid = st.cur
        if name in self.fi[fid].nonlocals:
            f = self.fi[fid].parent
            while f is not None:
                if name in st.frames.get(f, {}):
                    return f
                f = self.fi[f].parent
        return fid

    def _set(self, st, vals):
        for (fid, name), v in vals.items():
            self._place(st, fid)[name] = v

    def _place(self, st, fid):
        """Where a variable's value is kept: its frame, or the attributes written to so far."""
        return st.attrs if fid == "@" else st.heap if fid == "#" else st.frames.get(fid, {})

    def _iterate(self, once, body, base, src, targets, nsnap):
        """Run a loop body; a container it both looks into and adds to holds, when an iteration starts,
        what the iterations before have put there."""
        nlog = len(self.cleanups), len(self.catches)
        res, mus = self._iterate_names(once, body, base, src, targets, nsnap)
        filled = self._filled(base, res)
        if not filled:
            return res, mus
        kept = self._logged(nsnap, nlog)
        marks = {r: ("carry", self.freeze(("ref", r), base)) for r in filled}
        start = {("#", r): (base.heap[r][0], (star_part(m),), base.heap[r][2]) for r, m in marks.items()}
        self._unlog(nsnap, nlog)
        res2, _ = self._iterate_names(lambda st: once({**start, **st}), body, base, src, targets, nsnap)
        seen = self._looked_into(base, res2, marks, nsnap)
        self._unlog(nsnap, nlog)
        if not seen:
            self._relog(kept, nsnap, nlog)
            return res, mus
        start = {}
        twins = {}
        for r in seen:
            i = twins[marks[r]] = twins.get(marks[r], -1) + 1
            start["#", r] = (base.heap[r][0], (star_part(("sofar", marks[r][1]) + (i,) * bool(i)),), base.heap[r][2])
        res, mus = self._iterate_names(lambda st: once({**start, **st}), body, base, src, targets, nsnap)
        for s in self._states_of(res, nsnap):
            for (_, r), (k, (first,), d) in start.items():
                h = s.heap.get(r)
                if h is not None and h[1][:1] == (first,):
                    s.heap[r] = (h[0], base.heap[r][1] + h[1][1:], h[2])
        return res, mus

    def _states_of(self, res, nsnap):
        ends, outs, breaks = res
        return ends + breaks + [s for s, _ in outs] + ([x[0] for x in self.exc_stack[-1][nsnap:]] if self.exc_stack else [])

    def _filled(self, base, res):
        """The containers at hand before the loop that the body changes."""
        ends, outs, breaks = res
        def only_emptied(old, new):
            return new[:len(old)] == old and all((p[1] if p[0] == "item" else p[2])[:2] == ("op", "del") for p in new[len(old):] if p[0] != "star")

        return [r for r, h in base.heap.items() if h[0] in ("list", "dict", "set")
                and not all(only_emptied(h[1], s.heap.get(r, h)[1]) for s in ends)]

    def _looked_into(self, base, res, marks, nsnap):
        """The containers whose content so far the body depends on."""
        todo = set(marks)
        done, memo = set(), set()

        def look(v):
            for x in walk(v, memo):
                if x[0] == "carry" and len(x) == 2:
                    for r in [r for r in todo if marks[r] == x]:
                        todo.discard(r)
                        done.add(r)

        ne, ng = len(base.events), len(base.guards)
        for s in self._states_of(res, nsnap):
            for a, _ in s.guards[ng:]:
                look(a)
            for e in s.events[ne:]:
                for x in e.data:
                    if isinstance(x, tuple):
                        look(x)
                for a, _ in e.guards[ng:]:
                    look(a)
            for fr in s.frames.values():
                for v in fr.values():
                    look(v)
            for v in s.attrs.values():
                look(v)
            for r, (k, parts, d) in s.heap.items():
                if r in marks and parts[:1] == (star_part(marks[r]),):
                    parts = parts[1:]
                for p in parts:
                    look(p)
        for s, sig in res[1]:
            if sig and isinstance(sig[1], tuple):
                look(sig[1])
        return [r for r in marks if r in done]

    def _logged(self, nsnap, nlog):
        return (list(self.exc_stack[-1][nsnap:]) if self.exc_stack else [], list(self.cleanups[nlog[0]:]), list(self.catches[nlog[1]:]))

    def _relog(self, kept, nsnap, nlog):
        if self.exc_stack:
            self.exc_stack[-1].extend(kept[0])
        self.cleanups.extend(kept[1])
        self.catches.extend(kept[2])

    def _iterate_names(self, once, body, base, src, targets, nsnap):
        """Run a loop body on what an iteration starts with: for a variable the body both reads and
        assigns that is ("mu", source, before the loop, after one more iteration)."""
        orig = {}
        for name, inplace in _assigned(body).items():
            fid = self._home(name, base)
            if name in base.frames.get(fid, {}) and name not in self.fi[fid].globals and name not in targets:
                v = base.frames[fid][name]
                if not (inplace and v[0] == "ref"):
                    orig[fid, name] = v
        stored = _stored(body)
        for k, v in base.attrs.items():
            if k[1] in stored and not (v[0] == "ref" and stored[k[1]]):
                orig["@", k] = v
        if not orig:
            return once({}), {}
        marks = {k: ("carry", self.freeze(v, base)) for k, v in orig.items()}
        saved, self._hits = self._hits, set()
        nlog = len(self.cleanups), len(self.catches)
        try:
            ends, outs, breaks = res = once(marks)
            hits = self._hits
        finally:
            self._hits = saved
        for m in hits:
            saved.update(x for x in walk(m[1]) if x and x[0] == "carry")  # what an outer loop carries
        snaps = [x[0] for x in self.exc_stack[-1][nsnap:]] if self.exc_stack else []
        read = [k for k, m in marks.items() if m in hits and any(self._place(s, k[0]).get(k[1], m) != m for s in ends)]
        if not read:
            if any(m in hits for m in marks.values()):
                self._unlog(nsnap, nlog)
                return once({}), {}
            for s in ends + breaks + [s for s, _ in outs] + snaps:
                for (fid, name), m in marks.items():
                    if self._place(s, fid).get(name) == m:
                        self._place(s, fid)[name] = orig[fid, name]
            return res, {}
        ng = len(base.guards)
        mus = {}
        for k in read:
            steps = []
            for s in ends:
                v = self._place(s, k[0]).get(k[1], marks[k])
                v = self.freeze(v, s)
                steps.append((v, [s.guards[ng:]] if len(ends) <= 20 and s.guards[:ng] == base.guards else None))
            mus[k] = self._mu(src, marks[k], steps)
        self._unlog(nsnap, nlog)
        return once(mus), mus

    def _unremember(self, st, body):
        """What a loop body writes to a place is not, from the second iteration on, what was there before."""
        if not st.attrs:
            return
        stored = _stored(body)
        for key in list(st.attrs):
            if key[1] in stored or isinstance(key[1], tuple) and None in stored:
                del st.attrs[key]

    def _unlog(self, nsnap, nlog):
        """Forget a trial run."""
        if self.exc_stack:
            del self.exc_stack[-1][nsnap:]
        del self.cleanups[nlog[0]:]
        del self.catches[nlog[1]:]

    def _mu(self, src, mark, steps):
        base = mark[1]
        kept, steps = [g for v, g in steps if v == mark], [x for x in steps if x[0] != mark]
        if base[0] == "coll" and src != ("while",) and all(
                v[:2] == base[:2] and v[2][:1] == (star_part(mark),) and g is not None and len(g) == 1
                and not any(contains(p, lambda x: x == mark) for p in v[2][1:]) and all(p[0] == "item" for p in v[2][1:])
                and not any(contains(c, lambda x: x == mark) for c, _ in g[0]) for v, g in steps):
            return coll(base[1], base[2] + tuple(each_part(src, p[1], g[0]) for v, g in steps for p in v[2][1:]))
        return ("mu", src, base, phi_when(steps + [(mark, g) for g in kept]))

    def _loop_exits(self, base, src, after, exits, nsnap):
        """Make the ways of leaving a loop a partition: `some element satisfies g`."""
        nb = len(base.guards)
        states = [(s, ("break", i) if sig is None else (sig[0], self.freeze(sig[1], s)))
                  for i, (s, sig) in enumerate(exits)]
        if self.exc_stack:
            states += [(x[0], ("raise", self.freeze(x[1], x[0]))) for x in self.exc_stack[-1][nsnap:] if x[2] == "explicit"]
        states = [(s, k) for s, k in states if s.guards[:nb] == base.guards]
        groups = {}
        for s, k in states:
            g = groups.setdefault(k, [])
            if s.guards[nb:] not in g:
                g.append(s.guards[nb:])
        atoms = {k: some_atom(src, *g) for k, g in groups.items()}
        uniq = list(dict.fromkeys(atoms.values()))
        for s, k in states:
            a = atoms[k]
            if (a, True) not in base.guards:
                s.guards = base.guards + tuple((x, x == a) for x in uniq)
        after.guards = base.guards + tuple((x, False) for x in uniq)

    def _left(self, base, after, breaks):
        """What a loop left by `break` has done before its last iteration."""
        nb = len(base.events)
        for s in breaks:
            for fid, fr in s.frames.items():
                b, a = base.frames.get(fid), after.frames.get(fid)
                if b is None or a is None:
                    continue
                for name in list(fr):
                    if name in b and fr[name] == b[name] and name in a:
                        fr[name] = a[name]
            for r in list(s.heap):
                if r not in base.heap or r not in after.heap:
                    continue
                (k, bp, d), (_, sp, _), (_, ap, _) = base.heap[r], s.heap[r], after.heap[r]
                if sp == bp:
                    s.heap[r] = after.heap[r]
                elif sp[:len(bp)] == bp and ap[:len(bp)] == bp:
                    s.heap[r] = (k, ap + tuple(p for p in sp[len(bp):] if p not in ap), d)
            for key in list(s.attrs):
                if key in base.attrs and s.attrs[key] == base.attrs[key] and key in after.attrs:
                    s.attrs[key] = after.attrs[key]
            seen = {id(x) for x in s.events}
            s.events = tuple(s.events[:nb]) + tuple(x for x in after.events[nb:] if id(x) not in seen) + tuple(s.events[nb:])

    def s_While(self, n, st):
        base = st
        infinite = isinstance(n.test, ast.Constant) and bool(n.test.value)

        def once(start):
            s1 = base.fork()
            s1.loops = s1.loops + ((("while",), len(s1.guards)),)
            self._unremember(s1, n.body)
            self._set(s1, start)
            ends, outs, breaks = [], [], []
            for s2, b in self.cond(n.test, s1):
                if not b:
                    continue
                for s3, sig in self.block(n.body, s2):
                    if sig is None or sig[0] == "continue":
                        ends.append(s3)
                    elif sig[0] == "break":
                        s3.loops = base.loops
                        breaks.append(s3)
                    else:
                        s3.loops = base.loops
                        outs.append((s3, sig))
            return ends, outs, breaks

        nsnap = len(self.exc_stack[-1]) if self.exc_stack else 0
        (ends, outs, breaks), mus = self._iterate(once, [ast.Expr(n.test)] + n.body, base, ("while",), set(), nsnap)
        after = self.join(base, ends)
        self._set(after, mus)
        explicit = self.exc_stack and any(x[2] == "explicit" for x in self.exc_stack[-1][nsnap:])
        self._left(base, after, breaks)
        if infinite and len(breaks) == 1 and not outs and not explicit:
            breaks[0].guards = base.guards  # the one way out
        else:
            self._loop_exits(base, ("while",), after, outs + [(b, None) for b in breaks], nsnap)
        if not infinite:
            outs.extend(self.block(n.orelse, after) if n.orelse else [(after, None)])
        outs.extend((b, None) for b in breaks)
        return outs

    def join(self, base, ends):
        """Loop join: zero or more iterations."""
        out = base.fork()
        if not ends:
            return out
        nb, ng = len(base.events), len(base.guards)

        def when(e):
            return [e.guards[ng:]] if len(ends) <= 20 and e.guards[:ng] == base.guards else None

        seen = set()
        evs = list(base.events)
        for e in ends:
            for x in e.events[nb:]:
                if id(x) not in seen:
                    seen.add(id(x))
                    evs.append(x)
        out.events = tuple(evs)
        for fid in {f for e in ends for f in e.frames}:
            b = base.frames.get(fid, {})
            o = out.frames.setdefault(fid, {})
            for name in {k for e in ends for k in e.frames.get(fid, {})}:
                vals = [(b[name], [()])] if name in b else []
                for e in ends:
                    if name in e.frames.get(fid, {}):
                        v = e.frames[fid][name]
                        vals.append((v, when(e)))
                o[name] = phi_when(vals)
        for r in {r for e in ends for r in e.heap}:
            if r in base.heap:
                k, parts, d = base.heap[r]
                new = list(parts)
                for e in ends:
                    if r not in e.heap:
                        continue
                    ep = e.heap[r][1]
                    if ep[: len(parts)] == parts:
                        add = ep[len(parts):]
                    else:
                        add = tuple(p for p in ep if p not in parts)
                    for p in add:
                        if p not in new:
                            new.append(p)
                out.heap[r] = (k, tuple(new), d)
            else:
                out.heap[r] = next(e.heap[r] for e in ends if r in e.heap)
        for key in {k for e in ends for k in e.attrs}:
            vals = [(base.attrs[key], [()])] if key in base.attrs else []
            for e in ends:
                if key in e.attrs:
                    vals.append((e.attrs[key], when(e)))
            if key not in base.attrs:
                vals.append((attr(key[0], key[1]) if isinstance(key[0], tuple) else ("unk", "attr"), [()]))
            out.attrs[key] = phi_when(vals)
        return out

    # ---- functions and classes
    def s_FunctionDef(self, n, st):
        out = []
        fr = self.fi[st.cur]
        q = f"{fr.func.qual if fr.func else fr.module.name}.{n.name}"
        fi = self.p.funcs.get(q)
        if fi is None or fi.node is not n:
            fi = next((x for x in self.p.allfuncs if x.node is n), FuncInfo(q, n, fr.module))
        for s, defaults in self.eval_defaults(n.args, st):
            cid = self.new_id()
            self.closures[cid] = (n, s.cur, fr.module, fi, defaults)
            if getattr(n, "_late", None):
                self.late_of[cid] = n._late
            v = ("fn", cid)
            states = [(s, v)]
            for d in reversed(n.decorator_list):
                dn = dotted(d.func if isinstance(d, ast.Call) else d) or ""
                if dn.split(".")[-1] == "wraps" and isinstance(d, ast.Call) and d.args and states[0][1][0] == "fn":
                    for s1, v1 in states:
                        for s2, dv in self.ev(d.args[0], s1):
                            self.wraps[v1[1]] = self.freeze(dv, s2)
                    continue
                if dn.split(".")[-1] in ("wraps", "staticmethod", "contextmanager", "cache", "no_type_check"):
                    continue
                nxt = []
                for s1, v1 in states:
                    for s2, dv in self.ev(d, s1):
                        nxt.append((s2, call(dv, (v1,))))
                        self.event(s2, "call", (dv, (v1,), ()), d)
                states = nxt
            for s1, v1 in states:
                self.assign_name(n.name, v1, s1)
                out.append((s1, None))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def eval_defaults(self, a, st):
        states = [(st, [])]
        exprs = list(a.defaults) + [d for d in a.kw_defaults]
        for d in exprs:
            nxt = []
            for s, acc in states:
                if d is None:
                    nxt.append((s, acc + [None]))
                else:
                    for s1, v in self.ev(d, s):
                        nxt.append((s1, acc + [v]))
            states = nxt
        return states

    def s_ClassDef(self, n, st):
        m = self.fi[st.cur].module
        fr = self.fi[st.cur]
        bases = tuple(self.freeze(v, s) for b in n.bases for s, v in self.ev(b, st.fork())[:1])
        members = []
        q = f"{fr.func.qual if fr.func else m.name}.{n.name}"
        for x in n.body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                cid = self.new_id()
                fi = next((y for y in self.p.allfuncs if y.node is x), FuncInfo(f"{q}.{x.name}", x, m))
                self.closures[cid] = (x, st.cur, m, fi, [])
                decos = tuple(dotted(d) or "?" for d in x.decorator_list)
                members.append((x.name, decos, ("fn", cid)))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        v = self.ev(x.value, st.fork())[:1]
                        members.append((t.id, (), self.freeze(v[0][1], v[0][0])))
        st.frames[st.cur][n.name] = ("localclass", bases, tuple(members))
        return [(st, None)]

    # ---- with
    def s_With(self, n, st, idx=0):
        if idx >= len(n.items):
            return self.block(n.body, st)
        item = n.items[idx]
        x = item.context_expr
        if isinstance(x, ast.Call) and x.args and not x.keywords and item.optional_vars is None and (dotted(x.func) or "").split(".")[-1] == "suppress":
            if [v for _, v in self.ev_func(x.func, st.fork())] == [glob("contextlib.suppress")]:
                return self._with_suppress(n, x, st, idx)
        out = []
        for s, cm in self.ev(item.context_expr, st):
            fi = self._cm_function(cm)
            if fi is not None and len(s.stack) < self.maxdepth and fi.qual not in s.stack:
                out.extend(self._with_inline(n, s, idx, cm, fi))
                continue
            fcm = self.freeze(cm, s)
            self.event(s, "enter", (fcm,), item.context_expr)
            states = [s]
            if item.optional_vars is not None:
                ent = ("entered", fcm)
                if cm[0] == "call" and cm[1] == ("glob", "contextlib.nullcontext") and cm[2]:
                    ent = cm[2][0]
                elif cm[0] == "call" and cm[1][0] == "glob" and cm[1][1] in ENTERS_ITSELF:
                    ent = cm
                states = self.assign(item.optional_vars, ent, s, n)
            for s1 in states:
                self.exc_stack.append([])
                res = self.s_With(n, s1, idx + 1)
                snaps = self.exc_stack.pop()
                for s2, sig in res:
                    self.event(s2, "exit", (fcm, const("raise" if sig and sig[0] == "raise" else "normal")), n)
                    if sig and sig[0] == "raise" and self._suppresses(fcm, sig[1]):
                        out.append((s2, None))
                    else:
                        out.append((s2, sig))
                for s2, v, why, nd in snaps:
                    self.event(s2, "exit", (fcm, const("raise")), n)
                    if fcm[0] == "call" and fcm[1] == ("glob", "contextlib.suppress"):
                        s2.cur = s1.cur
                        out.append((s2.fork(), None))
                    if self.exc_stack:
                        self.exc_stack[-1].append((s2, v, why, nd))
        return out

    s_AsyncWith = s_With

    def _with_suppress(self, n, x, st, idx):
        """`with suppress(E): body` is `try: body; except E: pass`."""
        if (id(n), idx) not in self._suppress:
            rest = n.items[idx + 1:]
            body = [ast.copy_location(ast.With(items=rest, body=n.body), n)] if rest else n.body
            types = x.args[0] if len(x.args) == 1 else ast.copy_location(ast.Tuple(elts=x.args, ctx=ast.Load()), x)
            h = ast.copy_location(ast.ExceptHandler(type=types, name=None, body=[ast.copy_location(ast.Pass(), n)]), x)
            self._suppress[id(n), idx] = ast.copy_location(ast.Try(body=body, handlers=[h], orelse=[], finalbody=[]), n), n
        return self.s_Try(self._suppress[id(n), idx][0], st)

    def _suppresses(self, fcm, exc):
        return fcm[0] == "call" and fcm[1] == ("glob", "contextlib.suppress") and any(
            self._exc_match(exc, a, "explicit") == "yes" for a in fcm[2])

    def _cm_function(self, cm):
        if cm[0] != "call" or cm[1][0] != "glob":
            return None
        fi = self.p.funcs.get(cm[1][1])
        if fi is None or not any((dotted(d) or "").split(".")[-1] == "contextmanager" for d in fi.decorators):
            return None
        return fi if self.should_inline(fi) else None

    def _with_inline(self, n, st, idx, cm, fi):
        caller = st.cur
        item = n.items[idx]
        pend = []

        def cont(s, yv):
            """Run the with-body at the yield; returns states back inside the cm frame."""
            cmf = s.cur
            s.cur = caller
            states = [s]
            if item.optional_vars is not None:
                states = self.assign(item.optional_vars, yv, s, n)
            back = []
            for s1 in states:
                self.exc_stack.append([])
                res = self.s_With(n, s1, idx + 1)
                snaps = self.exc_stack.pop()
                for s2, sig in res:
                    s2.cur = cmf
                    if sig is None:
                        back.append((s2, None))
                    elif sig[0] == "raise":
                        self.exc_stack[-1].append((s2, sig[1], "explicit", sig[2]))
                    else:
                        s2.frames[cmf]["__pending__"] = ("sig", sig)
                        back.append((s2, None))
                for s2, v, why, nd in snaps:
                    s2.cur = cmf
                    self.exc_stack[-1].append((s2, v, why, nd))
            return back

        results = self.inline_call(fi, list(cm[2]), list(cm[3]), st, n, parent=None, cont=cont, rawresult=True)
        out = []
        for s, sig, cmf in results:
            pending = s.frames.get(cmf, {}).pop("__pending__", None)
            out.append((s, pending[1] if pending else None))
        return out

    # ---- try
    def s_Try(self, n, st):
        self.exc_stack.append([])
        self._try_from.append(len(st.events))
        try:
            body = self.block(n.body, st)
        finally:
            self._try_from.pop()
        snaps = self.exc_stack.pop()
        if not self.exc:
            snaps = self._thin(snaps)
        self.exc_stack.append([])  # exceptions out of handlers / else
        res = []
        unhandled = []
        raised = list(snaps)
        for s, sig in body:
            if sig is None:
                res.extend(self.block(n.orelse, s) if n.orelse else [(s, None)])
            elif sig[0] == "raise":
                raised.append((s, sig[1], "explicit", sig[2]))
            else:
                res.append((s, sig))
        for s, v, why, nd in raised:
            cur = s
            handled = False
            for h in _handlers(n):
                types = [glob("builtins.BaseException")]
                if h.type is not None:
                    tv = [x for _, x in self.ev(h.type, cur.fork())][:1]
                    tv = tv[0] if tv else ("unk", "t")
                    pk = self.parts_of(tv, cur)
                    types = [p[1] for p in pk[1] if p[0] == "item"] if pk else [tv]
                verdict = "yes" if h.type is None else "no"
                for t in types:
                    r = self._exc_match(v, t, why)
                    if r == "yes":
                        verdict = "yes"
                    elif r == "maybe" and verdict == "no":
                        verdict = "maybe"
                if verdict == "no":
                    continue
                hs = cur.fork()
                ev_ = ("caught", tuple(types), v if v[0] != "unkexc" else ("unkexc",))
                self.event(hs, "caught", (("types",) + tuple(types), v), h)
                if v[0] == "unkexc" and len(v) > 2:
                    self.catches.append((tuple(types), v[2]))
                if h.name:
                    hs.frames[hs.cur][h.name] = ev_
                n0 = len(hs.events)
                for s2, sig in self.block(h.body, hs):
                    if sig and sig[0] == "raise" and sig[1] == ("reraise",):
                        sig = ("raise", ev_, sig[2])
                        if verdict == "yes" and v[0] == "unkexc":
                            self._cleaned(v, n0, s2)
                    res.append((s2, sig))
                if verdict == "yes":
                    handled = True
                    break
            if not handled:
                unhandled.append((cur, v, why, nd))
        hsnaps = self.exc_stack.pop()
        unhandled.extend(hsnaps)
        if not n.finalbody:
            for u in unhandled:
                if u[2] == "explicit":
                    # keep explicit raises as signals of this block when in the same frame
                    res.append((u[0], ("raise", u[1], u[3]))) if u[0].cur == st.cur else self.exc_stack[-1].append(u)
                else:
                    self.exc_stack[-1].append(u)
            return res
        out = []
        for s, sig in res:
            for s2, sg in self.block(n.finalbody, s):
                out.append((s2, sg if sg is not None else sig))
        for s, v, why, nd in unhandled:
            s.cur = st.cur
            n0 = len(s.events)
            for s2, sg in self.block(n.finalbody, s):
                if v[0] == "unkexc":
                    self._cleaned(v, n0, s2)
                if sg is not None:
                    out.append((s2, sg))
                elif why == "explicit":
                    out.append((s2, ("raise", v, nd)))
                else:
                    self.exc_stack[-1].append((s2, v, why, nd))
        return out

    s_TryStar = s_Try

    def _cleaned(self, exc, n0, after):
        """What is done on the way out when something inside a try raises."""
        new = after.events[n0:]
        if new:
            x = ("yield" if exc[1] == "yield" else "call", new, after)
            self.cleanups.append(x)

    def _thin(self, snaps):
        out, seen = [], {}
        for x in snaps:
            s, v, why, nd = x
            try:
                key = (v, why, s.guards, tuple(sorted((k, tuple(f.items())) for k, f in s.frames.items() if k == s.cur)))
                hash(key)
            except TypeError:
                out.append(x)
                continue
            if key in seen:
                out[seen[key]] = x
            else:
                seen[key] = len(out)
                out.append(x)
        return out

    def exc_class(self, v):
        if v[0] == "call":
            v = v[1]
        if v[0] == "glob":
            return v[1]
        return None

    def exc_bases(self, q):
        out = []
        seen = set()
        todo = [q]
        while todo:
            x = todo.pop()
            if x in seen or x is None:
                continue
            seen.add(x)
            out.append(x)
            if x in self.p.classes:
                todo.extend(self.p.classes[x].bases)
            short = x.split(".")[-1]
            if x.startswith("builtins.") and short in EXC_PARENTS:
                todo.append("builtins." + EXC_PARENTS[short])
        return out

    def _exc_match(self, v, t, why):
        tq = t[1] if t[0] == "glob" else None
        if tq == "builtins.BaseException":
            return "yes"
        if why in ("subscript", "attr"):
            if tq == "builtins.Exception":
                return "yes"
            ok = {"subscript": ("KeyError", "IndexError", "LookupError", "TypeError"), "attr": ("AttributeError",)}[why]
            return "maybe" if tq and tq.split(".")[-1] in ok else "no"
        if why == "call" and tq in self.p.classes and len(v) > 2 and v[2][0] == "attr" and v[2][2] in CONTAINER_METHODS:
            return "no"
        if why in ("call", "yield"):
            return "maybe"
        vq = self.exc_class(v)
        if vq is None or tq is None:
            return "maybe"
        bs = self.exc_bases(vq)
        if tq in bs:
            return "yes"
        if tq == "builtins.Exception":
            return "yes" if "builtins.BaseException" not in bs or "builtins.Exception" in bs else "no"
        if vq in self.p.classes or vq.startswith("builtins."):
            ext = [b for b in bs if b not in self.p.classes and not b.startswith("builtins.")]
            return "maybe" if ext else "no"
        return "maybe"

    # ---- match
    def s_Match(self, n, st):
        out = []
        for s, subj in self.ev(n.subject, st):
            live = [s]
            for c in n.cases:
                nxt = []
                for s1 in live:
                    for s2, b in self.pattern(c.pattern, subj, s1):
                        if not b:
                            nxt.append(s2)
                            continue
                        if c.guard is not None:
                            for s3, g in self.cond(c.guard, s2):
                                if g:
                                    out.extend(self.block(c.body, s3))
                                else:
                                    nxt.append(s3)
                        else:
                            out.extend(self.block(c.body, s2))
                live = nxt
            out.extend((s1, None) for s1 in live)
        return out

    def pattern(self, p, v, st):
        """[(state, matched)]"""
        if isinstance(p, ast.MatchAs):
            res = self.pattern(p.pattern, v, st) if p.pattern is not None else [(st, True)]
            for s, b in res:
                if b and p.name:
                    self.assign_name(p.name, v, s)
            return res
        if isinstance(p, ast.MatchValue):
            out = []
            for s, x in self.ev(p.value, st):
                out.extend(self.branch(op("==", self.freeze(v, s), x), s))
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(op("is", self.freeze(v, st), const(p.value)), st)
        if isinstance(p, ast.MatchOr):
            live, out = [st], []
            for q in p.patterns:
                nxt = []
                for s in live:
                    for s1, b in self.pattern(q, v, s):
                        (out if b else nxt).append((s1, True) if b else s1)
                live = nxt
            return out + [(s, False) for s in live]
        if isinstance(p, ast.MatchClass):
            out = []
            for s, c in self.ev(p.cls, st):
                for s1, b in self.branch(call(glob("builtins.isinstance"), (self.freeze(v, s), c)), s):
                    if not b:
                        out.append((s1, False))
                        continue
                    live = [s1]
                    subs = [(("item", self.freeze(v, s1), const(i)), q) for i, q in enumerate(p.patterns)]
                    if c[0] == "glob" and c[1].startswith("builtins.") and len(p.patterns) == 1:
                        subs = [(v, p.patterns[0])]
                    subs += [(self.get_attr(v, a, s1), q) for a, q in zip(p.kwd_attrs, p.kwd_patterns)]
                    for sv, q in subs:
                        nxt = []
                        for s2 in live:
                            for s3, b3 in self.pattern(q, sv, s2):
                                if b3:
                                    nxt.append(s3)
                                else:
                                    out.append((s3, False))
                        live = nxt
                    out.extend((s2, True) for s2 in live)
            return out
        if isinstance(p, (ast.MatchSequence, ast.MatchMapping)):
            f = st.fork()
            lit = ("op", "matches", self.freeze(v, st), const(ast.dump(p)))
            st.guards = st.guards + ((lit, True),)
            f.guards = f.guards + ((lit, False),)
            live, out = [st], [(f, False)]
            if isinstance(p, ast.MatchSequence):
                subs = []
                for i, q in enumerate(p.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            self.assign_name(q.name, self.slice_of(v, i, len(p.patterns) - 1 - i, st), st)
                    else:
                        subs.append((self.get_item(v, const(i), st), q))
            else:
                subs = []
                for k, q in zip(p.keys, p.patterns):
                    for _, kv in self.ev(k, st)[:1]:
                        subs.append((self.get_item(v, kv, st), q))
                if p.rest:
                    self.assign_name(p.rest, ("unk", "rest", self.freeze(v, st)), st)
            for sv, q in subs:
                nxt = []
                for s2 in live:
                    for s3, b3 in self.pattern(q, sv, s2):
                        (nxt.append(s3) if b3 else out.append((s3, False)))
                live = nxt
            return out + [(s, True) for s in live]
        return [(st, True)]

    # ------------------------------------------------------------------ conditions
    def cond(self, n, st):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            live, out = [st], []
            for x in n.values:
                nxt = []
                for s in live:
                    for s1, b in self.cond(x, s):
                        if b == isand:
                            nxt.append(s1)
                        else:
                            out.append((s1, b))
                live = nxt
            return out + [(s, isand) for s in live]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, not b) for s, b in self.cond(n.operand, st)]
        if isinstance(n, ast.Constant):
            return [(st, bool(n.value))]
        if isinstance(n, ast.NamedExpr):
            out = []
            for s, v in self.ev(n, st):
                out.extend(self.branch(v, s))
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for s, b in self.cond(n.test, st):
                out.extend(self.cond(n.body if b else n.orelse, s))
            return out
        out = []
        for s, v in self.ev(n, st):
            out.extend(self.branch(v, s))
        return out

    def truth(self, v, st):
        if v[0] in ("fn", "lam", "localclass"):
            return True
        t = const_truth(v)
        if t is not None:
            return t
        pk = self.parts_of(v, st)
        if pk:
            if not pk[1]:
                return False
            if any(p[0] == "item" for p in pk[1]):
                return True
        return None

    def branch(self, v, st):
        if v[0] == "phi":
            # decide each alternative when all are constants
            ts = {self.truth(x, st) for x in v[1]}
            if len(ts) == 1 and None not in ts:
                return [(st, ts.pop())]
        t = self.truth(v, st)
        if t is not None:
            return [(st, t)]
        v = self.freeze(v, st)
        lit, pol = cond_literal(v)
        t = self.truth(lit, st)
        if t is not None:
            return [(st, t if pol else not t)]
        # isinstance(x, (A, B)) is isinstance(x, A) or isinstance(x, B)
        if lit[0] == "call" and lit[1] in (("glob", "builtins.isinstance"), ("glob", "builtins.issubclass")) and len(lit[2]) == 2:
            cs = _class_alts(lit[2][1])
            if len(cs) > 1:
                live, out = [st], []
                for c in cs:
                    nxt = []
                    for s in live:
                        for s1, b in self.branch(call(lit[1], (lit[2][0], c)), s):
                            if b:
                                out.append((s1, pol))
                            else:
                                nxt.append(s1)
                    live = nxt
                return out + [(s, not pol) for s in live]
        ms = member_atoms(lit)
        if ms:
            live, out = [st], []
            for a in ms:
                nxt = []
                for s in live:
                    for s1, b in self.branch(a, s):
                        if b:
                            out.append((s1, pol))
                        else:
                            nxt.append(s1)
                live = nxt
            return out + [(s, not pol) for s in live]
        if lit[0] == "call" and lit[1] == ("glob", "builtins.any") and len(lit[2]) == 1 and lit[2][0][0] == "coll" and len(lit[2][0][2]) > 1 \
                and all(p[0] == "each" for p in lit[2][0][2]) and len({p[1] for p in lit[2][0][2]}) > 1:
            live, out = [st], []
            for p in lit[2][0][2]:
                nxt = []
                for s in live:
                    for s1, b in self.branch(some_atom(p[1], p[3]), s):
                        if b:
                            out.append((s1, pol))
                        else:
                            nxt.append(s1)
                live = nxt
            return out + [(s, not pol) for s in live]
        if lit[0] == "op" and lit[1] == "is" and is_const(lit[3]):
            x = lit[2]
            if x[0] in ("coll", "fn", "lam"):
                return [(st, not pol)]
        if lit[0] == "op" and lit[1] in ("==", "is") and lit[2] == lit[3] and _identity(lit[2]):
            return [(st, pol)]
        if lit[0] == "op" and lit[1] in ("==", "is", "<", "<=", "in") and is_const(lit[2]) and is_const(lit[3]) and lit[1] != "in":
            a, b = lit[2][2], lit[3][2]
            try:
                r = {"==": a == b, "is": a is b or a == b, "<": lit[1] == "<" and a < b, "<=": lit[1] == "<=" and a <= b}[lit[1]]
                return [(st, bool(r) == pol)]
            except TypeError:
                pass
        if is_pure(lit):
            for g, b in st.guards:
                if g == lit:
                    return [(st, b == pol)]
        f = st.fork()
        st.guards = st.guards + ((lit, pol),)
        f.guards = f.guards + ((lit, not pol),)
        return [(st, True), (f, False)]

    # ------------------------------------------------------------------ expressions
    def ev(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            return [(st, ("unk", type(n).__name__))]
        return m(n, st)

    def ev_list(self, nodes, st):
        states = [(st, [])]
        for n in nodes:
            nxt = []
            for s, acc in states:
                for s1, v in self.ev(n, s):
                    nxt.append((s1, acc + [v]))
            states = nxt
            if len(states) > self.limit:
                raise Limit("expression paths")
        return states

    def e_Constant(self, n, st):
        return [(st, const(n.value))]

    def e_Name(self, n, st):
        return [(st, self.lookup(n.id, st))]

    def e_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            # comprehension frames leak to the enclosing function
            self.assign_name(n.target.id, v, s)
            out.append((s, v))
        return out

    def get_attr(self, b, name, st):
        if (b, name) in st.attrs:
            return self._known(st.attrs[(b, name)])
        fb = self.freeze(b, st)
        if (fb, name) in st.attrs:
            return self._known(st.attrs[(fb, name)])
        if b[0] == "glob":
            q = self.p.canon(b[1] + "." + name)
            return const(False) if q == "typing.TYPE_CHECKING" else glob(q)
        if b[0] == "phi":
            return phi([self.get_attr(x, name, st) for x in b[1]])
        return ("attr", b if b[0] == "ref" else fb, name)

    def e_Attribute(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            t = self.type_of(b)
            if t and (b, n.attr) not in s.attrs:
                fi = self.p.find_method(t, n.attr)
                if fi is not None and any((dotted(d) or "").split(".")[-1] in ("property", "cached_property") for d in fi.decorators) \
                        and len(fi.decorators) == 1 and self.should_inline(fi) and fi.qual not in s.stack and len(s.stack) < self.maxdepth:
                    out.extend(self.inline_call(fi, [b], [], s, n))
                    continue
            if self.in_try():
                self.snap(s, ("unkexc", "attr"), "attr", n)
            if b[0] in ("param", "call", "elem", "item", "attr", "bound"):
                self.event(s, "read", (b, n.attr), n)
            out.append((s, self.get_attr(b, n.attr, s)))
        return out

    def e_Subscript(self, n, st):
        out = []
        for s, b in self.ev(n.value, st):
            for s1, k in self.ev(n.slice, s):
                if self.in_try():
                    self.snap(s1, ("unkexc", "subscript"), "subscript", n)
                if k[0] == "slice" and all(is_const(x, None) for x in k[1:]):
                    out.append((s1, self.new_ref(s1, "copy", [star_part(self.freeze(b, s1))])))
                    continue
                if b[0] == "glob" and (b[1] in self.p.classes or b[1].split(".")[-1][:1].isupper() or b[1] in ("builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "builtins.type", "builtins.frozenset")):
                    out.append((s1, ("gen", b, self.freeze(k, s1))))
                    continue
                out.append((s1, self.get_item(b, k, s1)))
        return out

    def e_Slice(self, n, st):
        states = [(st, [])]
        for x in (n.lower, n.upper, n.step):
            nxt = []
            for s, acc in states:
                if x is None:
                    nxt.append((s, acc + [NONE]))
                else:
                    for s1, v in self.ev(x, s):
                        nxt.append((s1, acc + [self.freeze(v, s1)]))
            states = nxt
        return [(s, ("slice",) + tuple(a)) for s, a in states]

    def seq_parts(self, elts, st):
        states = [(st, [])]
        for e in elts:
            nxt = []
            for s, acc in states:
                if isinstance(e, ast.Starred):
                    for s1, v in self.ev(e.value, s):
                        pk = self.parts_of(v, s1)
                        if pk and pk[0] != "dict":
                            nxt.append((s1, acc + list(pk[1])))
                        else:
                            nxt.append((s1, acc + [star_part(self.freeze(v, s1))]))
                else:
                    for s1, v in self.ev(e, s):
                        nxt.append((s1, acc + [item_part(v)]))
            states = nxt
        return states

    def e_Tuple(self, n, st):
        return [(s, coll("tuple", p)) for s, p in self.seq_parts(n.elts, st)]

    def e_List(self, n, st):
        return [(s, self.new_ref(s, "list", p)) for s, p in self.seq_parts(n.elts, st)]

    def e_Set(self, n, st):
        return [(s, self.new_ref(s, "set", p)) for s, p in self.seq_parts(n.elts, st)]

    def e_Dict(self, n, st):
        states = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, acc in states:
                if k is None:
                    for s1, m in self.ev(v, s):
                        pk = self.parts_of(m, s1)
                        if pk and pk[0] == "dict":
                            nxt.append((s1, acc + list(pk[1])))
                        else:
                            nxt.append((s1, acc + [star_part(self.freeze(m, s1))]))
                else:
                    for s1, kv in self.ev(k, s):
                        for s2, vv in self.ev(v, s1):
                            nxt.append((s2, acc + [item_part(pair(self.freeze(kv, s2), vv))]))
            states = nxt
        return [(s, self.new_ref(s, "dict", p)) for s, p in states]

    def e_JoinedStr(self, n, st):
        vals = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        if len(n.values) == 1 and isinstance(n.values[0], ast.FormattedValue) and n.values[0].format_spec is None and n.values[0].conversion in (-1, 115):
            return [(s, call(glob("builtins.str"), (self.freeze(x, s),))) for s, x in self.ev(vals[0], st)]
        plain = all(not isinstance(v, ast.FormattedValue) or v.format_spec is None and v.conversion in (-1, 115) for v in n.values)
        out = []
        for s, a in self.ev_list(vals, st):
            a = tuple(self.freeze(x, s) for x in a)
            if plain and all(x[0] == "const" and isinstance(x[2], str) for x in a):
                out.append((s, const("".join(x[2] for x in a))))
            else:
                out.append((s, ("op", "fstr") + a))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return [(s, ("star", v)) for s, v in self.ev(n.value, st)]

    def e_Lambda(self, n, st):
        out = []
        for s, d in self.eval_defaults(n.args, st):
            cid = self.new_id()
            fr = self.fi[s.cur]
            fi = FuncInfo(f"{fr.func.qual if fr.func else fr.module.name}.<lambda>", _named(n), fr.module)
            self.closures[cid] = (n, s.cur, fr.module, fi, d)
            if getattr(n, "_late", None):
                self.late_of[cid] = n._late
            out.append((s, ("fn", cid)))
        return out

    def e_IfExp(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out = []
        live = [st]
        for i, x in enumerate(n.values):
            nxt = []
            for s in live:
                for s1, v in self.ev(x, s):
                    if i == len(n.values) - 1:
                        out.append((s1, v))
                        continue
                    for s2, b in self.branch(v, s1):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            # the value is decided by its truth for boolean-valued tests
                            out.append((s2, self._boolval(v, b)))
            live = nxt
        return out

    def _boolval(self, v, b):
        if v[0] == "op" and v[1] in ("not", "==", "!=", "is", "is not", "in", "not in", "<", "<=", ">", ">="):
            return TRUE if b else FALSE
        if v[0] == "call" and v[1][0] == "glob" and v[1][1] in ("builtins.isinstance", "builtins.issubclass", "builtins.any", "builtins.all", "builtins.callable", "builtins.hasattr", "builtins.bool"):
            return TRUE if b else FALSE
        return v

    def e_UnaryOp(self, n, st):
        name = {ast.Not: "not", ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(n.op)]
        out = []
        for s, v in self.ev(n.operand, st):
            if name == "neg" and is_const(v) and isinstance(v[2], (int, float)):
                out.append((s, const(-v[2])))
            elif name == "not" and self.truth(v, s) is not None:
                out.append((s, const(not self.truth(v, s))))
            elif name == "not" and v[0] == "op" and v[1] == "not":
                out.append((s, call(glob("builtins.bool"), (v[2],))))
            else:
                out.append((s, ("op", name, self.freeze(v, s))))
        return out

    def e_BinOp(self, n, st):
        o = BIN[type(n.op)]
        out = []
        for s, a in self.ev(n.left, st):
            for s1, b in self.ev(n.right, s):
                out.append((s1, self.binop(o, a, b, s1)))
        return out

    def binop(self, o, a, b, st):
        pa, pb = self.parts_of(a, st), self.parts_of(b, st)
        if o == "+" and (pa and pa[0] in ("list", "tuple") or pb and pb[0] in ("list", "tuple")):
            kind = (pa or pb)[0]
            parts = (list(pa[1]) if pa else [star_part(self.freeze(a, st))]) + (
                list(pb[1]) if pb else [star_part(self.freeze(b, st))])
            if kind == "tuple":
                return coll("tuple", parts)
            return self.new_ref(st, kind, parts)
        if o == "*" and (pa is None) != (pb is None):
            kind, parts = pa or pb
            n = self.freeze(b if pa else a, st)
            if kind in ("list", "tuple") and len(parts) == 1 and parts[0][0] == "item":
                if is_const(n) and isinstance(n[2], int) and 0 <= n[2] <= 8:
                    parts = parts * n[2]
                else:
                    parts = (each_part(self.norm_iter(call(glob("builtins.range"), (n,)), st)[0], self.freeze(parts[0][1], st)),)
                return coll("tuple", parts) if kind == "tuple" else self.new_ref(st, kind, parts)
        if o == "|" and (pa and pa[0] in ("dict", "set", "copy") or pb and pb[0] in ("dict", "set")):
            kind = (pa or pb)[0]
            parts = (list(pa[1]) if pa else [star_part(self.freeze(a, st))]) + (
                list(pb[1]) if pb else [star_part(self.freeze(b, st))])
            return self.new_ref(st, kind, parts)
        if is_const(a) and is_const(b) and o in "+-*" and isinstance(a[2], int) and isinstance(b[2], int):
            return const({"+": a[2] + b[2], "-": a[2] - b[2], "*": a[2] * b[2]}[o])
        return ("op", o, self.freeze(a, st), self.freeze(b, st))

    def e_Compare(self, n, st):
        names = {ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
                 ast.NotIn: "not in", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
        out = []
        for s, vals in self.ev_list([n.left] + n.comparators, st):
            fv = [self.freeze(v, s) for v in vals]
            cs = [self._cmp(names[type(o)], fv[i], fv[i + 1]) for i, o in enumerate(n.ops)]
            out.append((s, cs[0] if len(cs) == 1 else ("op", "and") + tuple(cs)))
        return out

    def _cmp(self, o, a, b):
        if o == ">":
            return ("op", "<", b, a)
        if o == ">=":
            return ("op", "<=", b, a)
        if o in ("!=", "is not", "not in"):
            return ("op", "not", ("op", {"!=": "==", "is not": "is", "not in": "in"}[o], a, b))
        return ("op", o, a, b)

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def e_Yield(self, n, st):
        out = []
        vals = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        for s, v in vals:
            fr = self.fi[s.cur]
            if fr.cont is not None:
                for s1, _ in fr.cont(s, v):
                    out.append((s1, NONE))
                continue
            if "__yields__" in s.frames[s.cur]:
                self.ref_add(s, s.frames[s.cur]["__yields__"], item_part(v))
                out.append((s, ("sent",)))
                continue
            self.event(s, "yield", (self.freeze(v, s),), n)
            self.snap(s, ("unkexc", "yield"), "yield", n)
            out.append((s, ("sent",)))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if "__yields__" in s.frames[s.cur]:
                self.ref_extend(s, s.frames[s.cur]["__yields__"], v)
            else:
                pk = self.parts_of(v, s)
                for p in (pk[1] if pk and pk[0] != "dict" else (star_part(v),)):
                    if p[0] == "each":
                        lo, gu = s.loops, s.guards
                        s.loops = lo + ((p[1], len(gu)),)
                        s.guards = gu + tuple(p[3])
                        self.event(s, "yield", (self.freeze(p[2], s),), n)
                        s.loops, s.guards = lo, gu
                    else:
                        x = self.freeze(p[1], s)
                        self.event(s, "yield", (x if p[0] == "item" else ("star", x),), n)
                self.snap(s, ("unkexc", "yield"), "yield", n)
            out.append((s, ("sent",)))
        return out

    # ---- comprehensions
    def _comp(self, n, st, kind):
        elts = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
        for e in elts:
            _mark_late(e, {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)})
        fid = self.new_id()
        fr0 = self.fi[st.cur]
        fr = FrameInfo(st.cur, fr0.module, fr0.func, fr0.cls)
        # walrus targets belong to the enclosing frame
        fr.nonlocals = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
        self.fi[fid] = fr
        outer = st.cur
        out = []

        def gens(i, s, its):
            """yield (state, its) for every path through generators i.."""
            if i == len(n.generators):
                return [(s, its)]
            g = n.generators[i]
            res = []
            for s1, it in self.ev(g.iter, s):
                src, g0 = self.norm_iter(it, s1)
                s1.loops = s1.loops + ((src, len(s1.guards)),)
                s1.guards = s1.guards + tuple(g0)
                for s2 in self.assign(g.target, self.elem(it, s1), s1, n):
                    live = [s2]
                    for c in g.ifs:
                        nxt = []
                        for s3 in live:
                            nxt.extend(s4 for s4, b in self.cond(c, s3) if b)
                        live = nxt
                    for s3 in live:
                        res.extend(gens(i + 1, s3, its + [src]))
            return res

        # a comprehension over a literal collection is unrolled exactly
        if len(n.generators) == 1:
            un = self._comp_unroll(n, st, kind, elts, fid, outer)
            if un is not None:
                return un
        base = st
        work = base.fork()
        for nm in fr.nonlocals:
            work.frames[outer].setdefault(nm, ("unk", "walrus"))
        work.frames[fid] = {}
        work.cur = fid
        ng = len(work.guards)
        ends, parts = [], []
        for s, its in gens(0, work, []):
            for s1, vs in self.ev_list(elts, s):
                fv = [self.freeze(v, s1) for v in vs]
                v = pair(*fv) if len(fv) == 2 else fv[0]
                it = its[0] if len(its) == 1 else ("prod",) + tuple(its)
                p = each_part(it, v, s1.guards[ng:])
                if p not in parts:
                    parts.append(p)
                ends.append(s1)
        for e in ends:
            self.dead[fid] = e.frames.pop(fid, None) or {}
        res = self.join(base, ends)
        res.cur = outer
        res.guards = base.guards
        res.loops = base.loops
        if kind in ("list", "set", "dict"):
            return [(res, self.new_ref(res, kind, parts))]
        return [(res, coll(kind, parts))]

    def _comp_unroll(self, n, st, kind, elts, fid, outer):
        g = n.generators[0]
        probe = self.ev(g.iter, st.fork())
        if len(probe) != 1:
            return None
        pk = self.parts_of(probe[0][1], probe[0][0])
        if not pk or not pk[1] or len(pk[1]) > 8 or not all(p[0] == "item" for p in pk[1]) or pk[0] == "set":
            return None
        (s0, it), = self.ev(g.iter, st)
        states = [(s0, [])]
        for p in pk[1]:
            x = p[1][1] if p[1][0] == "pair" else p[1]
            nxt = []
            for s, acc in states:
                s.frames[fid] = {}
                s.cur = fid
                for s1 in self.assign(g.target, x, s, n):
                    live, dead = [s1], []
                    for c in g.ifs:
                        nl = []
                        for s2 in live:
                            for s3, b in self.cond(c, s2):
                                (nl if b else dead).append(s3)
                        live = nl
                    for s2 in live:
                        for s3, vs in self.ev_list(elts, s2):
                            v = pair(self.freeze(vs[0], s3), vs[1]) if len(vs) == 2 else vs[0]
                            s3.cur = outer
                            nxt.append((s3, acc + [item_part(v)]))
                    for s2 in dead:
                        s2.cur = outer
                        nxt.append((s2, acc))
            states = nxt
        out = []
        for s, acc in states:
            self.dead[fid] = s.frames.pop(fid, None) or {}
            out.append((s, self.new_ref(s, kind, acc) if kind in ("list", "set", "dict") else coll(kind, acc)))
        return out

    def e_ListComp(self, n, st):
        return self._comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self._comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self._comp(n, st, "iter")

    def e_DictComp(self, n, st):
        return self._comp(n, st, "dict")

    # ---- calls
    def e_Call(self, n, st):
        out = []
        # zero-argument super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fid = st.cur
            while fid is not None and self.fi[fid].cls is None and self.fi[fid].parent is not None:
                fid = self.fi[fid].parent
            cls = self.fi[fid].cls if fid else None
            selfv = None
            if fid is not None and self.fi[fid].func is not None:
                a = self.fi[fid].func.node.args
                ps = a.posonlyargs + a.args
                if ps:
                    selfv = st.frames.get(fid, {}).get(ps[0].arg)
            return [(st, ("super", cls or "?", selfv or ("unk", "self")))]
        for s, f in self.ev_func(n.func, st):
            states = [(s, [], [])]
            for a in n.args:
                nxt = []
                for s1, pa, ka in states:
                    if isinstance(a, ast.Starred):
                        for s2, v in self.ev(a.value, s1):
                            pk = self.parts_of(v, s2)
                            if pk and pk[0] != "dict" and all(p[0] == "item" for p in pk[1]):
                                nxt.append((s2, pa + [p[1] for p in pk[1]], ka))
                            elif pk and pk[0] != "dict" and len(pk[1]) == 1 and pk[1][0][0] == "star":
                                nxt.append((s2, pa + [("star", pk[1][0][1])], ka))
                            elif pk and pk[0] != "dict" and all(p[0] in ("item", "star") for p in pk[1]):
                                nxt.append((s2, pa + [p[1] if p[0] == "item" else ("star", p[1]) for p in pk[1]], ka))
                            else:
                                nxt.append((s2, pa + [("star", v)], ka))
                    else:
                        for s2, v in self.ev(a, s1):
                            nxt.append((s2, pa + [v], ka))
                states = nxt
            for k in n.keywords:
                nxt = []
                for s1, pa, ka in states:
                    for s2, v in self.ev(k.value, s1):
                        if k.arg is None:
                            pk = self.parts_of(v, s2)
                            if pk and pk[0] == "dict" and all(p[0] == "item" and p[1][0] == "pair" and is_const(p[1][1]) for p in pk[1]):
                                nxt.append((s2, pa, ka + [(p[1][1][2], p[1][2]) for p in pk[1]]))
                            elif pk and len(pk[1]) == 1 and pk[1][0][0] == "star":
                                nxt.append((s2, pa, ka + [(None, pk[1][0][1])]))
                            else:
                                nxt.append((s2, pa, ka + [(None, v)]))
                        else:
                            nxt.append((s2, pa, ka + [(k.arg, v)]))
                states = nxt
            for s1, pa, ka in states:
                out.extend(self.apply(f, pa, ka, s1, n))
        if len(out) > self.limit:
            raise Limit("call paths")
        return out

    def ev_func(self, n, st):
        if isinstance(n, ast.Attribute):
            out = []
            for s, b in self.ev(n.value, st):
                if b[0] in ("ref", "super") or (self.type_of(b) and b[0] != "glob"):
                    if (b, n.attr) in s.attrs:
                        out.append((s, self._known(s.attrs[(b, n.attr)])))
                    else:
                        out.append((s, ("attr", b, n.attr)))
                else:
                    out.append((s, self.get_attr(b, n.attr, s)))
            return out
        return self.ev(n, st)

    def type_of(self, v):
        if v in self.types:
            return self.types[v]
        if v[0] == "call" and v[1][0] == "glob" and v[1][1] in self.p.classes:
            return v[1][1]
        return None

    def should_inline(self, fi):
        if fi.qual in self.opaque:
            return False
        for d in fi.decorators:
            nm = (dotted(d.func if isinstance(d, ast.Call) else d) or "?").split(".")[-1]
            if nm not in ("wraps", "staticmethod", "classmethod", "contextmanager", "property", "cached_property", "cache", "override", "no_type_check"):
                return False
        if self.inline_pred is not None:
            return bool(self.inline_pred(fi))
        return True

    def _kept(self, st, what):
        """What some closures assign or fill may have been, once they can be called from elsewhere."""
        for w in what:
            if w[0] == "name":
                v = st.frames.get(w[1], {}).get(w[2])
                if v is not None and v[0] != "kept":
                    st.frames[w[1]][w[2]] = ("kept", self.freeze(v, st))
            elif w[1] in st.heap:
                kind, parts, depth = st.heap[w[1]]
                if star_part(KEPT) not in parts:
                    st.heap[w[1]] = (kind, parts + (star_part(KEPT),), depth)

    def _changed_by(self, cid, st):
        """The variables and containers around a closure that calling it changes."""
        known = self._changed.get(cid)
        if known is not None:
            return known
        self._changed[cid] = ()
        node, parent = self.closures[cid][:2]
        names, fids = {}, set()
        f = parent
        while f is not None:
            fids.add(f)
            for n, v in st.frames.get(f, {}).items():
                names.setdefault(n, v)
            f = self.fi[f].parent
        fns, used, todo = set(), set(), [node]
        while todo:
            n = todo.pop()
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id not in used and x.id in names:
                    used.add(x.id)
                    v = names[x.id]
                    if v[0] == "fn" and v[1] in self.closures and v[1] not in fns:
                        fns.add(v[1])
                        todo.append(self.closures[v[1]][0])
                elif isinstance(x, ast.Nonlocal):
                    used.update(("=", y) for y in x.names)
        refs = {names[n][1] for n in used if isinstance(n, str) and names[n][0] == "ref"
                and st.heap.get(names[n][1], ("",))[0] in ("list", "dict", "set")}
        assigned = [n[1] for n in used if isinstance(n, tuple)]
        if not refs and not assigned:
            return ()
        out = set()
        for n in assigned:
            f = parent
            while f is not None and n not in st.frames.get(f, ()):
                f = self.fi[f].parent
            if f is not None:
                out.add(("name", f, n))
        if refs:
            stack, nlog = self.exc_stack, (len(self.cleanups), len(self.catches))
            self.exc_stack = []
            try:
                r = self.call_closure(st, ("fn", cid), exc=False)
                for o in r.outcomes:
                    out.update(("ref", x) for x in refs if o.state.heap.get(x, st.heap[x])[1] != st.heap[x][1])
            finally:
                self.exc_stack = stack
                self._unlog(len(stack[-1]) if stack else 0, nlog)
        self._changed[cid] = tuple(sorted(out, key=str))
        return self._changed[cid]

    def _escaped(self, st, data):
        """What may have been changed by closures other code has been given so far."""
        seen, memo = set(), set()
        for d in data:
            for x in walk(d[1:] if d[0][:1] == ("fn",) else d, memo):  # calling it is not giving it away
                if x[:1] == ("fn",) and len(x) == 2 and x[1] in self.closures:
                    seen.add(x[1])
        out = set()
        for c in seen:
            out.update(self._changed_by(c, st))
        return out

    def opaque_call(self, f, args, kwargs, st, node):
        self.visited_calls += 1
        fa = tuple(("star", self.freeze(a[1], st)) if a[0] == "star" else self.freeze(a, st) for a in args)
        fk = tuple(sorted(((k, self.freeze(v, st)) for k, v in kwargs), key=lambda kv: (kv[0] is None, str(kv[0]))))
        ff = self.freeze(f, st)
        if ff[0] == "glob" and ff[1] in GIVES_BACK and len(fa) == 1 and not fk and fa[0][0] != "star":
            self.event(st, "call", (ff, fa, fk), node)
            return [(st, args[0])]
        again = ff[0] == "glob" and ff[1].startswith("effectful.") and self._again(st, (ff, fa, fk))
        given = self._escaped(st, [(ff, fa, fk)] + [e.data for e in st.events if e.kind in ("enter", "call")]) if self.closures else ()
        self.event(st, "call", (ff, fa, fk), node)
        if given:
            self._kept(st, given)
        if st.attrs and ff[0] in ("attr", "glob"):
            for x in fa + tuple(v for _, v in fk) + ((ff[1],) if ff[0] == "attr" else ()):
                self._forget(st, x)
        if ff == ("glob", "builtins.exec"):
            for a, v in zip(args[1:3], fa[1:3]):
                # what is executed may bind any name
                if a[0] == "ref" and st.heap.get(a[1], ("",))[0] in ("dict", "copy"):
                    h = st.heap[a[1]]
                    st.heap[a[1]] = ("dict", (star_part(("op", "executed", fa[0], v)),), h[2])
        if (self.exc or self.in_try()) and not again:
            self.snap(st, ("unkexc", "call", ff), "call", node)
        return [(st, ("call", ff, fa, fk))]

    def _again(self, st, data):
        """Has this try made the same call before, with the same handlers in force?"""
        for e in reversed(st.events[self._try_from[-1]:] if self._try_from else ()):
            if e.kind in ("enter", "exit"):
                return False
            if e.kind == "call" and e.data == data:
                return True
        return False

    def apply(self, f, args, kwargs, st, node):
        t = f[0]
        if t == "gen":
            f = f[1]
            t = f[0]
        if t == "partial":
            kw = dict(f[3])
            extra = [(k, v) for k, v in kwargs]
            names = {k for k, _ in extra if k}
            merged = [(k, v) for k, v in f[3] if k not in names] + extra
            return self.apply(f[1], list(f[2]) + list(args), merged, st, node)
        if t == "phi" and len(f[1]) <= 4:
            out = []
            for x in f[1]:
                out.extend(self.apply(x, list(args), list(kwargs), st.fork(), node))
            return out
        if t == "fn":
            node_, parent, module, finfo, defaults = self.closures[f[1]]
            if len(st.stack) < self.maxdepth + 3 and st.stack.count(("c", f[1])) < 1:
                return self.inline_call(finfo, args, kwargs, st, node, parent=parent, fnnode=node_, defaults=defaults, key=("c", f[1]))
            return self.opaque_call(f, args, kwargs, st, node)
        if f == EVALUATE and len(args) == 1 and args[0][0] != "star" and len(kwargs) == 1 and kwargs[0][0] == "intp" and self.freeze(kwargs[0][1], st)[0] in ("coll", "lam"):
            return self.apply(call(call(INTERPRETER, (self.freeze(kwargs[0][1], st),)), (f,)), args, [], st, node)
        if t == "glob":
            b = self.builtin(f[1], args, kwargs, st, node)
            if b is not None:
                return b
            fi = self.p.funcs.get(f[1])
            if fi is not None and self.should_inline(fi) and not self._is_method_unbound(fi) and fi.qual not in st.stack and len(st.stack) < self.maxdepth and not _is_cm(fi):
                if self._is_classm(fi):
                    args = [glob(fi.cls.qual)] + list(args)
                return self.inline_call(fi, args, kwargs, st, node)
            return self.opaque_call(f, args, kwargs, st, node)
        if t == "call" and self._is_cm_call(f) and len(args) == 1 and not kwargs and args[0][0] != "star":
            return [(st, call(f, (args[0],)))]
        if t == "call" and f[1][0] == "call" and self._is_cm_call(f[1]) and len(f[2]) == 1 and not f[3]:
            fcm = self.freeze(f[1], st)
            self.event(st, "enter", (fcm,), node)
            out = []
            self.exc_stack.append([])
            res = self.apply(f[2][0], args, kwargs, st, node)
            snaps = self.exc_stack.pop()
            for s2, v in res:
                self.event(s2, "exit", (fcm, const("normal")), node)
                out.append((s2, v))
            for s2, v, why, nd in snaps:
                self.event(s2, "exit", (fcm, const("raise")), nd)
                if self.exc_stack:
                    self.exc_stack[-1].append((s2, v, why, nd))
            return out
        if t == "call" and f[1] == ("glob", "functools.wraps") and len(args) == 1 and args[0][0] == "fn" and f[2]:
            node_, parent, module, finfo, defaults = self.closures[args[0][1]]
            cid = self.new_id()
            self.closures[cid] = (node_, parent, module, finfo, defaults)
            self.wraps[cid] = f[2][0]
            return [(st, ("fn", cid))]
        if t == "attr":
            obj, name = f[1], f[2]
            if obj[0] == "ref":
                r = self.ref_method(obj, name, args, kwargs, st, node)
                if r is not None:
                    return r
            if obj[0] == "super":
                fi = self._super_method(obj, name)
                if fi is not None and self.should_inline(fi) and fi.qual not in st.stack and len(st.stack) < self.maxdepth:
                    return self.inline_call(fi, [obj[2]] + list(args), kwargs, st, node)
                return self.opaque_call(f, args, kwargs, st, node)
            ty = self.type_of(obj)
            if ty:
                fi = self.p.find_method(ty, name)
                if fi is not None and self.should_inline(fi) and fi.qual not in st.stack and len(st.stack) < self.maxdepth and not _is_cm(fi):
                    pre = [] if self._is_static(fi) or self._class_itself(obj, st) and not self._is_classm(fi) else [obj]
                    return self.inline_call(fi, pre + list(args), kwargs, st, node)
            if name == "copy" and not args and not kwargs:
                return [(st, self.new_ref(st, "copy", [star_part(self.freeze(obj, st))]))]
            if name == "update" and obj[0] in ("param", "attr", "item", "elem"):
                es = self.entries(args, kwargs, st)
                if es:
                    for k, v in es:
                        self.set_item(obj, k, v, st, node)
                    return [(st, NONE)]
            if name == "join" and obj[0] == "const" and isinstance(obj[2], str) and len(args) == 1 and not kwargs:
                pk = self.parts_of(args[0], st)
                if pk and pk[0] != "set" and all(p[0] == "item" and p[1][0] == "const" and isinstance(p[1][2], str) for p in pk[1]):
                    return [(st, const(obj[2].join(p[1][2] for p in pk[1])))]
            if name == "get" and len(args) in (1, 2) and not kwargs:
                pk = self.parts_of(obj, st)
                # leave unknown mappings as call values
        return self.opaque_call(f, args, kwargs, st, node)

    def _is_method_unbound(self, fi):
        return False

    def _is_cm_call(self, f):
        if f[0] != "call" or f[1][0] != "glob":
            return False
        fi = self.p.funcs.get(f[1][1])
        return fi is not None and _is_cm(fi)

    def _is_classm(self, fi):
        return fi.cls is not None and any((dotted(d) or "").split(".")[-1] == "classmethod" for d in fi.decorators)

    def _class_itself(self, v, st):
        """Is this the first parameter of a class method?"""
        return v in self.class_vals

    def _super_method(self, sv, name):
        cls = sv[1]
        t = self.type_of(sv[2]) or cls
        mro = self.p.mro(t)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        for q in mro:
            c = self.p.classes.get(q)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def inline_call(self, fi, args, kwargs, st, node, parent=None, fnnode=None, defaults=None, key=None,
                    cont=None, rawresult=False):
        fnode = fnnode or fi.node
        self.inlined.add(fi.qual)
        caller = st.cur
        fid = self.new_id()
        cls = fi.cls.qual if fi.cls else None
        fr = FrameInfo(parent, fi.module, fi, cls)
        self.fi[fid] = fr
        st.stack = st.stack + (key or fi.qual,)
        if defaults is None:
            save = st.cur
            tmp = self.new_id()
            self.fi[tmp] = FrameInfo(None, fi.module, None)
            st.frames[tmp] = {}
            st.cur = tmp
            ds = self.eval_defaults(fnode.args, st)
            st, defaults = ds[0]
            st.cur = save
            st.frames.pop(tmp, None)
        bound = self.bind(fnode.args, args, kwargs, defaults, st)
        st.frames[fid] = bound
        st.cur = fid
        if cls and not self._is_static(fi) and args:
            pos = fnode.args.posonlyargs + fnode.args.args
            if pos and self.type_of(args[0]) is None and args[0][0] != "glob":
                self.types.setdefault(args[0], cls)
                if self._is_classm(fi) or fi.name in ("__new__", "__init_subclass__", "__class_getitem__"):
                    self.class_vals.add(args[0])
        isgen = not isinstance(fnode, ast.Lambda) and _is_generator(fnode)
        if cont is not None:
            fr.cont = cont
        elif isgen:
            bound["__yields__"] = self.new_ref(st, "iter", [])
        self.exc_stack.append([])
        if isinstance(fnode, ast.Lambda):
            res = [(s1, ("return", v1, fnode)) for s, v in self.ev(fnode.body, st) for s1, v1 in self.boolfork(v, s)]
        else:
            res = self.block(fnode.body, st)
        snaps = self.exc_stack.pop()
        for s, v, why, nd in snaps:
            s.cur = caller
            s.stack = s.stack[: len(st.stack) - 1] if False else s.stack
            if self.exc_stack:
                self.exc_stack[-1].append((s, v, why, nd))
        out = []
        depth = None
        for s, sig in res:
            s.cur = caller
            s.stack = _pop_stack(s.stack, key or fi.qual)
            if sig is not None and sig[0] == "raise":
                if self.exc_stack:
                    self.exc_stack[-1].append((s, sig[1], "explicit", sig[2]))
                continue
            if rawresult:
                out.append((s, sig, fid))
                continue
            if isgen:
                y = s.frames[fid]["__yields__"]
                h = s.heap[y[1]]
                out.append((s, coll("iter", h[1])))
                continue
            v = sig[1] if sig is not None else NONE
            out.append((s, v))
        for s, *_ in out:
            s.stack = tuple(x for x in s.stack)
        return out

    def bind(self, a, args, kwargs, defaults, st):
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        dpos = dict(zip(pos[len(pos) - nd:], defaults[:nd])) if nd else {}
        dkw = {x.arg: d for x, d in zip(a.kwonlyargs, defaults[nd:])}
        kw = {k: v for k, v in kwargs if k is not None}
        dstars = [v for k, v in kwargs if k is None]
        args = list(args)
        i = 0
        star_seen = None
        rest = []
        names = list(pos)
        ai = 0
        while ai < len(args):
            x = args[ai]
            if x[0] == "star":
                if i < len(names):
                    star_seen = x[1]
                    # following positional parameters come out of the starred value
                    j = 0
                    while i < len(names) and names[i] not in kw:
                        env[names[i]] = ("item", self.freeze(x[1], st), const(j))
                        i += 1
                        j += 1
                    rest.append(star_part(("item", self.freeze(x[1], st), ("slice", const(j), NONE, NONE)) if j else x[1]))
                else:
                    rest.append(star_part(x[1]))
            elif i < len(names):
                env[names[i]] = x
                i += 1
            else:
                rest.append(item_part(x))
            ai += 1
        for nme in pos:
            if nme in env:
                kw.pop(nme, None)
                continue
            if nme in kw:
                env[nme] = kw.pop(nme)
            elif dstars:
                d = dpos.get(nme)
                it = ("item", self.freeze(dstars[0], st), const(nme))
                env[nme] = phi([it, d]) if d is not None else it
            elif nme in dpos and dpos[nme] is not None:
                env[nme] = dpos[nme]
            else:
                env[nme] = ("unk", "unbound", const(nme))
        if a.vararg:
            if len(rest) == 1 and rest[0][0] == "star":
                env[a.vararg.arg] = rest[0][1]
            else:
                env[a.vararg.arg] = coll("tuple", rest)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif dkw.get(x.arg) is not None:
                env[x.arg] = dkw[x.arg]
            else:
                env[x.arg] = ("unk", "unbound", const(x.arg))
        if a.kwarg:
            if not kw and len(dstars) == 1:
                env[a.kwarg.arg] = dstars[0]
            else:
                env[a.kwarg.arg] = self.new_ref(st, "dict", [item_part(pair(const(k), v)) for k, v in kw.items()] + [star_part(d) for d in dstars])
        return env

    # ---- models
    def ref_method(self, ref, name, args, kwargs, st, node):
        kind, parts, d = st.heap[ref[1]]
        if name == "append" or name == "add" or name == "appendleft":
            if len(args) == 1:
                if name == "appendleft":
                    st.heap[ref[1]] = (kind, (item_part(args[0]),) + parts, d)
                else:
                    self.ref_add(st, ref, item_part(args[0]))
                self.event(st, "mutate_local", (ref, const(name)), node)
                return [(st, NONE)]
        if name == "insert" and len(args) == 2:
            if is_const(args[0], 0) and len(st.loops) == d:
                st.heap[ref[1]] = (kind, (item_part(args[1]),) + parts, d)
            else:
                self.ref_add(st, ref, item_part(args[1]))
            return [(st, NONE)]
        if name == "extend" and len(args) == 1:
            self.ref_extend(st, ref, args[0])
            return [(st, NONE)]
        if name == "update":
            for a in args:
                pk = self.parts_of(a, st)
                if pk and pk[0] in ("dict", "set", "list", "tuple", "iter"):
                    for p in pk[1]:
                        if kind in ("dict", "copy") and p[0] in ("item", "each"):
                            v = p[1] if p[0] == "item" else p[2]
                            if v[0] != "pair":
                                k2 = self.get_item(v, const(0), st)
                                v2 = self.get_item(v, const(1), st)
                                p = ("item", pair(k2, v2)) if p[0] == "item" else ("each", p[1], pair(k2, v2), p[3])
                        self.ref_add(st, ref, p)
                else:
                    self.ref_add(st, ref, star_part(self.freeze(a, st)))
            for k, v in kwargs:
                self.ref_add(st, ref, star_part(v) if k is None else item_part(pair(const(k), v)))
            return [(st, NONE)]
        if name == "setdefault" and len(args) == 2:
            cur = self.get_item(ref, args[0], st)
            fk = self.freeze(args[0], st)
            there = self._cmp("in", fk, self.freeze(ref, st))
            p = item_part(pair(fk, args[1]))
            if len(st.loops) == d:
                # what is there takes precedence
                st.heap[ref[1]] = (kind, (p,) + parts, d)
            elif not is_const(there):
                st2 = st.fork()
                st2.guards = st.guards + ((there, False),)
                self.ref_add(st2, ref, p)
                st.heap[ref[1]] = st2.heap[ref[1]]
            return [(st, phi([cur, args[1]]))]
        if name == "clear":
            if len(st.loops) == d:
                st.heap[ref[1]] = (kind, (), d)
            else:
                self.ref_did(st, ref, name, args)
            return [(st, NONE)]
        if name == "copy" and not args:
            return [(st, self.new_ref(st, kind, parts))]
        if name == "pop":
            fz = self.freeze(ref, st)
            if kind in ("dict", "copy") and args:
                v = self.get_item(ref, args[0], st)
                self._ref_del(st, ref, self.freeze(args[0], st))
                self.event(st, "pop_local", (ref, self.freeze(args[0], st)), node)
                return [(st, phi([v] + list(args[1:])))]
            if kind in ("list", "iter") and parts and all(p[0] == "item" for p in parts) and len(st.loops) == d:
                k = args[0][2] if args and is_const(args[0]) and isinstance(args[0][2], int) else (-1 if not args else None)
                if k is not None and -len(parts) <= k < len(parts):
                    v = parts[k][1]
                    lst = list(parts)
                    del lst[k]
                    st.heap[ref[1]] = (kind, tuple(lst), d)
                    return [(st, v)]
            v = self.elem(ref, st)
            self.ref_did(st, ref, name, args)
            return [(st, v)]
        if name in ("items", "keys", "values"):
            return [(st, ("call", ("attr", self.freeze(ref, st), name), (), ()))]
        if name == "get" and args and kind == "dict" and not parts and len(st.loops) == d:
            return [(st, args[1] if len(args) > 1 else NONE)]
        if name == "get" and args and kind == "dict":
            v = self.get_item(ref, args[0], st)
            if v[0] in ("phi", "item") and parts and not is_const(args[0]):
                return [(st, call(("attr", self.freeze(ref, st), "get"), tuple(self.freeze(a, st) for a in args)))]
            return [(st, phi([v] + list(args[1:2] or [NONE])))] if v[0] == "item" else [(st, v)]
        if name in ("sort", "reverse"):
            self.event(st, "mutate_local", (ref, const(name)), node)
            if len(parts) > 1 or parts and parts[0][0] != "item":
                self.ref_did(st, ref, name, args, kwargs)
            elif name == "reverse" or not kwargs:
                st.heap[ref[1]] = (kind, parts[::-1], d)
            return [(st, NONE)]
        return None

    def ref_did(self, st, ref, name, args, kwargs=()):
        """A change of a container in place that is not an addition."""
        kind, parts, d = st.heap[ref[1]]
        before = self.freeze(coll(kind, parts), st)
        loops = st.loops[d:]
        fa = tuple(self.freeze(a, st) for a in args)
        if loops:
            it = loops[0][0] if len(loops) == 1 else ("prod",) + tuple(l[0] for l in loops)
            v = ("op", "did", const(name), before, coll("tuple", [item_part(a) for a in fa]), coll("list", [each_part(it, NONE, st.guards[loops[0][1]:])]))
        elif name == "sort":
            v = ("call", glob("builtins.sorted"), (before,), tuple((k, self.freeze(x, st)) for k, x in kwargs))
        elif name == "reverse":
            v = ("call", glob("builtins.reversed"), (before,), ())
        else:
            v = ("op", "did", const(name), before) + fa
        st.heap[ref[1]] = (kind, (star_part(v),), d)

    def to_coll(self, v, kind, st, fresh=True):
        pk = self.parts_of(v, st)
        fv = self.freeze(v, st)
        if pk and not (kind == "dict") and pk[0] != "dict":
            parts = list(pk[1])
        elif pk and kind == "dict" and pk[0] in ("dict", "copy"):
            parts = list(pk[1])
        elif pk and kind == "dict":
            parts = []
            for p in pk[1]:
                if p[0] == "star":
                    parts.append(p)
                    continue
                x = p[1] if p[0] == "item" else p[2]
                pr = x if x[0] == "pair" else pair(self.get_item(x, const(0), st), self.get_item(x, const(1), st))
                parts.append(("item", pr) if p[0] == "item" else ("each", p[1], pr, p[3]))
        elif kind == "dict" and fv[0] == "call" and fv[1] == ("glob", "builtins.zip") and len(fv[2]) == 2 and all(a[0] != "star" for a in fv[2]):
            a, b = fv[2]
            src, g = self.norm_iter(a, st)
            parts = [each_part(src, pair(self.elem(a, st), self.elem(b, st)), g)]
        elif kind == "dict" and fv[0] == "call" and fv[1][0] == "attr" and fv[1][2] == "items" and not fv[2]:
            return self.to_coll(fv[1][1], "dict", st)
        elif pk and pk[0] == "dict":
            parts = []
            for p in pk[1]:
                if p[0] == "item":
                    parts.append(item_part(p[1][1]))
                elif p[0] == "each":
                    parts.append(each_part(p[1], p[2][1] if p[2][0] == "pair" else p[2], p[3]))
                else:
                    parts.append(p)
        elif fv[0] == "call" and fv[1][0] == "glob" and fv[1][1] in ("builtins.zip", "builtins.enumerate") or (
                fv[0] == "call" and fv[1][0] == "attr" and fv[1][2] in ("items", "values") and not fv[2]):
            src, g = self.norm_iter(fv if fv[1][0] != "glob" or fv[1][1] != "builtins.zip" else fv[2][0] if fv[2] and fv[2][0][0] != "star" else fv, st)
            parts = [each_part(src, self.elem(fv, st), g)]
        else:
            parts = [star_part(fv)]
        if kind in ("list", "set", "dict"):
            return self.new_ref(st, kind, parts)
        return coll(kind, parts)

    def display(self, it, st):
        """The elements of a collection written out in full, if it is a short one."""
        pk = self.parts_of(it, st)
        if not pk or not pk[1] or len(pk[1]) > 8 or pk[0] == "set" or not all(p[0] == "item" for p in pk[1]):
            return None
        return [p[1][1] if p[1][0] == "pair" else p[1] for p in pk[1]]

    def map_over(self, f, its, st, node, kind="iter"):
        """[f(x...) for x... in zip(its)] as a collection."""
        base = st
        elts = self.display(its[0], st) if len(its) == 1 else None
        if elts is not None:
            live = [(st, [])]
            for x in elts:
                live = [(s1, acc + [item_part(v)]) for s, acc in live for s1, v in self.apply(f, [x], [], s, node)]
            return [(s, coll(kind, acc)) for s, acc in live]
        work = base.fork()
        src, g0 = self.norm_iter(its[0], work)
        work.loops = work.loops + ((src, len(work.guards)),)
        work.guards = work.guards + tuple(g0)
        ng = len(base.guards)
        args = [self.elem(i, work) for i in its]
        parts, ends = [], []
        for s, v in self.apply(f, args, [], work, node):
            p = each_part(src, self.freeze(v, s), s.guards[ng:])
            if p not in parts:
                parts.append(p)
            ends.append(s)
        res = self.join(base, ends)
        res.guards, res.loops, res.cur = base.guards, base.loops, base.cur
        return [(res, coll(kind, parts))]

    def builtin(self, q, args, kwargs, st, node):
        n = q.split(".")
        if n[-1] == "copy" and not args and not kwargs and len(n) > 2 and self.p.funcs.get(q) is None:
            return [(st, self.new_ref(st, "copy", [star_part(glob(".".join(n[:-1])))]))]
        if q in ("typing.cast", "typing_extensions.cast") and len(args) == 2:
            return [(st, args[1])]
        if q in ("copy.copy",) and len(args) == 1:
            return [(st, self.new_ref(st, "copy", [star_part(self.freeze(args[0], st))]))]
        if q == "functools.partial" and args and args[0][0] != "star":
            return [(st, ("partial", args[0], tuple(args[1:]), tuple(kwargs)))]
        if n[0] == "operator" and len(n) == 2 and n[1] in OPERATOR and not kwargs and args and all(a[0] != "star" for a in args):
            o = OPERATOR[n[1]]
            fa = [self.freeze(a, st) for a in args]
            if o in ("!=", "is not", ">", ">="):
                return [(st, self._cmp(o, *fa))]
            return [(st, ("op", o) + tuple(fa))]
        if n[0] != "builtins":
            if q == "functools.reduce" and len(args) >= 2:
                src, g0 = self.norm_iter(args[1], st)
                init = args[2] if len(args) > 2 else self.elem(args[1], st)
                base = st
                work = st.fork()
                work.loops = work.loops + ((src, len(work.guards)),)
                ends, vals = [], [self.freeze(init, st)]
                mark = ("carry", vals[0])
                for s, v in self.apply(args[0], [mark, self.elem(args[1], work)], [], work, node):
                    ends.append(s)
                    vals.append((self.freeze(v, s), [s.guards[len(base.guards):]] if s.guards[:len(base.guards)] == base.guards else None))
                res = self.join(base, ends)
                res.guards, res.loops, res.cur = base.guards, base.loops, base.cur
                return [(res, self._mu(src, mark, vals[1:]))]
            if q == "itertools.chain" and not kwargs:
                parts = []
                for a in args:
                    if a[0] == "star":
                        parts.append(each_part(self.freeze(a[1], st), self.elem(self.elem(a[1], st), st)))
                        continue
                    pk = self.parts_of(a, st)
                    parts += list(pk[1]) if pk and pk[0] != "dict" else [star_part(self.freeze(a, st))]
                return [(st, coll("iter", parts))]
            if q in ("collections.OrderedDict",) and not args and not kwargs:
                return [(st, self.new_ref(st, "dict", []))]
            if q == "collections.OrderedDict" and len(args) == 1 and not kwargs and args[0][0] != "star":
                return [(st, self.to_coll(args[0], "dict", st))] if self.parts_of(args[0], st) else [
                    (st, self.new_ref(st, "copy", [star_part(self.freeze(args[0], st))]))]
            if q == "collections.defaultdict" and len(args) <= 1 and not kwargs:
                return [(st, self.new_ref(st, "dict", []))]
            return None
        b = n[1]
        if any(a[0] == "star" for a in args):
            return None
        if n[1:] == ["dict", "fromkeys"] and len(args) in (1, 2) and not kwargs:
            v = self.freeze(args[1], st) if len(args) == 2 else NONE
            if v[0] in ("const", "param", "glob") or v[0] == "coll" and v[1] in ("tuple", "frozenset"):
                src, g = self.norm_iter(args[0], st)
                return [(st, self.new_ref(st, "dict", [each_part(src, pair(self.elem(args[0], st), v), g)]))]
        if len(n) > 2:
            return None
        if b in ("list", "tuple", "set", "frozenset") and len(args) <= 1 and not kwargs:
            if not args:
                return [(st, self.new_ref(st, b, []) if b in ("list", "set") else coll(b, ()))]
            if args[0][0] == "phi":
                return None
            if b == "tuple" and args[0][0] == "param" and args[0][1].startswith("*") and not args[0][1].startswith("**"):
                return [(st, args[0])]
            return [(st, self.to_coll(args[0], b, st))]
        if b == "iter" and len(args) == 1:
            return [(st, args[0])]
        if b == "dict":
            if len(args) <= 1:
                r = self.to_coll(args[0], "dict", st) if args else self.new_ref(st, "dict", [])
                for k, v in kwargs:
                    self.ref_add(st, r, star_part(self.freeze(v, st)) if k is None else item_part(pair(const(k), v)))
                return [(st, r)]
        if b == "map" and len(args) >= 2:
            return self.map_over(args[0], args[1:], st, node)
        if b == "filter" and len(args) == 2:
            elts = self.display(args[1], st)
            if elts is not None:
                live = [(st, [])]
                for x in elts:
                    nxt = []
                    for s, acc in live:
                        for s1, v in [(s, x)] if is_const(args[0], None) else self.apply(args[0], [x], [], s, node):
                            nxt.extend((s2, acc + [item_part(x)] if t else acc) for s2, t in self.branch(v, s1))
                    live = nxt
                return [(s, coll("iter", acc)) for s, acc in live]
            base, work = st, st.fork()
            src, g0 = self.norm_iter(args[1], work)
            work.loops = work.loops + ((src, len(work.guards)),)
            work.guards = work.guards + tuple(g0)
            x = self.elem(args[1], work)
            parts, ends = [], []
            rs = [(work, x)] if is_const(args[0], None) else self.apply(args[0], [x], [], work, node)
            for s, v in rs:
                for s1, t in self.branch(v, s):
                    ends.append(s1)
                    if t:
                        parts.append(each_part(src, self.freeze(x, s1), s1.guards[len(base.guards):]))
            res = self.join(base, ends)
            res.guards, res.loops, res.cur = base.guards, base.loops, base.cur
            return [(res, coll("iter", parts))]
        if b == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][2], str):
            v = self.get_attr(args[0], args[1][2], st)
            if len(args) == 2:
                if self.in_try():
                    self.snap(st, ("unkexc", "attr"), "attr", node)
                return [(st, v)]
            return [(st, phi([v, args[2]]))]
        if b == "setattr" and len(args) == 3 and is_const(args[1]):
            self.event(st, "setattr", tuple(self.freeze(a, st) for a in args[:2]) + (self.late(args[2], st),), node)
            st.attrs[(args[0], args[1][2])] = args[2]
            return [(st, NONE)]
        if b in ("any", "all", "len", "isinstance", "issubclass", "hasattr", "callable", "type", "bool", "str", "repr", "id", "hash",
                 "enumerate", "zip", "range", "reversed", "sorted", "min", "max", "sum", "next", "abs", "int", "float", "object"):
            fa = tuple(self.freeze(a, st) for a in args)
            fk = tuple((k, self.freeze(v, st)) for k, v in kwargs)
            if b == "zip":
                self.event(st, "zip", (fa, any(k == "strict" and is_const(v, True) for k, v in fk)), node)
            if b == "next" and len(fa) == 2 and not fa[1][0] == "star" and fa[0][0] == "coll" and fa[0][2] and not kwargs \
                    and all(p[0] == "each" and p[1:3] == fa[0][2][0][1:3] for p in fa[0][2]):
                p = fa[0][2][0]
                return [(s1, p[2] if t else args[1]) for s1, t in self.branch(some_atom(p[1], *[x[3] for x in fa[0][2]]), st)]
            if b in ("next",) and (self.exc or self.in_try()):
                self.snap(st, ("unkexc", "call", glob(q)), "call", node)
            if b == "len" and fa:
                pk = fa[0][0] == "coll" and all(p[0] == "item" and p[1][:2] not in (("op", "at"), ("op", "del")) for p in fa[0][2])
                if pk:
                    return [(st, const(len(fa[0][2])))]
                if fa[0][0] == "coll" and len(fa[0][2]) == 1 and fa[0][2][0][0] == "star" and fa[0][1] in ("list", "tuple", "copy"):
                    fa = (fa[0][2][0][1],)
            if b in ("any", "all") and len(fa) == 1 and fa[0][0] == "coll" and all(p[0] == "item" for p in fa[0][2]):
                return self._anyall(b, [p[1] for p in fa[0][2]], st)
            if b in ("any", "all") and len(fa) == 1 and fa[0][0] != "star":
                src = fa[0]
                if src[0] == "coll" and len(src[2]) == 1 and src[2][0][0] == "star":
                    src = src[2][0][1]
                if src[0] not in ("coll", "unk", "const"):
                    src = coll("iter", (("each", src, ("elem", src), ()),))
                parts = _norm_anyall(b, src)
                if parts is not None:
                    if not parts:
                        return [(st, const(b == "all"))]
                    v = call(glob("builtins.any"), (coll("iter", tuple(parts)),))
                    if len(parts) == 1 and not parts[0][3]:
                        v = parts[0][1]
                    return [(st, v if b == "any" else ("op", "not", v))]
            return [(st, ("call", glob(q), fa, fk))]
        return None

    def _anyall(self, b, vals, st):
        want = b == "any"
        live, out = [st], []
        for v in vals:
            nxt = []
            for s in live:
                for s1, t in self.branch(v, s):
                    if t == want:
                        out.append((s1, const(want)))
                    else:
                        nxt.append(s1)
            live = nxt
        return out + [(s, const(not want)) for s in live]


# ---------------------------------------------------------------------- module helpers
BOOL_CALLS = {"any", "all", "isinstance", "issubclass", "hasattr", "callable", "bool"}

BOOL_METHODS = {"startswith", "endswith", "isidentifier", "isdigit", "isalpha", "isalnum", "isspace", "issubset", "issuperset", "isdisjoint"}


def _is_boolean(v):
    if v[0] == "op":
        return v[1] in ("not", "is", "in", "==", "<", "<=", "is not", "not in", "!=")
    if v[0] != "call":
        return False
    if v[1][0] == "attr":
        return v[1][2] in BOOL_METHODS
    if v[1][0] != "glob":
        return False
    m, _, n = v[1][1].rpartition(".")
    return m == "builtins" and n in BOOL_CALLS or m == "inspect" and n.startswith("is") or v[1][1] in (
        "typing.is_typeddict", "typing.is_protocol", "dataclasses.is_dataclass", "keyword.iskeyword", "keyword.issoftkeyword",
        "math.isnan", "math.isinf", "math.isfinite", "math.isclose", "os.path.exists", "os.path.isfile", "os.path.isdir")


class _D:
    lineno = 0


_dummy = _D()


def _named(node):
    if not hasattr(node, "name"):
        node.name = "<lambda>"
    return node


def member_atoms(lit):
    """`x in (a, b)` as the comparisons it stands for, when the members are names and constants."""
    if lit[0] == "op" and lit[1] == "in" and lit[3][0] == "coll" and lit[3][1] in ("tuple", "list", "set", "frozenset") and 0 < len(lit[3][2]) <= 8 \
            and all(p[0] == "item" and p[1][0] in ("const", "glob") for p in lit[3][2]):
        return [("op", "==", lit[2], p[1]) for p in lit[3][2]]
    return None


def lit_alts(v, want):
    """Guard tuples under which v has truth value `want` (a disjunction)."""
    if is_const(v):
        return [()] if bool(v[2]) == want else []
    lit, pol = cond_literal(v)
    if is_const(lit):
        return [()] if (bool(lit[2]) == pol) == want else []
    if lit[0] == "call" and lit[1] in (("glob", "builtins.isinstance"), ("glob", "builtins.issubclass")) and len(lit[2]) == 2:
        cs = _class_alts(lit[2][1])
        if len(cs) > 1:
            atoms = [call(lit[1], (lit[2][0], c)) for c in cs]
            if pol == want:
                return [tuple((x, False) for x in atoms[:i]) + ((a, True),) for i, a in enumerate(atoms)]
            return [tuple((x, False) for x in atoms)]
    ms = member_atoms(lit)
    if ms:
        ms = [cond_literal(a) for a in ms]
        if pol == want:
            return [tuple((x, not p) for x, p in ms[:i]) + (a,) for i, a in enumerate(ms)]
        return [tuple((x, not p) for x, p in ms)]
    return [((lit, pol == want),)]


def some_atom(src, *gs):
    """There is an element of src satisfying one of gs."""
    if not all(gs):
        return src
    return call(glob("builtins.any"), (coll("iter", tuple(("each", src, TRUE, tuple(g)) for g in gs)),))


def _norm_anyall(b, c):
    """any(...)/all(...) over one iteration as (list of `each` parts, polarity)."""
    if c[0] != "coll" or not c[2] or not all(p[0] == "each" for p in c[2]):
        return None
    want = b == "any"
    parts = []
    for p in c[2]:
        for g in lit_alts(p[2], want):
            x = ("each", p[1], TRUE, p[3] + tuple(y for y in g if y not in p[3]))
            if x not in parts:
                parts.append(x)
    return parts


def _pop_stack(stack, key):
    for i in range(len(stack) - 1, -1, -1):
        if stack[i] == key:
            return stack[:i]
    return stack


def _has_ref(v):
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] == "ref":
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


KEPT = ("kept", NONE)

def _has_fn(v):
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] == "fn":
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


def _class_alts(v):
    if v[0] == "coll" and v[1] == "tuple":
        out = []
        for p in v[2]:
            if p[0] != "item":
                return [v]
            out += _class_alts(p[1])
        return out
    if v[0] == "op" and v[1] == "|":
        return _class_alts(v[2]) + _class_alts(v[3])
    return [v]


def _as_load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _has_own(w, v):
    return w == v


def _is_cm(fi):
    return any((dotted(d) or "").split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in fi.decorators)


_GEN = {}


def _is_generator(node):
    if node in _GEN:
        return _GEN[node]
    r = False
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            r = True
            break
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    _GEN[node] = r
    return r


_LOCALS = {}


EVALUATE = ("glob", "effectful.ops.semantics.evaluate")
INTERPRETER = ("glob", "effectful.internals.runtime.interpreter")
GIVES_BACK = {"ast.fix_missing_locations"}  # changes its argument and returns it


def _stored(body):
    """The attributes and constant keys a body writes to, each with whether it is only changed in place."""
    out = {}
    for y in body:
        for x in ast.walk(y):
            if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load):
                k = x.attr if isinstance(x, ast.Attribute) else ("k", const(x.slice.value)) if isinstance(x.slice, ast.Constant) else None
                out.setdefault(k, True)
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.For, ast.AsyncFor, ast.With, ast.AsyncWith)):
                ts = x.targets if isinstance(x, ast.Assign) else [i.optional_vars for i in x.items if i.optional_vars] if isinstance(x, (ast.With, ast.AsyncWith)) else [x.target]
                for t in ts:
                    for z in ast.walk(t):
                        if isinstance(z, ast.Attribute) and not isinstance(z.ctx, ast.Load):
                            out[z.attr] = False
                        elif isinstance(z, ast.Subscript) and isinstance(z.slice, ast.Constant):
                            out["k", const(z.slice.value)] = False
    return out


def _assigned(body):
    """The names some statements assign, nested scopes apart: is it only ever in place (`+=`)?"""
    out, todo = {}, list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.setdefault(x.target.id, True)
            todo.append(x.value)
            continue
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out[x.id] = False
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out[x.name] = False
        todo.extend(ast.iter_child_nodes(x))
    return out


def _local_names(node):
    if node in _LOCALS:
        return _LOCALS[node]
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names.add(x.id)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(x.name)
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for al in x.names:
                names.add((al.asname or al.name).split(".")[0])
        todo.extend(ast.iter_child_nodes(x))
    _LOCALS[node] = names
    return names
