"""Deciding an obligation: does the current summary meet the confirmed one?

Three-valued.  EQ: the obligation is met.  DIFF: a *definite* semantic difference (another callee,
a lost or swapped flow, another operator, constant, class or polarity, a lost effect, a lost path).
UNK: the two cannot be aligned (an unmodelled construct, a condition spelt in a vocabulary the
analysis cannot relate); the obligation is undecided and never reported as a violation.
"""

from __future__ import annotations

import ast
import functools
import time
from itertools import permutations

from .absint import cond_literal, repeats, setlike
from .values import NONE, const, const_truth, replace, show, walk

EQ, UNK, DIFF = 0, 1, 2

COMMUTE = {"==", "is"}
EAFP = {"KeyError", "AttributeError", "IndexError", "LookupError", "TypeError", "StopIteration", "ValueError"}
MUTATORS = {"pop", "clear", "append", "appendleft", "remove", "extend", "insert", "discard",
            "popitem", "add", "update", "setdefault", "popleft", "sort", "reverse"}
BENIGN_WRAPPERS = {"builtins.list", "builtins.tuple", "builtins.dict", "builtins.iter",
                   "typing.cast", "builtins.set", "builtins.frozenset"}
VIEWS = {"types.MappingProxyType", "collections.ChainMap"}  # show later changes of what they are given
SEQ = {"list", "tuple", "iter", "copy"}


class Ctx:
    """What the comparison may assume about names."""

    def __init__(self, ref_names, new_project, ref_sigs):
        self.ref_names = ref_names
        self._repo = {}
        self.p = new_project
        self.ref_sigs = ref_sigs
        self.memo = {}
        self.wild = ()
        self.public = False
        self.ticks = 0
        self.deadline = None

    def known_repo(self, q):
        return q in self.ref_names

    def exists_now(self, q):
        return q in self.p.funcs or q in self.p.classes or q in self.p.modules or any(
            q.startswith(m + ".") and q[len(m) + 1:].split(".")[0] in mod.assigns
            for m, mod in self.p.modules.items())

    def is_repo(self, q):
        r = self._repo.get(q)
        if r is None:
            r = q.split(".")[0] == "effectful" and not self._passed_on(q)
            self._repo[q] = r
        return r

    def arity(self, v):
        """The length of the tuple a function of the repository says it returns."""
        fi = self.p.funcs.get(v[1][1]) if v[0] == "call" and v[1][0] == "glob" else None
        ns = set()
        todo = [fi.node.returns] if fi is not None and getattr(fi.node, "returns", None) is not None else []
        while todo:
            x = todo.pop()
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                todo += [x.left, x.right]
            elif isinstance(x, ast.Constant) and x.value is None:
                pass
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == "tuple" and isinstance(x.slice, ast.Tuple) \
                    and not any(isinstance(e, ast.Starred) or isinstance(e, ast.Constant) and e.value is ... for e in x.slice.elts):
                ns.add(len(x.slice.elts))
            else:
                return None
        return ns.pop() if len(ns) == 1 else None

    def _passed_on(self, q):
        """A name a module takes over from a library it wraps as a whole."""
        m, _, n = q.rpartition(".")
        mod = self.p.modules.get(m)
        return mod is not None and bool(mod.star_imports) and n not in mod.assigns and q not in self.p.funcs \
            and q not in self.p.classes and q not in self.p.modules


# ------------------------------------------------------------------ normalisation
class V(tuple):
    """An interned value: its hash is computed once, equal values are one object."""

    __slots__ = ()
    _hashes = {}
    _table = {}
    _order = {}

    def __hash__(self):
        h = V._hashes.get(id(self))
        return tuple.__hash__(self) if h is None else h


def intern(v):
    """The one V equal to v (children of v that are tuples must be interned already)."""
    w = V(v)
    h = tuple.__hash__(w)
    bucket = V._table.setdefault(h, [])
    for x in bucket:
        if len(x) == len(w) and all(p is q or (not isinstance(p, tuple) and type(p) is type(q) and p == q) for p, q in zip(x, w)):
            return x
    V._hashes[id(w)] = h
    V._order[id(w)] = len(V._order)
    bucket.append(w)
    return w


def okey(v):
    """A total order on values, equal ones being together (cheap: no rendering)."""
    return V._order[id(deep(v))] if isinstance(v, tuple) else -1


_norm_memo = {}
_deep_memo = {}


def deep(v):
    """v with every nested tuple interned."""
    if not isinstance(v, tuple):
        return v
    if type(v) is V:
        return v
    r = _deep_memo.get(id(v))
    if r is not None:
        return r[1]
    w = intern(tuple([deep(x) for x in v]))
    _deep_memo[id(v)] = (v, w)
    return w


def _spread(x):
    """The parts a container has from the elements of an argument of `union`, None when it is not known what they are."""
    if x[0] != "star":
        return (("star", x),)
    if x[1][0] != "coll":
        return None
    out = []
    for p in x[1][2]:
        if p[0] == "item" and p[1][:2] not in (("op", "at"), ("op", "del")):
            out.append(("star", p[1]))
        elif p[0] == "each":
            src = p[1] if p[1][0] != "prod" else None
            if src is None:
                return None
            e = ("elem", p[2])
            if p[2][0] == "coll" and len(p[2][2]) == 1:
                q = p[2][2][0]
                e = q[2] if q[0] == "each" else ("elem", q[1]) if q[0] == "star" else q[1] if q[0] == "item" else e
            out.append(("each", ("prod", src, p[2]), e, p[3]))
        else:
            return None
    return tuple(out)


def norm(v):
    if not isinstance(v, tuple) or not v:
        return v
    v = deep(v)
    r = _norm_memo.get(id(v))
    if r is None:
        r = deep(_norm(v))
        _norm_memo[id(v)] = r
    return r


def _norm(v):
    if v == ("glob", "builtins.Ellipsis"):
        return ("const", "ellipsis", ...)
    if v[0] in ("const", "param", "glob"):
        return v
    if v[0] == "lam" and len(v) == 3:
        alts = []
        for g, val, effs, excs in v[2]:
            p = norm_path((g, "", val, effs, excs))
            alts.append((p[0], p[2], p[3], p[4]))
        return ("lam", tuple(norm(x) if isinstance(x, tuple) else x for x in v[1]), tuple(alts))
    w = tuple(norm(x) if isinstance(x, tuple) else x for x in v)
    if not isinstance(w[0], str):
        return w
    t = w[0]
    if t == "attr" and w[2] == "name" and w[1][0] == "item" and w[1][1][0] == "attr" and w[1][1][2] == "parameters" and w[1][2] == ("elem", w[1][1]):
        return w[1][2]  # a signature files its parameters under their names
    if t == "call" and w[1][0] == "attr" and w[1][2] in SET_METHODS and len(w[2]) == 1 and not w[3] and w[2][0][0] != "star" and _a_set(w[1][1]):
        w = ("op", SET_METHODS[w[1][2]], w[1][1], w[2][0])
        t = "op"
    if t == "call" and w[1][0] == "attr" and w[1][2] == "union" and w[2] and not w[3] and _a_set(w[1][1]) and all(_spread(x) is not None for x in w[2]):
        return norm(("coll", w[1][1][1], w[1][1][2] + tuple(y for x in w[2] for y in _spread(x))))
    if t == "call" and not w[2] and not w[3] and w[1][0] == "attr" and w[1][2] in ("__iter__", "__next__", "__len__") and w[1][1][0] not in ("super", "op", "glob"):
        if w[1][2] == "__iter__":
            return w[1][1]  # as iter(x) is
        return ("call", ("glob", "builtins." + w[1][2].strip("_")), (w[1][1],), ())
    if t == "call" and not w[3] and len(w[2]) == 1:
        if w[1] == ("glob", "builtins.len") and w[2][0][0] == "coll" and w[2][0][1] == "frozenset":
            return norm(w[:2] + ((("coll", "set", w[2][0][2]),), ()))
        if w[1][0] == "attr" and w[1][2] == "isdisjoint" and w[2][0][0] != "star":
            return ("op", "not", _meet(w[1][1], w[2][0]))
        k = _any_parts(w)
        if k is not None and len(k) == 1 and len(k[0][1]) == 1:
            (q, b), = k[0][1]
            if b and q[0] == "op" and q[1] == "in" and q[2] == ("elem", k[0][0]) and k[0][0] not in walk(q[3]) and ("elem", k[0][0]) not in walk(q[3]):
                return _meet(k[0][0], q[3])
    if t == "op":
        if w[1] in ("<=", "<", "==") and len(w) == 4 or w[1] == "in" and len(w) == 4:
            w = w[:2] + tuple(("coll", "set", x[2]) if x[0] == "coll" and x[1] == "frozenset" and (i or w[1] != "in") else x for i, x in enumerate(w[2:]))
        if w[1] == "<=" and len(w) == 4 and not (setlike(w[2]) or setlike(w[3])):
            return ("op", "not", ("op", "<", w[3], w[2]))
        if w[1] in ("<=", "-", "&") and len(w) == 4 and _a_set(w[2]):
            w = w[:3] + (_as_set(w[3]),)
        if w[1] == "in" and len(w) == 4 and w[3][0] == "coll" and w[3][1] in ("tuple", "list", "set", "frozenset", "iter"):
            ps = w[3][2]
            if ps and all(p[0] == "item" for p in ps):
                ps = tuple(sorted(set(ps), key=okey))
                if len(ps) == 1:
                    return norm(("op", "==", w[2], ps[0][1]))
                return ("op", "in", w[2], ("coll", "set", ps))
            if len(ps) == 1 and ps[0][0] == "star":
                return ("op", "in", w[2], ps[0][1])
        if w[1] == "+" and len(w) == 4 and w[2][0] == w[3][0] == "const" and w[2][1] == w[3][1] and w[2][1] in ("str", "int"):
            return const(w[2][2] + w[3][2])
        if w[1] in COMMUTE and len(w) == 4:
            a, b = w[2], w[3]
            if w[1] == "==" and (a[0] == "glob" or b[0] == "glob"):
                w = ("op", "is") + w[2:]
            if _rank(a) > _rank(b) or (_rank(a) == _rank(b) and okey(a) > okey(b)):
                a, b = b, a
            return ("op", w[1], a, b)
        if w[1] == "in" and len(w) == 4 and w[3][0] == "call" and w[3][1][0] == "attr" and w[3][1][2] == "keys" and not w[3][2]:
            return ("op", "in", w[2], w[3][1][1])
        if w[1] == "fstr":
            parts = []
            for x in w[2:]:
                if x[0] == "call" and x[1] == ("glob", "builtins.str") and len(x[2]) == 1 and not x[3]:
                    x = x[2][0]
                for x in x[2:] if x[:2] == ("op", "fstr") else (x,):
                    if x[0] != "const" and x not in parts:
                        parts.append(x)
            return ("op", "fstr") + tuple(sorted(parts, key=okey))
    if t == "call" and w[1][0] == "call" and w[1][1] == ("glob", "functools.wraps") and len(w[1][2]) == 1 and not w[1][3] and len(w[2]) == 1 and not w[3] \
            and w[2][0][0] == "lam" and len(w[2][0]) == 3 and len(w[2][0][1]) == 6 and w[2][0][1][5] == ("none",):
        return ("lam", w[2][0][1][:5] + (w[1][2][0],), w[2][0][2])
    if t == "phi":
        flat = {}
        for i, x in enumerate(w[1]):
            if x[0] == "phi":
                for y in x[1]:
                    flat[y] = None
                continue
            g = w[2][i] if len(w) > 2 else None
            if g is not None:
                g = prime_implicants([t for t in map(norm_guards, g) if _satisfiable(t)])
                g = g and tuple(g)
            if x not in flat:
                flat[x] = g
            elif g is None or flat[x] is None:
                flat[x] = None
            else:
                g = prime_implicants(flat[x] + g)
                flat[x] = g and tuple(g)
        if len(flat) == 1:
            return next(iter(flat))
        ks = sorted(flat, key=okey)
        return ("phi", tuple(ks), tuple(flat[k] for k in ks))
    if t == "coll":
        parts = []
        for p in w[2]:
            if p[0] == "each":
                g = norm_guards(p[3])
                if not _satisfiable(g):
                    continue
                p = (p[0], _consumed(p[1]), p[2], g) + p[4:]
                if p[1][0] == "coll" and not p[1][2]:
                    continue
                if w[1] == "dict" and p[2][0] == "pair" and any(b and _already(a, p[2]) for a, b in g):
                    continue
                through = _through(p, w[1])
                if through is not None:
                    parts.extend(through)
                    continue
                if w[1] in ("set", "frozenset") or p[2] == ("const", "bool", True):
                    p = (p[0], _unordered(p[1])) + p[2:]
                r = p[1]
                if r[0] == "call" and r[1] == ("glob", "builtins.range") and len(r[2]) == 1 and r[2][0][0] == "call" and r[2][0][1] == ("glob", "builtins.len") \
                        and not any(x in (("elem", r), ("idx", r)) for x in walk((p[2], g))):
                    p = (p[0], _consumed(r[2][0][2][0])) + p[2:]  # only how many
                known = known_keys(g)
                if known and gets_in(p):
                    q = settle_gets((p[2], g), known)
                    p = (p[0], p[1], norm(q[0]), norm_guards(q[1])) + p[4:]
            elif p[0] == "star" and w[1] not in ("dict", "copy"):
                p = ("star", _consumed(p[1]))
            if p[0] != "each" or p not in parts:
                parts.append(p)
        parts = [_copied(w[1], p) for p in _canon_each(parts)]
        # *(literal) inside a literal
        out = []
        for p in parts:
            if p[0] == "star" and p[1][0] == "coll" and (p[1][1] == w[1] or w[1] in SEQ and p[1][1] in SEQ):
                out.extend(p[1][2])
            else:
                out.append(p)
        if w[1] == "tuple" and len(out) == 1 and out[0][0] == "star" and out[0][1][0] == "param" and out[0][1][1].startswith("*") and not out[0][1][1].startswith("**"):
            return out[0][1]
        if w[1] == "list" and len(out) == 1 and out[0][0] == "star" and out[0][1][0] == "call" and out[0][1][1] == ("glob", "builtins.sorted"):
            return out[0][1]
        ps = []
        for p in out:
            if p[0] == "each" and p[2] == ("const", "bool", True):
                ps.extend(p[:3] + (g,) + p[4:] for g in _other_kinds(p[3]) or [p[3]])
            else:
                ps.append(p)
        return ("coll", w[1], tuple(map(_all_but_first, ps)))
    if t in ("elem", "idx") and len(w) == 2:
        return (t, _consumed(w[1]))
    if t == "item" and len(w) == 3 and w[2] == ("idx", w[1]):
        return ("elem", w[1])
    if t == "item" and len(w) == 3 and w[2][:2] == ("const", "int") and w[1][0] == "coll" and w[1][1] in ("list", "tuple", "iter"):
        ps, k = w[1][2], w[2][2]
        if -len(ps) <= k < len(ps) and all(p[0] == "item" and len(p) == 2 for p in (ps[:k + 1] if k >= 0 else ps[k:])):
            return ps[k][1]
    if t == "item" and len(w) == 3 and w[2] == ("const", "int", 0) and w[1][0] == "coll" and w[1][1] in ("list", "tuple") and len(w[1][2]) == 1 and w[1][2][0][0] == "star":
        return norm(("item", _consumed(w[1]), ("const", "int", 0)))
    if t == "call" and w[1] == ("glob", "builtins.next") and len(w[2]) == 1 and not w[3] and w[2][0][0] != "star" and w[2][0] != ("param", "self"):
        return norm(("item", w[2][0], ("const", "int", 0)))
    if t == "call" and w[1] in (("glob", "builtins.exec"), ("glob", "builtins.eval")) and len(w[2]) == 3 and w[2][1] == w[2][2]:
        return norm((t, w[1], w[2][:2], w[3]))
    if t == "item" and len(w) == 3 and w[1][0] == "item" and len(w[1]) == 3 and w[1][2] == ("const", "int", 0) and w[2] in (("const", "int", 0), ("const", "int", 1)) \
            and w[1][1][0] == "call" and w[1][1][1][0] == "attr" and w[1][1][1][2] == "items" and not w[1][1][2] and not w[1][1][3]:
        f = w[1][1][1]
        return norm(("item", ("call", f[:2] + (("keys", "values")[w[2][2]],), (), ()), ("const", "int", 0)))
    if t == "item" and len(w) == 3 and w[2][0] == "const" and w[1][0] == "call" and w[1][1][0] == "attr" and not w[1][3] and w[1][2] and w[1][2][0][0] != "star":
        # the part before the first and after the last separator
        m, args, k = w[1][1][2], w[1][2], w[2][2]
        if m == "rsplit" and k == -1 and args[1:] in ((), (("const", "int", 1),)) or m == "rpartition" and k in (2, -1) and len(args) == 1 \
                or m == "split" and k == 0 and args[1:] == (("const", "int", 1),) or m == "partition" and k == 0 and len(args) == 1:
            if m in ("rsplit", "split") or args[0] != NONE:
                return norm(("item", ("call", w[1][1][:2] + ("split",), args[:1], ()), ("const", "int", -1 if m[0] == "r" else 0)))
    if t == "item" and len(w) == 3 and w[1][0] == "item" and len(w[1]) == 3 and w[1][2][0] == "slice" and w[1][2][2:] == (NONE, NONE) and w[1][2][1] != NONE:
        # the last of the rest; the first of the last few
        if w[2] == ("const", "int", -1):
            return norm(("item", w[1][1], w[2]))
        k = w[1][2][1]
        if w[2] == ("const", "int", 0) and k[0] == "op" and k[1] == "neg":
            return norm(("item", w[1][1], k))
    if t == "mu" and len(w) == 4 and w[1][0] == "item" and w[1][2] == ("slice", ("const", "int", 1), NONE, NONE):
        # starting from what the first gives, for the others
        X = w[1][1]
        first = ("item", X, ("const", "int", 0))
        if any(x == first for x in walk(w[2])):
            init = replace(w[2], first, ("elem", X))
            step = replace(replace(w[3], ("carry", w[2]), ("carry", init)), ("elem", w[1]), ("elem", X))
            if not any(x == ("idx", w[1]) for x in walk(step)):
                return norm(("mu", X, init, step))
    if t == "item" and len(w) == 3 and w[2][0] == "const" and isinstance(w[2][2], int) and w[1][0] == "item" and len(w[1]) == 3 \
            and w[1][1][0] == "coll" and w[1][1][1] in ("list", "tuple") and len(w[1][1][2]) == 1 and w[1][1][2][0][0] == "each":
        # a component of one of the tuples that a comprehension lists
        p, k = w[1][1][2][0], w[2][2]
        if p[2][0] == "coll" and p[2][1] in ("list", "tuple") and all(x[0] == "item" and x[1][:2] not in (("op", "at"), ("op", "del")) for x in p[2][2]) and 0 <= k < len(p[2][2]):
            return norm(("item", ("coll", w[1][1][1], (p[:2] + (p[2][2][k][1],) + p[3:],)), w[1][2]))
    if t == "attr" and w[2] == "ndim":
        return ("call", ("glob", "builtins.len"), (("attr", w[1], "shape"),), ())
    if t == "call":
        f = w[1]
        if f in (("glob", "builtins.dict.fromkeys"), ("attr", ("glob", "builtins.dict"), "fromkeys")) and len(w[2]) in (1, 2) and not w[3] and all(x[0] != "star" for x in w[2]):
            x = w[2][1] if len(w[2]) == 2 else ("const", "NoneType", None)
            if x[0] in ("const", "param", "glob") or x[0] == "coll" and x[1] in ("tuple", "frozenset"):
                return norm(("coll", "dict", (("each", w[2][0], ("pair", ("elem", w[2][0]), x), ()),)))
        if f == ("glob", "builtins.sum") and len(w[2]) == 1 and not w[3] and w[2][0][0] == "coll" and w[2][0][2] \
                and all(p[0] == "each" and p[2] == ("const", "int", 1) for p in w[2][0][2]):
            return norm(("call", ("glob", "builtins.len"), (("coll", "list", w[2][0][2]),), ()))
        if f == ("glob", "builtins.len") and len(w[2]) == 1 and w[2][0][:2] == ("op", "+") and len(w[2][0]) == 4:
            return norm(("op", "+") + tuple(("call", f, (x,), ()) for x in w[2][0][2:]))
        if f == ("glob", "builtins.len") and len(w[2]) == 1 and w[2][0][0] == "coll" and w[2][0][1] in SEQ:
            ps = w[2][0][2]
            if len(ps) == 1 and (ps[0][0] == "star" or ps[0][0] == "each" and not ps[0][3] and ps[0][1][0] not in ("prod", "while")):
                return norm(("call", f, (ps[0][1],), ()))
            one = ("const", "int", 1)
            ps = tuple(("each", p[1], one) + p[3:] if p[0] == "each" else ("item", one) if p[0] == "item" and p[1][:2] != ("op", "at") else p
                       for p in w[2][0][2])
            if ps != w[2][0][2]:
                return norm(("call", f, (("coll", "list", ps),), ()))
        if f[0] == "glob" and f[1] in ("builtins.min", "builtins.max") and len(w[2]) > 1 and not w[3] and all(x[0] != "star" for x in w[2]):
            return ("call", f, tuple(sorted(w[2], key=okey)), ())
        if f[0] == "glob" and f[1] in ("builtins.list", "builtins.tuple") and len(w[2]) == 1 and not w[3] and w[2][0][0] not in ("star",):
            k = f[1].split(".")[1]
            x = w[2][0]
            if x[0] == "coll" and x[1] in SEQ:
                return norm(("coll", k, x[2]))
            return norm(("coll", k, (("star", x),)))
        # a starred argument that is a known sequence is the sequence's items
        args = []
        for a in w[2]:
            if a[0] == "star" and a[1][0] == "coll" and a[1][1] in SEQ and all(p[0] in ("item", "star") for p in a[1][2]):
                args.extend(p[1] if p[0] == "item" else ("star", p[1]) for p in a[1][2])
            elif a[0] == "star":
                args.append(("star", _consumed(a[1])))
            else:
                args.append(a)
        if f[0] == "glob" and f[1] in VIEWS:
            args = [("call", ("attr", a[2][0][1], "copy"), (), ()) if a[0] == "coll" and a[1] in ("dict", "copy") and len(a[2]) == 1 and a[2][0][0] == "star" else a for a in args]
        if f[0] == "glob" and f[1] in ITERATES or f[0] == "attr" and f[2] in ITER_METHODS or f[0] == "call" and f[1] == ("glob", "builtins.type"):
            maps = f[0] == "call" or f[0] == "glob" and f[1] in ("builtins.dict", "collections.OrderedDict", "collections.Counter") or f[0] == "attr" and f[2] == "update"
            args = [a if maps and a[0] == "coll" and a[1] in ("dict", "copy") else _consumed(a) for a in args]
        if f[0] == "attr" and f[2] == "get" and len(args) == 2 and args[1] == ("const", "NoneType", None):
            args = args[:1]
        kws = []
        for k, x in w[3]:
            if k is None and x[0] == "coll" and x[1] in ("dict", "copy"):
                if all(p[0] == "star" or (p[0] == "item" and p[1][0] == "pair" and p[1][1][0] == "const") for p in x[2]):
                    kws.extend((None, p[1]) if p[0] == "star" else (p[1][1][2], p[1][2]) for p in x[2])
                    continue
            kws.append((k, x))
        kws.sort(key=lambda kv: (kv[0] is None, str(kv[0])))
        return ("call", f, tuple(args), tuple(kws))
    return w


SET_METHODS = {"issubset": "<=", "difference": "-", "intersection": "&"}


def _all_but_first(p):
    """Comparing all but the first with the first is comparing all with it."""
    if p[0] == "each" and p[1][0] == "item" and p[1][2] == ("slice", ("const", "int", 1), NONE, NONE) and p[2] == ("const", "bool", True) and len(p[3]) == 1:
        X, (k, b) = p[1][1], p[3][0]
        if not b and k[0] == "op" and k[1] in ("==", "is") and {k[2], k[3]} == {("elem", p[1]), ("item", X, ("const", "int", 0))}:
            S, x, gs = X, ("elem", X), ()
            if X[0] == "coll" and len(X[2]) == 1 and X[2][0][0] == "each" and len(X[2][0]) == 4:
                _, S, x, gs = X[2][0]
            return ("each", S, p[2], norm_guards(gs + ((("op", k[1], x, ("item", X, ("const", "int", 0))), b),))) + p[4:]
    return p


_KINDS = ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD")


def _other_kinds(gs):
    """A parameter of none of some kinds is of one of the others: the conjunctions that says so."""
    not_ = {}
    for g in gs:
        k, b = g
        if k[0] == "op" and k[1] in ("==", "is") and len(k) == 4:
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                if y[0] == "glob" and y[1].startswith("inspect.Parameter.") and y[1].rpartition(".")[2] in _KINDS:
                    if b:
                        return None
                    not_.setdefault((x, k[1], y is k[3]), []).append((g, y[1].rpartition(".")[2]))
    if len(not_) != 1 or len(v := next(iter(not_.values()))) < 2:
        return None
    (x, o, right), = not_
    rest = tuple(g for g in gs if not any(g is y for y, _ in v))
    named = [("glob", "inspect.Parameter." + n) for n in _KINDS if n not in [m for _, m in v]]
    return [rest + ((("op", o, x, n) if right else ("op", o, n, x), True),) for n in named]


def _a_set(v):
    return v[0] == "coll" and v[1] in ("set", "frozenset")


def _as_set(v):
    """The other operand of a set operation: what is in it."""
    if v[0] == "coll" and (v[1] in SEQ or _a_set(v)):
        v = norm(("coll", "iter", v[2]))
    v = _consumed(v)
    return _as_set(v) if _a_set(v) else v


def _copied(kind, p):
    """{k: m[k] for k in m} is **m, [x for x in xs] is *xs."""
    if p[0] == "each" and len(p) == 4 and not p[3]:
        if kind in ("dict", "copy"):
            if p[2] == ("pair", ("elem", p[1]), ("item", p[1], ("elem", p[1]))):
                return ("star", p[1])
        elif p[2] == ("elem", p[1]):
            return ("star", p[1])
    return p


def _unordered(v):
    """What is iterated over when neither order nor repetition matter."""
    while _a_set(v) and len(v[2]) == 1 and v[2][0][0] == "star":
        v = _consumed(v[2][0][1])
    return v


def _repeating(v):
    """What is iterated over, when neither the order nor the dropping of repetitions is looked at."""
    while True:
        if v[0] == "coll" and v[1] == "dict" and len(v[2]) == 1 and v[2][0][0] == "each" and not v[2][0][3] and v[2][0][2][:2] == ("pair", ("elem", v[2][0][1])):
            v = v[2][0][1]
        else:
            w = _unordered(v)
            if w is v or w == v:
                return v
            v = w


def _through(p, kind):
    """Iterating over what a comprehension makes of each element is iterating over the elements."""
    src = p[1]
    if src[0] == "op" and src[1] in ("-", "&") and len(src) == 4 and len(p) == 4 and _a_set(src[2]) and ("idx", src) not in walk((p[2], p[3])):
        # the elements of a set that are (not) in another
        S = src[2]
        sub = {("elem", src): ("elem", S)}
        g = norm_guards(_sub2(p[3], sub) + ((("op", "in", ("elem", S), src[3]), src[1] == "&"),))
        return [("each", S, norm(_sub2(p[2], sub)), g)] if _satisfiable(g) else []
    if src[0] != "coll" or src[1] not in ("iter", "list", "tuple") or len(src[2]) < 2 or len(p) != 4:
        return None
    qs = src[2]
    if any(q[0] != "each" or len(q) != 4 or q[1] != qs[0][1] for q in qs):
        return None
    # one value for each element
    if any(q[2] != r[2] and not any((k, not b) in r[3] for k, b in q[3]) for i, q in enumerate(qs) for r in qs[:i]):
        return None
    if any(x == ("idx", src) for x in walk((p[2], p[3])) if len(x) == 2) and prime_implicants([q[3] for q in qs]) != [()]:
        return None
    S = qs[0][1]
    out = []
    for q in qs:
        sub = {("elem", src): q[2], ("idx", src): ("idx", S)}
        g = norm_guards(_sub2(p[3], sub) + q[3])
        if _satisfiable(g):
            out.append(("each", S, norm(_sub2(p[2], sub)), g))
    return out


def _sub2(v, sub, memo=None):
    if not isinstance(v, tuple) or not v:
        return v
    memo = {} if memo is None else memo
    r = memo.get(id(v))
    if r is None:
        w = sub.get(v) if len(v) == 2 and v[0] in ("elem", "idx") else None
        r = memo[id(v)] = (w if w is not None else tuple([_sub2(x, sub, memo) if isinstance(x, tuple) else x for x in v]), v)
    return r[0]


def _consumed(v):
    """A sequence that is only iterated over: which kind it is does not matter."""
    if v[0] == "prod":
        w = ("prod",) + tuple(_consumed(x) for x in v[1:])
        return v if w == v else norm(w)
    if v[0] == "coll" and v[1] in ("dict", "copy"):
        if len(v[2]) == 1 and v[2][0][0] == "each" and repeats(v[2][0]):
            return v  # each key once
        w = ("call", ("attr", v, "keys"), (), ())
        x = _consumed(w)
        return v if x == w or x == v else x
    if v[0] == "coll" and v[1] in SEQ:
        if len(v[2]) == 1 and v[2][0][0] == "star":
            return _consumed(v[2][0][1])
        return norm(("coll", "iter", v[2])) if v[1] != "iter" else v
    if _a_set(v) and len(v[2]) == 1 and v[2][0][0] == "star":
        return v  # an element once
    if v[0] == "call" and v[1][0] == "attr" and not v[2] and not v[3] and v[1][2] in ("keys", "values", "items"):
        m, what = v[1][1], v[1][2]
        if m[0] == "coll" and m[1] in ("dict", "copy") and m[2] and all(p[0] in ("item", "each") and p[1 if p[0] == "item" else 2][0] == "pair" for p in m[2]):
            ps = []
            for p in m[2]:
                at = 1 if p[0] == "item" else 2
                x = p[at]
                x = x[1] if what == "keys" else x[2] if what == "values" else ("coll", "tuple", (("item", x[1]), ("item", x[2])))
                ps.append(p[:at] + (x,) + p[at + 1:])
            return _consumed(norm(("coll", "iter", tuple(ps))))
        if what == "keys":
            return m if m[0] == "coll" else _consumed(m)
    return v


ITERATES = {"builtins." + n for n in ("list", "tuple", "set", "frozenset", "dict", "sorted", "any", "all", "sum", "min", "max", "zip", "enumerate", "map", "filter", "iter", "reversed")} | {
    "functools.reduce", "itertools.chain", "collections.OrderedDict", "collections.Counter"}
ITER_METHODS = {"union", "intersection", "difference", "join", "extend", "update", "issubset", "issuperset", "difference_update", "intersection_update", "isdisjoint",
                "symmetric_difference", "appendleft_all", "fromkeys"}


def _canon_each(parts):
    """The alternatives under which one iteration yields one value, as its prime implicants."""
    if sum(1 for p in parts if p[0] == "each") < 2:
        return parts
    groups = {}
    for i, p in enumerate(parts):
        if p[0] == "each":
            groups.setdefault((p[1], p[2]) + p[4:], []).append(i)
    if all(len(ix) == 1 for ix in groups.values()):
        return parts
    out, drop = dict(enumerate(parts)), set()
    for k, ix in groups.items():
        if len(ix) < 2 or len(ix) > 16:
            continue
        terms = prime_implicants([parts[i][3] for i in ix])
        if terms is None:
            continue
        drop.update(ix)
        out[ix[0]] = [("each", k[0], k[1], g) + k[2:] for g in terms]
        drop.discard(ix[0])
    res = []
    for i in range(len(parts)):
        if i in drop:
            continue
        res.extend(out[i] if isinstance(out[i], list) else [out[i]])
    return res


def prime_implicants(terms):
    """Blake canonical form of a disjunction of conjunctions (by consensus)."""
    ts = {frozenset(t) for t in terms}
    while True:
        ts = {t for t in ts if not any(u < t for u in ts)}
        new = set()
        L = list(ts)
        for i, a in enumerate(L):
            for b in L[i + 1:]:
                opp = [x for x in a if (x[0], not x[1]) in b]
                if len(opp) == 1:
                    x = opp[0]
                    t = (a - {x}) | (b - {(x[0], not x[1])})
                    if not any(u <= t for u in ts) and t not in new:
                        new.add(t)
        if not new:
            break
        ts |= new
        if len(ts) > 64:
            return None
    return sorted((tuple(sorted(t, key=okey)) for t in ts), key=okey)


def _rank(v):
    return 1 if v[0] == "const" else 0


def norm_guards(gs):
    out = []
    todo = [*reversed(gs)]
    while todo:
        a, b = todo.pop()
        a, p = cond_literal(norm(a))
        b = b if p else not b
        if a[0] == "op" and a[1] == ("and" if b else "or"):
            todo.extend((x, b) for x in reversed(a[2:]))
            continue
        if a[0] == "op" and a[1] == "&" and len(a) == 4 and (setlike(a[2]) or setlike(a[3])):
            a = _meet(a[2], a[3])
        x = (norm(a), b)
        if x not in out:
            out.append(x)
    return tuple(_implied_dropped(out))


def _implied_dropped(gs):
    """Without the conditions that being an instance of a class entails."""
    of = {}
    for k, b in gs:
        if b and k[0] == "call" and k[1] == ("glob", "builtins.isinstance") and len(k[2]) == 2 and not k[3] and k[2][1][0] == "glob" and k[2][1][1] not in ("builtins.object", "types.NoneType"):
            of.setdefault(k[2][0], set()).add(k[2][1][1])
    same = {k[2] for k, b in gs if b and k[0] == "op" and k[1] == "is" and len(k) == 4 and _a_class(k[3])}
    same |= {k[3] for k, b in gs if b and k[0] == "op" and k[1] == "is" and len(k) == 4 and _a_class(k[2])}
    same |= {x for x, ts in of.items() if "builtins.type" in ts}
    none = {k for k, b in gs if not b}
    if not of and not same and not any(k[0] == "op" and k[1] == "is" for k in none):
        return gs

    def entailed(k, b):
        if b:
            return k in same
        if k[0] == "op" and k[1] == "is" and len(k) == 4:
            if k[3] == ("const", "NoneType", None) and k[2] in same:
                return True
            if _a_class(k[3]) and k[2] in none or _a_class(k[2]) and k[3] in none:
                return True
        if k[0] == "op" and k[1] == "is" and k[3] == ("const", "NoneType", None):
            return k[2] in of
        if k[0] == "op" and k[1] == "is" and len(k) == 4 and k[3][0] == "const" and k[3][1] not in ("bool", "int", "str"):
            return any(t in _DISJOINT for t in of.get(k[2], ()))
        if k[0] == "call" and k[1] == ("glob", "builtins.isinstance") and len(k[2]) == 2 and not k[3] and k[2][1][0] == "glob":
            q = k[2][1][1]
            return q in _DISJOINT and any(t in _DISJOINT and t != q for t in of.get(k[2][0], ()))
        return False

    return [g for g in gs if not entailed(*g)]


def _a_class(v):
    """Is this surely a class (or another object of the language) and so neither falsy nor None?"""
    return v[0] == "glob" and (v[1].startswith("typing.") or v[1].startswith("builtins.") or v[1].rpartition(".")[2][:1].isupper()
                               and not v[1].rpartition(".")[2].isupper())


def _meet(a, b):
    """Do the two have an element in common?"""
    a, b = sorted((_as_set(a), _as_set(b)), key=okey)
    return ("op", "meet", a, b)


def known_keys(gs):
    """(mapping, key) -> is the key there, as far as the conditions say."""
    return {(a[3], a[2]): b for a, b in gs if a[0] == "op" and a[1] == "in" and len(a) == 4}


def settle_gets(v, known, memo=None):
    """m.get(k, d) where it is known whether k is in m."""
    if not isinstance(v, tuple) or not v:
        return v
    memo = {} if memo is None else memo
    r = memo.get(id(v))
    if r is not None:
        return r[0]
    w = tuple([settle_gets(x, known, memo) if isinstance(x, tuple) else x for x in v])
    g = _get_of(w)
    if g is not None and g[:2] in known:
        w = ("item",) + g[:2] if known[g[:2]] else g[2]
    elif all(x is y for x, y in zip(v, w)):
        w = v
    memo[id(v)] = (w, v)
    return w


def _get_of(v):
    """(m, k, default) of m.get(k, default)."""
    if len(v) == 4 and v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and not v[3] and len(v[2]) in (1, 2) and all(a[0] != "star" for a in v[2]):
        return v[1][1], v[2][0], v[2][1] if len(v[2]) == 2 else ("const", "NoneType", None)
    return None


_gets_memo = {}


def gets_in(v):
    """The (m, k) for which v asks m.get(k)."""
    v = deep(v)
    r = _gets_memo.get(id(v))
    if r is None:
        r = set()
        if isinstance(v, tuple) and v:
            g = _get_of(v)
            if g is not None:
                r.add(deep(g[:2]))
            for x in v:
                if isinstance(x, tuple):
                    r |= gets_in(x)
        r = _gets_memo[id(v)] = frozenset(r)
    return r


def split_gets(P, others):
    """Tell the paths of P apart by the membership tests the other side makes explicit."""
    asked = {(deep(a[3]), deep(a[2])): a for a in others if a[0] == "op" and a[1] == "in" and len(a) == 4}
    if not asked:
        return P
    out = []
    for p in P:
        ps = [p]
        for mk in sorted(gets_in(deep(p)) & set(asked), key=okey):
            a = asked[mk]
            if any(x == a for x, _ in p[0]):
                continue
            ps = [norm_path((q[0] + ((a, b),),) + q[1:]) for q in ps for b in (True, False)]
        out.extend(ps)
    return out if len(out) < 400 else P


def settle_absent(P, others, Q):
    """`getattr(x, n, None)` found to be None or not, where the other side does not ask: which of the two it is."""
    out = None
    for i, p in enumerate(P):
        q = p
        for a, b in p[0]:
            if a[0] == "op" and a[1] == "is" and a[3] == NONE and a[2][0] == "phi" and len(a[2][1]) == 2 and NONE in a[2][1] and a not in others:
                has = next(m for m in a[2][1] if m != NONE)
                if has[0] == "attr" and any(x == has for r in Q for x in walk(r[1:4])):
                    q = (tuple(g for g in q[0] if g[0] != a),) + q[1:]
                    q = tuple(replace(x, a[2], NONE if b else has) for x in q[:4]) + q[4:]
        if q is not p:
            if out is None:
                out = list(P)
            out[i] = norm_path(q)
    return P if out is None else out


def norm_path(p):
    p = _norm_path(p)
    known = known_keys(p[0])
    if known:
        q = settle_gets(p, known)
        if q is not p:
            p = _norm_path(q)
            g = []
            for a, b in p[0]:
                t = const_truth(a)
                if t is None or t != b:
                    g.append((a, b))
            p = deep((tuple(g),) + p[1:])
    return p


def under(v, facts, memo):
    """v where the conditions in `facts` are known: alternatives and elements that cannot be are left out."""
    if not isinstance(v, tuple) or not v or not _conditional(v):
        return v
    r = memo.get(id(v))
    if r is None:
        r = memo[id(v)] = (v, _under(v, facts, memo))
    return r[1]


def _conditional(v):
    r = _cond_memo.get(id(v)) if type(v) is V else None
    if r is None:
        r = v[0] in ("phi", "each", "star", "call") or any(_conditional(x) for x in v if isinstance(x, tuple) and x)
        if type(v) is V:
            _cond_memo[id(v)] = r
    return r


_cond_memo = {}


def _known(g, facts):
    """A conjunction given the facts: None if it cannot hold."""
    if any(facts.get(a, b) != b for a, b in g):
        return None
    return tuple((a, b) for a, b in g if a not in facts)


def _under(v, facts, memo):
    if v[0] == "lam":
        return v
    if v[0] == "phi" and len(v) > 2:
        xs, gs = [], []
        for x, g in zip(v[1], v[2]):
            if g is not None:
                g = [t for t in (_known(t, facts) for t in g) if t is not None]
                if not g:
                    continue
                g = prime_implicants(g)
                g = g and tuple(g)
            xs.append(under(x, facts, memo))
            gs.append(g)
        if xs:
            return ("phi", tuple(xs), tuple(gs)) if len(xs) > 1 else xs[0]
        return v
    if v[0] == "call":
        # nothing comes out of what is empty
        w = (v[0], v[1], tuple(x for x in v[2] if x[0] != "star" or facts.get(x[1]) is not False),
             tuple(x for x in v[3] if x[0] is not None or facts.get(x[1]) is not False))
        return tuple(under(x, facts, memo) if isinstance(x, tuple) else x for x in w)
    if v[0] == "coll":
        parts = []
        for p in v[2]:
            if p[0] in ("star", "each") and facts.get(p[1]) is False:
                continue
            if p[0] == "each":
                g = _known(p[3], facts)
                if g is None:
                    continue
                p = (p[0], under(p[1], facts, memo), under(p[2], facts, memo), g) + p[4:]
            else:
                p = under(p, facts, memo)
            parts.append(p)
        return (v[0], v[1], tuple(parts))
    return tuple(under(x, facts, memo) if isinstance(x, tuple) else x for x in v)


def path_under(p, facts):
    memo = {}
    effs = []
    for k, data, cx, loops, g in p[3]:
        g = _known(g, facts)
        if g is None or any(facts.get(x) is False for x in loops):
            continue
        effs.append((k, under(data, facts, memo), tuple(under(x, facts, memo) for x in cx), tuple(under(x, facts, memo) for x in loops),
                     tuple((under(a, facts, memo), b) for a, b in g)))
    q = _norm_path((p[0], p[1], under(p[2], facts, memo), tuple(effs), p[4]))
    return deep((p[0],) + q[1:])


def known_of_all(gs):
    """source -> conditions no element of it fulfils, from `not any(...)`."""
    out = {}
    for a, b in gs:
        if b or a[0] != "call" or a[1] != ("glob", "builtins.any") or len(a[2]) != 1 or a[2][0][0] != "coll":
            continue
        for x in a[2][0][2]:
            if x[0] != "each":
                continue
            lits = list(x[3])
            if x[2] != ("const", "bool", True):
                lits.append(cond_literal(x[2]))
            if len(lits) != 1:
                continue
            (k, pos), = lits
            known = out.setdefault(_consumed(x[1]), set())
            known.add((k, pos))
            if pos and k[0] == "op" and k[1] == "in" and k[3][0] == "coll":
                for y in k[3][2]:
                    if y[0] == "item":
                        known.update((("op", o, l, r), True) for o in ("is", "==") for l, r in ((k[2], y[1]), (y[1], k[2])))
    return out


def settle_elements(v, known, memo=None):
    """Without the conditions on elements that are known to hold for all of them."""
    if not isinstance(v, tuple) or not v:
        return v
    memo = {} if memo is None else memo
    r = memo.get(id(v))
    if r is not None:
        return r[0]
    w = tuple([settle_elements(x, known, memo) if isinstance(x, tuple) else x for x in v])
    if len(w) == 4 and w[0] == "each" and isinstance(w[3], tuple) and w[1] in known:
        w = w[:3] + (tuple(x for x in w[3] if (x[0], not x[1]) not in known[w[1]]),)
    if all(x is y for x, y in zip(v, w)):
        w = v
    memo[id(v)] = (w, v)
    return w


def _from_front(p):
    """Positions counted from the end of what has a known length, counted from the front."""
    subs = {("item", x, ("const", "int", -i)): ("item", x, ("const", "int", n - i)) for x, n in _lengths(p[0]) if 0 < n < 9 for i in range(1, n + 1)}
    if not subs:
        return p
    memo = {}

    def go(v):
        if not isinstance(v, tuple) or not v:
            return v
        r = memo.get(id(v))
        if r is None:
            w = subs.get(v) if v[0] == "item" and len(v) == 3 else None
            if w is None:
                w = tuple([go(x) if isinstance(x, tuple) else x for x in v])
                if all(x is y for x, y in zip(v, w)):
                    w = v
            r = memo[id(v)] = (v, w)
        return r[1]
    return tuple(go(x) if isinstance(x, tuple) else x for x in p)


def _norm_path(p):
    p = _from_front(p)
    g, kind, val, effs, excs = p
    g = norm_guards(g)
    effs = norm_effs(effs)
    known = known_of_all(g)
    if known:
        effs, val = settle_elements((effs, norm(val)), known)
        effs = tuple(e[:4] + (tuple(x for x in e[4] if not any((x[0], not x[1]) in known.get(l, ()) for l in e[3])),) for e in effs)
    return deep((g, kind, norm(val), norm_effs(effs),
                 tuple(tuple(sorted((norm(t) for t in ts), key=okey)) for ts in excs)))


def norm_effs(effs):
    out = []
    for e in effs:
        e = norm_eff(e)
        out.extend(_written(e) or (e,))
    return tuple(out)


def _written(e):
    """m.update({...}) as the writes it makes."""
    k, data, cx, loops, g = e
    if k != "call" or data[1][0] != "attr" or data[1][2] != "update" or len(data[2]) != 1 or data[3]:
        return None
    m, new = data[1][1], data[2][0]
    if new[0] != "coll" or new[1] != "dict" or not new[2] or not all(p[0] in ("item", "each") and p[1 if p[0] == "item" else 2][0] == "pair" for p in new[2]):
        return None
    out = []
    for p in new[2]:
        if p[0] == "item":
            out.append(norm_eff(("setitem", ("setitem", m) + tuple(p[1][1:]), cx, loops, g)))
        else:
            out.append(norm_eff(("setitem", ("setitem", m) + tuple(p[2][1:]), cx, loops + (p[1],), g + tuple(p[3]))))
    return tuple(out)


def norm_eff(e):
    k, data, cx, loops, g = e = deep(e)
    r = _norm_memo.get(("eff", id(e)))
    if r is None:
        r = _norm_memo["eff", id(e)] = deep(_norm_eff(e))
    return r


def _norm_eff(e):
    k, data, cx, loops, g = e
    g = norm_guards(g)
    known = known_keys(g)
    if known:
        data, g = settle_gets((data, g), known)
    data = norm(data)
    if k == "call" and data[1][0] == "attr" and data[1][2] == "remove" and len(data[2]) == 1:
        arg, c = data[2][0], data[1][1]
        xs = [(("op", "in", arg, c), True)]
        if c[0] == "coll" and len(c[2]) == 1 and c[2][0][0] == "item":
            xs += [(("op", o, a, b), True) for o in ("==", "is") for a, b in ((arg, c[2][0][1]), (c[2][0][1], arg))]
        x = next((x for x in xs if x in g), None)
        if x:
            data, g = ("call", ("attr", data[1][1], "discard"), data[2], ()), tuple(y for y in g if y != x)
    if k == "call" and data[1][0] == "attr" and data[1][2] == "difference_update" and len(data[2]) == 1 and not data[3] and data[2][0][0] not in ("star", "coll"):
        src = _consumed(data[2][0])
        data, loops = ("call", ("attr", data[1][1], "discard"), (("elem", src),), ()), loops + (src,)
    if k == "setitem" and data[2] == ("slice", NONE, ("const", "int", 0), NONE) and data[3][0] == "coll" and data[3][1] in ("list", "tuple") and len(data[3][2]) == 1 and data[3][2][0][0] == "item":
        k, data = "call", ("call", ("attr", data[1], "insert"), (("const", "int", 0), data[3][2][0][1]), ())
    if k == "call" and data[1][0] == "attr" and data[1][2] == "pop" and len(data[2]) == 2 and not data[3] and all(x[0] != "star" for x in data[2]):
        # what is popped is used nowhere: the key is removed where it is there
        k, g = "delitem", g + ((("op", "in", data[2][0], data[1][1]), True),)
        data = ("delitem", data[1][1], data[2][0])
    if k == "call" and data[1][0] == "attr" and data[1][2] == "setdefault" and len(data[2]) == 2 and not data[3] and all(x[0] != "star" for x in data[2]):
        k, g = "setitem", g + ((("op", "in", data[2][0], data[1][1]), False),)
        data = ("setitem", data[1][1]) + data[2]
    loops = tuple(_consumed(norm(l)) for l in loops)
    # nothing is done for the elements of what is empty
    g = tuple(x for x in norm_guards(g) if not (x[1] and x[0] in loops))
    return (k, norm(data), tuple(norm(c) for c in cx), loops, g)


def rename(v, m, memo=None):
    if not m:
        return v
    if not isinstance(v, tuple):
        return v
    if len(v) == 2 and v[0] == "param" and isinstance(v[1], str):
        return m.get(v, v)
    memo = {} if memo is None else memo
    r = memo.get(id(v))
    if r is None:
        r = memo[id(v)] = (tuple(rename(x, m, memo) if isinstance(x, tuple) else x for x in v), v)
    return r[0]


# ------------------------------------------------------------------ values
def worst(rs):
    st, why = EQ, None
    for s, w in rs:
        if s > st:
            st, why = s, w
    return st, why


def has_unk(v):
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x and x[0] == "unk":
            return True
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)
    return False


def vdiff(a, b, c, d=0):
    if a == b:
        return EQ, None
    key = (a, b)
    try:
        if key in c.memo:
            return c.memo[key]
    except TypeError:
        key = None
    r = _vdiff(a, b, c, d)
    if r[0] == UNK:
        r = by_vocabulary(a, b, c) or _dropped(a, b) or (r if r[1] is not None else (UNK, Undecided("cannot relate", a, b)))
    if key is not None:
        c.memo[key] = r
    return r


class Undecided:
    """Why two things could not be related (rendered only when asked for)."""

    def __init__(self, what, a=None, b=None):
        self.what, self.a, self.b = what, a, b

    def __str__(self):
        return f"{self.what}: {_short(self.a)} ~ {_short(self.b)}" if self.a is not None else self.what


def d_(msg):
    return DIFF, msg


def u_(what, a=None, b=None):
    return UNK, Undecided(what, a, b)


U = (UNK, None)


def _short(v):
    s = show(v, 5)
    return s if len(s) < 160 else s[:157] + "…"


class Deadline(Exception):
    pass


def _put_in(x, coll_):
    """x, or every value x may be, occurs in the collection."""
    held = set(map(deep, walk(coll_)))
    return all(deep(m) in held for m in (x[1] if x[0] == "phi" else (x,)))


def _vdiff(a, b, c, d):
    for x, y in ((a, b), (b, a)):
        # in step with something else, or by position in it
        if y[0] == "call" and y[1] == ("glob", "builtins.zip") and not (x[0] == "call" and x[1] == y[1]) \
                and any(z[0] != "star" and vdiff(*((x, z) if x is a else (z, x)), c, d + 1)[0] != DIFF for z in y[2]):
            return U
        if y[0] == "item" and y[2][0] == "idx" and x == ("elem", y[1]):
            return U  # in step by position
        # looked up in a collection it was put in
        if y[0] == "item" and y[1][0] == "coll" and any(p[0] == "each" for p in y[1][2]) \
                and not (x[0] == "item" and x[1][0] == "coll") and _put_in(x, y[1]):
            return U
    c.ticks += 1
    if not c.ticks & 255 and c.deadline is not None and time.process_time() > c.deadline:
        raise Deadline
    if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return d_(f"{a!r} became {b!r}")
    if a[0] == "any":
        return EQ, None
    if a[0] == "unk" or b[0] == "unk":
        return U
    ta, tb = a[0], b[0]
    if ta == "mu" and tb == "mu" and any(x == ("carry", a[2]) for x in walk(a[3])) and not any(x == ("carry", b[2]) for x in walk(b[3])):
        return d_("what the iterations so far came to is no longer used")
    if ta == "kept":
        if tb == "kept":
            s = vdiff(a[1], b[1], c, d + 1)
            return s if s[0] == EQ or a[1][0] == b[1][0] == "const" else U
        return d_("what a function given away has left there is no longer used") if tb == "const" else U
    if ta == "mu" and tb != "mu":
        return _heads(a, b, c, d)
    if ta == "mu" and tb == "mu" and a[1:3] == b[1:3]:
        r = _passed_over(a, b, c, d)
        if r is not None:
            return r
    if ta == "phi" or tb == "phi":
        return _phi(a, b, c, d)
    if ta == "coll" and tb == "coll":
        return _coll(a, b, c, d)
    if ta != tb:
        return _heads(a, b, c, d)
    if ta == "const":
        if isinstance(a[2], str) and isinstance(b[2], str) and (len(a[2]) > 40 or " " in a[2] and " " in b[2]):
            return EQ, None  # prose
        return d_(f"constant {_short(a)} became {_short(b)}")
    if ta == "param":
        return d_(f"{_short(b)} is used where {_short(a)} was")
    if ta == "glob":
        return _glob(a, b, c)
    if ta == "attr":
        s, w = vdiff(a[1], b[1], c, d + 1)
        if a[2] != b[2]:
            if s == EQ:
                return d_(f"{_short(b)} is used where {_short(a)} was")
            return U if s == UNK else (DIFF, w)
        return s, w
    if ta == "item":
        return worst([vdiff(a[1], b[1], c, d + 1), vdiff(a[2], b[2], c, d + 1)])
    if ta == "op":
        return _op(a, b, c, d)
    if ta == "call":
        return _call(a, b, c, d)
    if ta == "pair":
        return worst([vdiff(a[1], b[1], c, d + 1), vdiff(a[2], b[2], c, d + 1)])
    if ta == "lam":
        return _lam(a, b, c, d)
    if ta in ("elem", "idx", "val", "entered", "star", "gen"):
        if len(a) == len(b):
            return worst([vdiff(x, y, c, d + 1) for x, y in zip(a[1:], b[1:]) if isinstance(x, tuple) or isinstance(y, tuple)])
        return U
    if ta == "slice":
        return worst([vdiff(x, y, c, d + 1) for x, y in zip(a[1:], b[1:])])
    if ta == "bound":
        return d_("another closure parameter is used")
    if ta in ("caught", "unkexc", "sent", "reraise"):
        return EQ, None
    if ta == "partial":
        return worst([vdiff(a[1], b[1], c, d + 1)] + (
            [vdiff(x, y, c, d + 1) for x, y in zip(a[2], b[2])] if len(a[2]) == len(b[2]) else [U]))
    if ta == "super":
        return EQ, None
    if ta == "raises":
        return exc_diff(a[1], b[1], c)
    if ta == "captured":
        r = vdiff(a[1], b[1], c, d + 1)
        if r[0] != EQ:
            return U
        r = vdiff(a[2], b[2], c, d + 1)
        # what a closure leaves in a container depends on how its callers come to it
        return U if r[0] == DIFF and any(x[0] == "coll" and any(p[0] == "each" for p in x[2]) for x in (a[2], b[2])) and not _same_steps(a[2], b[2]) else r
    if ta == "carry":
        return (EQ, None) if vdiff(a[1], b[1], c, d + 1)[0] != DIFF else U
    if len(a) == len(b):
        return worst([vdiff(x, y, c, d + 1) for x, y in zip(a, b) if isinstance(x, tuple) and isinstance(y, tuple)])
    return U


def _dropped(a, b):
    """Is b what a is, but for what a function of the program made of a parameter, where b has the parameter?"""
    if not a or not b or a[0] not in ("coll", "call", "item", "op", "pair"):
        return None
    k = id(a)
    if k not in _MADE:
        out = []
        for x in walk(a):
            y = x[1] if x[0] == "item" and len(x) == 3 and x[2][0] == "const" else x
            if y[0] == "call" and len(y) == 4 and y[1][0] == "glob" and y[1][1].startswith("effectful."):
                out.extend((x, z) for z in y[2] if z[0] in ("param", "bound"))
        _MADE[k] = (a, out)
    for x, z in _MADE[k][1]:
        if replace(a, x, z) == b:
            return d_(f"{_short(z)} is no longer put through {_short((x if x[0] == 'call' else x[1])[1])}")
    return None


_MADE = {}


def _same_steps(a, b):
    """Is something else put there in a step taken under the same conditions, in which nothing more is put there?"""
    if not a[0] == b[0] == "coll" or any(has_unk(v) or any(x and x[0] in ("carry", "mu") for x in walk(v)) for v in (a, b)):
        return False
    if len(a[2]) == len(b[2]):
        off = [(p, q) for p, q in zip(a[2], b[2]) if p != q]
        if len(off) == 1:
            (p, q), = off
            if p[0] == q[0] == "each" and p[1:3] == q[1:3] and (set(p[3]) < set(q[3]) or set(q[3]) < set(p[3])):
                return True
    for p in a[2]:
        for q in b[2]:
            if p[0] == q[0] == "each" and p[1] == q[1] and p[3] == q[3] and p[2] != q[2]:
                return all(x is p or x is q or x[0] == "each" and any((g, not t) in x[3] or not t and g[:2] == ("op", "in") and ("item", g[3], g[2]) in walk(x[3]) for g, t in p[3])
                           for x in a[2] + b[2])
    return False


BENIGN_ATTRS = {"keys", "items", "values", "copy", "get", "append", "extend", "add", "update", "setdefault", "pop"}
BENIGN_GLOBS = BENIGN_WRAPPERS | {
    "builtins.bool", "builtins.len", "builtins.any", "builtins.all", "builtins.map", "builtins.filter", "builtins.zip",
    "builtins.enumerate", "builtins.range", "builtins.next", "builtins.sorted", "builtins.reversed", "builtins.isinstance",
    "builtins.issubclass", "builtins.getattr", "builtins.hasattr", "builtins.type", "builtins.slice", "builtins.str",
    "builtins.sum", "builtins.min", "builtins.max", "builtins.callable"}
# ways of walking a sequence (together with another, with its positions, by position)
ITERATORS = {"builtins.zip", "builtins.enumerate", "builtins.range", "builtins.map", "builtins.filter", "builtins.iter", "itertools.chain",
             "itertools.chain.from_iterable", "itertools.zip_longest", "itertools.starmap", "builtins.len"}
_leaf_memo = {}
COMMUTATIVE = {"|", "&", "^", "+", "*", "==", "is", "and", "or"}


def leaves(v):
    """The names and constants a value is made of."""
    r = _leaf_memo.get(id(v)) if type(v) is V else None
    if r is not None:
        return r
    out = set()
    if v and isinstance(v[0], str):
        t = v[0]
        if t in ("unk", "unkexc"):
            out.add(("unk",))
        elif t == "param" and len(v) == 2:
            out.add(("param", v[1]))
        elif t == "bound":
            out.add(tuple(v))
        elif t == "glob":
            if v[1] not in BENIGN_GLOBS and not (v[1].startswith("builtins.") and v[1].count(".") > 1):
                out.add(("glob", v[1]))
            if v[1].startswith("effectful.") and False:
                out.add(("unk",))
        elif t == "const" and len(v) == 3:
            if isinstance(v[2], str):
                if len(v[2]) <= 40 and " " not in v[2] and v[2]:
                    out.add(("const", v[2]))
            elif v[2] not in (None, True, False, 0, 1):
                out.add(("const", repr(v[2])))
        elif t == "attr" and len(v) == 3:
            if v[2] not in BENIGN_ATTRS:
                out.add(("attr", v[2]))
            out |= leaves(v[1])
        else:
            if t in ("late", "early"):
                out.add((t, t))
            if t == "op" and len(v) == 4 and v[1] not in ("==", "is", "in", "and", "or", "<", ">", "<=", ">=", "meet"):
                out.add(("op", v[1]))
            for x in v[1:]:
                if isinstance(x, tuple):
                    out |= leaves(x)
                elif t in ("rec",):
                    out.add(("rec",))
    else:
        for x in v:
            if isinstance(x, tuple):
                out |= leaves(x)
    r = frozenset(out)
    if type(v) is V:
        _leaf_memo[id(v)] = r
    return r


_sorted_memo = {}


def _sorted_form(v):
    """Operands of commutative operators in one order: what such a difference amounts to."""
    if not isinstance(v, tuple):
        return v
    v = deep(v)
    r = _sorted_memo.get(id(v))
    if r is None:
        r = _sorted_memo[id(v)] = deep(_sorted(v))
    return r


def _sorted(v):
    w = tuple(_sorted_form(x) for x in v)
    if w and w[0] == "op" and len(w) == 4 and w[1] in COMMUTATIVE:
        flat = []
        for x in w[2:]:
            flat.extend(x[2:] if x and x[0] == "op" and x[1] == w[1] else (x,))
        return w[:2] + tuple(sorted(flat, key=okey))
    if w and w[0] == "coll" and len(w) == 3 and isinstance(w[2], tuple):
        return (w[0], "seq" if w[1] in SEQ else w[1], tuple(sorted(w[2], key=okey)))
    return w


CONTAINER_METHODS = {m for t in (set, list, dict, str, tuple) for m in dir(t) if not m.startswith("_")}
SMALL = 20
_bulk_memo = {}


def bulk(v):
    """How much a value is made of; anything built by iteration or with alternatives is too much."""
    if not isinstance(v, tuple):
        return 0
    r = _bulk_memo.get(id(v)) if type(v) is V else None
    if r is None:
        if v and v[0] in ("phi", "lam", "each"):
            r = 1000
        else:
            r = 1 + sum(bulk(x) for x in v if isinstance(x, tuple))
        if type(v) is V:
            _bulk_memo[id(v)] = r
    return r


def _open_phi(v):
    """Alternatives whose conditions are not known."""
    if not isinstance(v, tuple) or not v:
        return False
    r = _open_memo.get(id(v)) if type(v) is V else None
    if r is None:
        r = v[0] == "phi" and (len(v) < 3 or any(g is None for g in v[2])) or any(_open_phi(x) for x in v if isinstance(x, tuple))
        if type(v) is V:
            _open_memo[id(v)] = r
    return r


_open_memo = {}


INEXACT = {"allclose", "isclose"}


def by_vocabulary(a, b, c):
    """Two values that do not align still differ definitely when one is made of strictly less, or
    both of the same."""
    if type(a) is not V or type(b) is not V:
        return None
    if a[0] == "elem" and b[0] == "item" and b[1] == a[1] and b[2][0] == "idx":
        return None  # gone through in step before
    la, lb = leaves(a), leaves(b)
    if ("unk",) in la or ("unk",) in lb:
        return None
    lost, gained = la - lb, lb - la
    if ("late", "late") in gained:
        return d_(f"{_short(a)} became {_short(b)}: the variable of the iteration {TIMES['late']}")
    if any(x[0] == "glob" and c.is_repo(x[1]) and not c.known_repo(x[1]) for x in lb):
        return None
    if any(x[0] == "glob" and c.is_repo(x[1]) and not c.exists_now(x[1]) for x in la):
        return None
    if any(x[0] == "glob" and x[1].rsplit(".", 1)[-1] in INEXACT for x in gained):
        return d_(f"{_short(a)} became {_short(b)}: only approximately equal")
    if lost and gained:
        return None
    if _open_phi(b if lost else a):
        return None
    if lost:
        if a[0] == "call" and a[1] == ("glob", "builtins.zip") and b in a[2]:
            return None  # what was gone through in step may be looked up by position now
        sig = [x for x in lost if x[0] in ("param", "glob") or x[0] == "bound" and not any(y and y[0] == "lam" for y in walk(a)) or x[0] == "attr" and x[1] not in CONTAINER_METHODS]
        return d_(f"{_short(a)} became {_short(b)}: {', '.join(sorted(str(x[1]) for x in sig))} plays no part") if sig else None
    if gained:
        if any(y == ("glob", "builtins.zip") for y in walk(b)) and not any(y == ("glob", "builtins.zip") for y in walk(a)):
            return None  # what is gone through in step may have been looked up by position before
        sig = [x for x in gained if x[0] == "param" or x[0] == "glob" and c.is_repo(x[1])]
        return d_(f"{_short(a)} became {_short(b)}: {', '.join(sorted(str(x[1]) for x in sig))} was added") if sig else None
    if not la or a[0] in ("const",) or b[0] in ("const",):
        return None
    if bulk(a) > SMALL or bulk(b) > SMALL:
        return None
    if _sorted_form(a) == _sorted_form(b):
        return None
    if a[0] == b[0] == "call" and a[1] == b[1] and len(a[2]) != len(b[2]) \
            and sorted(a[2] + tuple(v for _, v in a[3]), key=okey) == sorted(b[2] + tuple(v for _, v in b[3]), key=okey):
        return None  # by keyword what was by position
    if any(x and x[0] == "item" and len(x) == 3 and x[2][0] == "idx" and any(y == ("elem", x[1]) for y in walk(a)) for x in walk(b)):
        return None
    return d_(f"{_short(a)} became {_short(b)}")


def _glob(a, b, c):
    qa, qb = a[1], b[1]
    if c.is_repo(qa) and not c.exists_now(qa):
        return U  # renamed or moved
    if c.is_repo(qb) and not c.known_repo(qb):
        return U  # new in this tree
    if qa.rsplit(".", 1)[-1] == qb.rsplit(".", 1)[-1] and not (c.is_repo(qa) and c.is_repo(qb)):
        return U  # another import path of the same name
    if any(qa.rsplit(".", 1)[-1] in x and qb.rsplit(".", 1)[-1] in x for x in SYNONYMS):
        return U
    return d_(f"{qb} is used where {qa} was")


# different names of one function in the array libraries
SYNONYMS = [
    {"mod", "remainder"}, {"abs", "absolute"}, {"divide", "true_divide", "div"}, {"conj", "conjugate"}, {"max", "amax"},
    {"min", "amin"}, {"invert", "bitwise_not", "bitwise_invert", "logical_not"}, {"left_shift", "bitwise_left_shift"},
    {"right_shift", "bitwise_right_shift"}, {"power", "pow", "float_power"}, {"permute", "permute_dims", "transpose"},
    {"eq", "equal"}, {"ne", "not_equal"}, {"lt", "less"}, {"le", "less_equal"}, {"gt", "greater"}, {"ge", "greater_equal"},
    {"neg", "negative"}, {"sub", "subtract"}, {"mul", "multiply"}, {"round", "around"}, {"cat", "concat", "concatenate"},
    {"asarray", "array", "as_tensor", "tensor"}, {"reshape", "view"}, {"floor_divide", "floordiv"}, {"add", "sum"},
]


def _phi(a, b, c, d):
    A = _alts(a)
    B = _alts(b)
    if len(A) > 12 or len(B) > 12:
        return U
    restA, restB = list(A), list(B)
    res = []
    for x in A:
        for y in restB:
            if vdiff(x[0], y[0], c, d + 1)[0] == EQ:
                restA.remove(x)
                restB.remove(y)
                res.append(_when_diff(x[1], y[1], c))
                break
    if not restA and not restB:
        return worst(res)
    if len(restA) == 1 and len(restB) == 1 and len(A) == len(B):
        return vdiff(restA[0][0], restB[0][0], c, d + 1)
    if restA and restB:
        # none of the alternatives left is one of the confirmed ones
        n = len(restA)
        if n == len(restB) and n <= 4:
            # however they are matched up, some pair certainly differs
            M = [[vdiff(x[0], y[0], c, d + 1) for y in restB] for x in restA]
            for p in permutations(range(n)):
                if not any(M[i][p[i]][0] == DIFF for i in range(n)):
                    return U
            return next(w for r in M for w in r if w[0] == DIFF)
        ws = [vdiff(x[0], y[0], c, d + 1) for x in restA for y in restB]
        return ws[0] if all(s == DIFF for s, _ in ws) else U
    if restA and any(_steps(x[0]) for x in restA) and not any(_steps(x[0]) for x in B):
        return d_(f"{_short(next(x[0] for x in restA if _steps(x[0])))} is no longer accumulated")
    return U


def _steps(v):
    """Is it made from the elements of an iteration?"""
    return any(x and x[0] == "elem" for x in walk(v))


def _alts(v):
    if v[0] != "phi":
        return [(v, None)]
    return list(zip(v[1], v[2] if len(v) > 2 else [None] * len(v[1])))


def _when_diff(ga, gb, c):
    """When is this the value carried out of the loop?"""
    if ga is None or gb is None or ga == gb:
        return EQ, None
    if len(ga) == 1 and len(gb) == 1:
        return guards_diff(ga[0], gb[0], c)
    if len(ga) == len(gb):
        left = list(gb)
        for x in ga:
            y = next((y for y in left if guards_diff(x, y, c)[0] == EQ), None)
            if y is None:
                break
            left.remove(y)
        else:
            return EQ, None
        if len(left) == 1:
            return guards_diff(x, left[0], c)
    return dnf_diff(ga, gb, c)


def _coll(a, b, c, d):
    ka, kb = a[1], b[1]
    kd = None
    if ka != kb:
        if "copy" in (ka, kb):
            kd = None
            if {ka, kb} & {"dict", "set", "list"} and a[2] and a[2] == b[2]:
                return EQ, None
        elif ka in SEQ and kb in SEQ:
            if d == 0 and "iter" not in (ka, kb):
                kd = d_(f"a {kb} is built where a {ka} was")
            else:
                kd = U if "iter" in (ka, kb) or d else None
        else:
            kd = d_(f"a {kb} is built where a {ka} was")
    r = _parts(a[2], b[2], c, d, ka)
    return worst([r, kd] if kd else [r])


def _groups(ps):
    out = {}
    for p in ps:
        out.setdefault((p[1], p[2]) + p[4:], []).append(p[3])
    return list(out.items())


def dnf_diff(ta, tb, c):
    """Two disjunctions of conjunctions over (mostly) the same conditions."""
    if ta == tb:
        return EQ, None
    amap = {}
    sa = list(dict.fromkeys(a for t in ta for a, _ in t))
    sb = list(dict.fromkeys(a for t in tb for a, _ in t))
    left = [a for a in sa if a not in sb]
    alien = []
    for b in sb:
        if b in sa:
            continue
        hit = next((a for a in left if vdiff(a, b, c)[0] == EQ), None)
        if hit is None:
            alien.append(b)
        else:
            left.remove(hit)
            amap[b] = hit
    fa = prime_implicants([t for t in ta if _satisfiable(t)])
    fb = prime_implicants([t for t in (tuple((amap.get(a, a), p) for a, p in t) for t in tb) if _satisfiable(t)])
    if fa is None or fb is None:
        return U
    if fa == fb:
        return EQ, None
    sa = {a for t in fa for a, _ in t}
    sb = {a for t in fb for a, _ in t}
    left, alien = sorted(sa - sb, key=okey), sorted(sb - sa, key=okey)
    if not left and not alien:
        w = _joint(fa, fb, c)
        return U if w is None else d_(f"the condition {_dshow(fa)} became {_dshow(fb)}")
    if bool(left) != bool(alien) and any(_of_empty(x) for x in left + alien):
        return U
    if left and not alien:
        return d_(f"the condition {_short(left[0])} is no longer required")
    if alien and not left:
        return d_(f"the condition {_short(alien[0])} was added")
    if len(left) == 1 and len(alien) == 1 and kin(left[0], alien[0], c):
        return d_(f"the condition {_short(left[0])} became {_short(alien[0])}")
    if len(left) * len(alien) <= 16 and all(_same_head(x, y) and kin(x, y, c) for x in left for y in alien):
        return d_(f"the condition {_dshow(fa)} became {_dshow(fb)}")
    return U


def _dshow(f):
    return " or ".join(_gshow(t) for t in f[:3]) if f else "never"


def _joint(fa, fb, c):
    """An assignment on which the two disjunctions differ and which is not obviously impossible."""
    atoms = sorted({a for f in (fa, fb) for t in f for a, _ in t}, key=okey)
    if len(atoms) > 10:
        return ()
    for n in range(1 << len(atoms)):
        v = {a: bool(n >> i & 1) for i, a in enumerate(atoms)}
        if any(all(v[a] == p for a, p in t) for t in fa) != any(all(v[a] == p for a, p in t) for t in fb):
            if not _infeasible(tuple(v.items()), (), {}, c):
                return v
    return None


def _in_turn(pairs, kind, c):
    """pairs: what the groups of the one side go through, their places, conditions, and places on the other.  Do those that may
    both contribute still come in the same order?"""
    if kind not in ("list", "tuple", "iter"):
        return EQ, None
    res = EQ, None
    for i, (src, na, ta, nb) in enumerate(pairs):
        for other, ma, ua, mb in pairs[i + 1:]:
            if na[-1] < ma[0] and nb[-1] < mb[0] or ma[-1] < na[0] and mb[-1] < nb[0] or not any(_together(x, y, c) for x in ta for y in ua):
                continue
            if kind == "iter" or src == other or not (na[-1] < ma[0] and mb[-1] < nb[0] or ma[-1] < na[0] and nb[-1] < mb[0]):
                res = U
            else:
                return d_("the order of items changed")
    return res


def _places(ps, key):
    return [i for i, p in enumerate(ps) if (p[1], p[2]) + p[4:] == key]


def _together(g, h, c):
    """Both may hold."""
    gs = tuple(g) + tuple(h)
    return _satisfiable(gs) and not _infeasible(gs, (), {}, c)


def _eaches(pa, pb, c, d, kind):
    """Only iterations on both sides: what is yielded from where, and when."""
    A, B = _groups(pa), _groups(pb)
    if len(A) != len(B):
        return None
    left, rest, rs, turns = list(B), [], [], []
    for ka, ta in A:
        hit = next((x for x in left if x[0] == ka), None) or next(
            (x for x in left if vdiff(ka[0], x[0][0], c, d + 1)[0] == EQ and vdiff(ka[1], x[0][1], c, d + 1)[0] == EQ), None)
        if hit is None:
            rest.append((ka, ta))
        else:
            left.remove(hit)
            rs.append(dnf_diff(ta, hit[1], c))
            turns.append((ka[0], _places(pa, ka), ta, _places(pb, hit[0])))
    rs.append(_in_turn(turns, kind, c))
    if len(rest) == 1 and len(left) == 1:
        (ka, ta), (kb, tb) = rest[0], left[0]
        r = [vdiff(ka[0], kb[0], c, d + 1), vdiff(ka[1], kb[1], c, d + 1), dnf_diff(ta, tb, c)]
        rs.append(U if any(s == UNK for s, _ in r) else worst(r))
    elif rest or left:
        return None
    return worst(rs)


@functools.lru_cache(maxsize=None)
def _of_empty(t):
    """Does it look something up in what is an empty container as far as is known?  (It is filled between calls.)"""
    for x in walk(t):
        m = x[3] if x[:2] == ("op", "in") and len(x) == 4 else x[1] if x[0] == "item" and len(x) == 3 else None
        if m is not None and m[0] == "coll" and m[1] in ("dict", "set", "list") and not m[2]:
            return True
        if m is not None and x[0] == "op" and x[2] == ("const", "NoneType", None):
            return True  # whether there is a None among them is not for the code to say
    return False


def _has_did(t):
    """Whether a change in place that is not an addition is part of a term."""
    return isinstance(t, tuple) and (t[:2] == ("op", "did") or any(_has_did(x) for x in t))


def _parts(pa, pb, c, d, kind):
    unordered = kind in ("set", "dict")
    if pa and pb and all(p[0] == "each" for p in pa + pb) and (len(pa) > 1 or len(pb) > 1):
        r = _eaches(pa, pb, c, d, kind)
        if r is not None:
            return r
    if len(pa) == len(pb):
        pa, pb = _spliced(pa, pb), _spliced(pb, pa)
        rs = [_part(x, y, c, d) for x, y in zip(pa, pb)]
        w = worst(rs)
        if w[0] == EQ:
            return w
        if unordered or True:
            m = _match(pa, pb, c, d)
            if m is not None and (unordered and kind != "dict"):
                return m
            if m is not None and m[0] == EQ:
                # same parts, another order
                if all(p[0] == "item" and p[1][0] == "pair" and p[1][1][0] == "const" for p in pa):
                    return m
                if kind == "dict" and any(p[0] == "star" for p in pa):
                    stars = [x for x in pa if x[0] == "star"]
                    if _star_order(pa, stars, c, d) == _star_order(pb, stars, c, d):
                        return m
                    return d_("the precedence of merged mappings changed")
                if all(p[0] == "each" for p in pa):
                    return m
                if kind in SEQ:
                    return U if any(_has_did(p) for p in pa) else d_("the order of items changed")
                return m
            # one part differs
            if sum(1 for s, _ in rs if s != EQ) == 1:
                return w
            if all(p[0] == "item" for p in pa + pb):
                return w
            if m is not None:
                return m
        return U if w[0] == UNK or any(s == UNK for s, _ in rs) else w
    if not pa or not pb:
        rest = pa or pb
        if all(p[0] == "each" or p[0] == "star" for p in rest):
            return U if all(p[0] == "each" for p in rest) else (d_(f"the items of {_short(rest[0][1])} are lost") if pa else d_(f"items of {_short(rest[0][1])} were added"))
        return d_("items were lost") if pa else d_("items were added")
    # subset?
    small, big, lost = (pb, pa, True) if len(pb) < len(pa) else (pa, pb, False)
    left = list(big)
    for x in small:
        for y in left:
            s = (_part(y, x, c, d) if lost else _part(x, y, c, d))[0]
            if s == EQ:
                left.remove(y)
                break
        else:
            return U if not all(p[0] == "item" for p in pa + pb) else d_(f"{len(pb)} items where there were {len(pa)}")
    if all(p[0] == "each" for p in pa + pb):
        # guarded alternatives of one iteration: a missing case
        its = {p[1] for p in pa + pb}
        if len(its) == 1 and lost:
            return d_(f"elements of {_short(left[0][1])} satisfying {_gshow(left[0][3])} are lost")
        if len(left) == 1 and not left[0][3] and not any(vdiff(left[0][1], p[1], c, d + 1)[0] == EQ for p in small):
            return d_(("lost " if lost else "added ") + _pshow(left[0]))
        return U
    return d_(("lost " if lost else "added ") + _pshow(left[0]))


def _spliced(pa, pb):
    """Mappings spliced in whole, entry by entry where the other goes through the entries of the same one."""
    if not any(p[0] == "star" for p in pa):
        return pa
    keys = {x[1][1] for x in pa + pb if x[0] == "item" and x[1][0] == "pair"}
    own = {}
    for p in pb:
        if p[0] == "each" and p[3] and p[2] == ("pair", ("elem", p[1]), ("item", p[1], ("elem", p[1]))) \
                and not any(x in keys for g, _ in p[3] for x in g if isinstance(x, tuple)):
            own[p[1]] = ("each", p[1], p[2], ())
    return tuple(own.get(p[1], p) if p[0] == "star" else p for p in pa)


def _star_order(parts, stars, c, d):
    """Where each merged mapping sits among the other parts."""
    out, n = [], 0
    for p in parts:
        k = next((i for i, x in enumerate(stars) if _part(x, p, c, d)[0] == EQ), None) if p[0] == "star" else None
        if k is None:
            n += 1
        else:
            out.append((k, n))
    return out


def _gshow(gs):
    return " and ".join(("" if b else "not ") + _short(a) for a, b in gs) or "always"


def _pshow(p):
    return _short(p[1]) if p[0] != "each" else f"{_short(p[2])} for each {_short(p[1])}"


def _match(pa, pb, c, d):
    left = list(pb)
    unk = False
    for x in pa:
        best = None
        for y in left:
            s = _part(x, y, c, d)[0]
            if s == EQ:
                best = y
                break
        if best is None:
            return None
        left.remove(best)
    return EQ, None


def _part(x, y, c, d):
    if x == y:
        return EQ, None
    if {x[0], y[0]} == {"each", "star"} and all(kind := (_seq_part(x), _seq_part(y))):
        x, y = kind
    if x[0] != y[0]:
        return U
    if x[0] == "each":
        if _stepped(x, y, c) or _stepped(y, x, c):
            return U
        if (_a_set(x[1]) or _a_set(y[1])) and x[1] != y[1] and len(x) == len(y) == 4:
            # in the order of a set, or of what it was made of
            v, w = _over(x, _repeating(x[1])), _over(y, _repeating(y[1]))
            if not (v[1] == x[1] and w[1] == y[1]):
                r = _part(v, w, c, d + 1)
                return U if r[0] == EQ else r
        r = [vdiff(x[1], y[1], c, d + 1), vdiff(x[2], y[2], c, d + 1)]
        r.append(dnf_diff([x[3]], [y[3]], c))
        w = worst(r)
        if w[0] == DIFF and any(s == UNK for s, _ in r):
            return U
        return w
    return vdiff(x[1], y[1], c, d + 1)


def _stepped(x, y, c):
    """Does x walk two sequences in step where y walks one and looks the other up by position?"""
    s = x[1]
    return s[0] == "call" and s[1] == ("glob", "builtins.zip") and any(v == ("idx", y[1]) for v in walk(y[2]) if len(v) == 2) and any(vdiff(y[1], _consumed(a), c)[0] != DIFF for a in s[2])


def _over(p, src):
    """The same for each element of another source."""
    if src == p[1]:
        return p
    sub = {("elem", p[1]): ("elem", src), ("idx", p[1]): ("idx", src)}
    return ("each", src, norm(_sub2(p[2], sub)), norm_guards(_sub2(p[3], sub)))


def _seq_part(p):
    """What is spliced in, element by element (a mapping spliced into a mapping has pairs instead)."""
    if p[0] == "each":
        return p if p[2][0] != "pair" else None
    m = p[1]
    if m[0] == "call" and m[1][0] == "attr" and m[1][2] == "values" and not m[2] and not m[3]:
        return ("each", m[1][1], ("item", m[1][1], ("elem", m[1][1])), ())
    return ("each", m, ("elem", m), ())


def guards_diff(ga, gb, c):
    A, B = dict(ga), dict(gb)
    if A == B:
        return EQ, None
    for k in A:
        if k in B and A[k] != B[k]:
            return d_(f"the condition {_short(k)} is negated")
    la = [k for k in A if k not in B]
    lb = [k for k in B if k not in A]
    # align by tolerant equality
    for k in list(la):
        for k2 in list(lb):
            if vdiff(k, k2, c)[0] == EQ:
                if A[k] != B[k2]:
                    return d_(f"the condition {_short(k)} is negated")
                la.remove(k)
                lb.remove(k2)
                break
    if not la and not lb:
        return EQ, None
    if bool(la) != bool(lb) and any(_of_empty(x) for x in la + lb):
        return U
    if la and not lb:
        return d_(f"the condition {_short(la[0])} is no longer required")
    if lb and not la:
        return d_(f"the condition {_short(lb[0])} was added")
    if len(la) == 1 and len(lb) == 1:
        k = kin(la[0], lb[0], c)
        if k:
            return d_(f"the condition {_short(la[0])} became {_short(lb[0])}")
    return U


def _op(a, b, c, d):
    if a[1] == "fstr" and b[1] == "fstr":
        A, B = set(a[2:]), set(b[2:])
        return (EQ, None) if A == B else U
    if a[1] in ("+", "-", "neg") or b[1] in ("+", "-", "neg"):
        r = _sums(a, b)
        if r is not None:
            return r
    if a[1] != b[1]:
        if len(a) == len(b) and len(a) > 2:
            s, _ = worst([vdiff(x, y, c, d + 1) for x, y in zip(a[2:], b[2:])])
            if s == EQ:
                if {a[1], b[1]} == {"+", "fstr"} and not any(x[0] == "op" and x[1] in ("format", "conv") for z in (a, b) for x in walk(z) if len(x) > 1):
                    return U  # the same for texts
                return d_(f"operator {a[1]} became {b[1]}")
            if len(a) == 4:
                s, _ = worst([vdiff(a[2], b[3], c, d + 1), vdiff(a[3], b[2], c, d + 1)])
                if s == EQ:
                    return d_(f"operator {a[1]} became {b[1]} with operands swapped")
        return U
    if a[1] == "matches":
        return vdiff(a[2], b[2], c, d + 1) if a[3] == b[3] else U
    if len(a) != len(b):
        return U
    if a[1] == "in" and a[3] != b[3]:
        return worst([vdiff(a[2], b[2], c, d + 1), vdiff(_keys_only(a[3]), _keys_only(b[3]), c, d + 1)])
    rs = [vdiff(x, y, c, d + 1) for x, y in zip(a[2:], b[2:])]
    if a[1] in COMMUTE and len(a) == 4 and worst(rs)[0] == UNK and all(r[0] != EQ for r in rs):
        # the operands of a comparison come in no particular order
        other = [vdiff(x, y, c, d + 1) for x, y in zip(a[2:], b[:1:-1])]
        if any(r[0] == EQ for r in other):
            rs = other
    return worst(rs)


def _keys_only(v):
    if v[0] == "coll" and v[1] in ("dict", "copy") and all(p[0] == "star" or p[0] in ("item", "each") and p[1 if p[0] == "item" else 2][0] == "pair" for p in v[2]):
        return norm(("coll", "iter", tuple(p if p[0] == "star" else ("item", p[1][1]) if p[0] == "item" else p[:2] + (p[2][1],) + p[3:] for p in v[2])))
    return v


def _exists_sig(c, q):
    fi = c.p.funcs.get(q)
    return fi


def _as_known(a, c):
    """The arguments a starred one stands for, where how many is known."""
    if a[0] != "star":
        return (a,)
    v, lo = a[1], 0
    if v[0] == "item" and len(v) == 3 and v[2][0] == "slice" and v[2][2:] == (NONE, NONE) and v[2][1][:2] == ("const", "int") and v[2][1][2] > 0:
        v, lo = v[1], v[2][1][2]
    n = c.arity(v)
    return [deep(("item", v, ("const", "int", i))) for i in range(lo, n)] if n else (a,)


def _canon_args(v, c):
    """Positional form of a call to a repository function."""
    f, args, kws = v[1], v[2], v[3]
    if any(a[0] == "star" for a in args):
        args = tuple(x for a in args for x in _as_known(a, c))
    if f[0] == "attr" and f[2] in METHOD_KEYWORDS and kws and all(a[0] != "star" for a in args):
        names, kw, out = METHOD_KEYWORDS[f[2]], dict(kws), list(args)
        while len(out) < len(names) and names[len(out)] in kw:
            out.append(kw.pop(names[len(out)]))
        return tuple(out), dict_kws(tuple(kw.items()))
    if f[0] != "glob" or any(a[0] == "star" for a in args) or any(k is None for k, _ in kws):
        return args, dict_kws(kws)
    names = c.ref_sigs.get(f[1]) if c.is_repo(f[1]) else external_names(f[1]) if kws else ()
    if not names:
        return args, dict_kws(kws)
    kw = dict(kws)
    out = list(args)
    i = len(out)
    while i < len(names) and names[i] in kw:
        out.append(kw.pop(names[i]))
        i += 1
    return tuple(out), kw


METHOD_KEYWORDS = {"splitlines": ("keepends",), "split": ("sep", "maxsplit"), "rsplit": ("sep", "maxsplit"), "encode": ("encoding", "errors"), "decode": ("encoding", "errors")}
_ext = {}
STDLIB = {"ast", "json", "os", "functools", "itertools", "inspect", "typing", "collections", "linecache", "contextlib", "tempfile", "subprocess", "dataclasses", "re",
          "string", "textwrap", "warnings", "weakref", "operator", "enum", "types", "io", "sys", "threading", "random", "logging", "uuid", "shutil", "traceback", "copy",
          "builtins", "codeop", "code"}


def external_names(q):
    """The positional parameters of a function outside the repository, where known."""
    if not _ext:
        import json
        import pathlib

        f = pathlib.Path(__file__).resolve().parent.parent / "spec" / "external.json"
        _ext.update(json.loads(f.read_text()) if f.exists() else {})
        _ext.setdefault("", [])
    if q not in _ext:
        _ext[q] = _stdlib_names(q) if q.split(".")[0] in STDLIB else []
    return _ext[q]


def _stdlib(q):
    import importlib
    import inspect

    parts = q.split(".")
    for n in range(len(parts) - 1, 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:n]))
        except ImportError:
            continue
        try:
            for x in parts[n:]:
                o = getattr(o, x)
            return o, inspect
        except AttributeError:
            return None, inspect
    return None, inspect


def _stdlib_names(q):
    o, inspect = _stdlib(q)
    try:
        return [p.name for p in inspect.signature(o).parameters.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
    except (ValueError, TypeError):
        return []


_ext_def = {}


def external_defaults(q):
    """The constants parameters of a function outside the repository default to, where known."""
    if not _ext_def:
        import json
        import pathlib

        f = pathlib.Path(__file__).resolve().parent.parent / "spec" / "external_defaults.json"
        _ext_def.update({k: {n: ("const", *d) for n, d in v.items()} for k, v in json.loads(f.read_text()).items()} if f.exists() else {})
        _ext_def.setdefault("", {})
    if q not in _ext_def:
        _ext_def[q] = _stdlib_defaults(q) if q.split(".")[0] in STDLIB else {}
    return _ext_def[q]


def _stdlib_defaults(q):
    o, inspect = _stdlib(q)
    try:
        return {p.name: ("const", type(p.default).__name__, p.default) for p in inspect.signature(o).parameters.values()
                if type(p.default) in (bool, int, str, type(None))}
    except (ValueError, TypeError):
        return {}


def _no_defaults(q, args, kws):
    """The arguments that are not what the parameter defaults to anyway."""
    ds = external_defaults(q)
    if not ds:
        return args, kws
    if any(a[0] == "star" for a in args) or any(isinstance(k, tuple) for k in kws):
        return args, kws
    kws = {k: v for k, v in kws.items() if ds.get(k) != v}
    names = external_names(q)
    while args and len(args) <= len(names) and ds.get(names[len(args) - 1]) == args[-1]:
        args = args[:-1]
    return args, kws


def dict_kws(kws):
    out = {}
    n = 0
    for k, v in kws:
        if k is None:
            out[("**", n)] = v
            n += 1
        else:
            out[k] = v
    return out


def _call(a, b, c, d):
    fa, fb = a[1], b[1]
    rf = vdiff(fa, fb, c, d + 1)
    if rf[0] == UNK:
        return U
    aa, ka = _canon_args(a, c)
    ab, kb = _canon_args(b, c)
    if fa[0] == "glob" and fa == fb and not c.is_repo(fa[1]):
        aa, ka = _no_defaults(fa[1], aa, ka)
        ab, kb = _no_defaults(fa[1], ab, kb)
    if rf[0] == DIFF:
        # another callee: definite only when it can be told apart
        if fa[0] == fb[0]:
            return rf
        if fa[0] in ("glob", "attr", "param") and fb[0] in ("glob", "attr", "param"):
            return U
        return rf
    if fa[0] == "glob" and _is_exc(fa[1]) and not (c.is_repo(fa[1]) and c.ref_sigs.get(fa[1])):
        return EQ, None
    rs = []
    sa = any(x[0] == "star" for x in aa)
    sb = any(x[0] == "star" for x in ab)
    if len(aa) == len(ab):
        rs += [vdiff(x, y, c, d + 1) for x, y in zip(aa, ab)]
        if fa[0] == "glob" and not fa[1].startswith(("builtins.", "itertools.", "functools.")):
            for x, y in zip(aa, ab):
                if _counts(y) and not any(_counts(z) or z and z[0] == "idx" for z in walk(x)):
                    rs.append(d_(f"{_short(y)} is used where {_short(x)} was"))
    else:
        same_total = len(aa) + len(ka) == len(ab) + len(kb)
        if sa or sb:
            rs.append(_star_args(aa, ab, c, d))
        elif same_total and not any(isinstance(k, tuple) for k in list(ka) + list(kb)):
            return U  # keyword versus positional of an external callee
        else:
            rs.append(d_(f"{len(ab) + len(kb)} arguments are passed to {_short(fa)} where {len(aa) + len(ka)} were"))
    for k in set(ka) | set(kb):
        if k not in kb:
            nm = k if isinstance(k, str) else "**" + _short(ka[k])
            if isinstance(k, str) and ka[k] == ("const", "NoneType", None) or any(not isinstance(q, str) and has_unk(v) for q, v in kb.items()):
                rs.append(U)
            else:
                rs.append(d_(f"the call of {_short(fa)} no longer passes {nm}"))
        elif k not in ka:
            nm = k if isinstance(k, str) else "**" + _short(kb[k])
            if isinstance(k, str) and kb[k] == ("const", "NoneType", None) or kb[k] == ("const", "bool", False) or has_unk(kb[k]):
                rs.append(U)
            else:
                rs.append(d_(f"the call of {_short(fa)} now passes {nm}"))
        else:
            rs.append(vdiff(ka[k], kb[k], c, d + 1))
    w = worst(rs)
    if w[0] == DIFF and any(s == UNK for s, _ in rs):
        # keep a definite difference only if it is not explained by a re-alignment
        return w
    return w


def _counts(v):
    return bool(v) and v[0] == "call" and v[1] == ("glob", "builtins.range")


def _star_args(aa, ab, c, d):
    small, big, lost = (ab, aa, True) if len(ab) < len(aa) else (aa, ab, False)
    left = list(big)
    for x in small:
        for y in left:
            if vdiff(y, x, c, d + 1)[0] == EQ if lost else vdiff(x, y, c, d + 1)[0] == EQ:
                left.remove(y)
                break
        else:
            return U
    return d_(("no longer passes " if lost else "now also passes ") + _short(left[0]))


def _is_exc(q):
    n = q.rsplit(".", 1)[-1]
    return n.endswith("Error") or n.endswith("Exception") or n in ("NotHandled", "StopIteration", "KeyboardInterrupt")


def exc_diff(a, b, c):
    """Raised values are compared by class."""
    def cls(v):
        if v[0] == "call" and v[1][0] == "glob":
            return v[1][1]
        if v[0] == "glob":
            return v[1]
        return None

    ca, cb = cls(a), cls(b)
    if a[0] in ("caught", "reraise") and b[0] in ("caught", "reraise"):
        return EQ, None
    if a[0] in ("caught", "reraise") or b[0] in ("caught", "reraise"):
        return d_(f"raises {_short(b)} where it raised {_short(a)}")
    if ca is None or cb is None:
        return vdiff(a, b, c) if ca is None and cb is None else U
    if ca == cb:
        # an exception class with fields: what they carry is part of the outcome
        if a[0] == b[0] == "call" and c.is_repo(ca) and c.ref_sigs.get(ca):
            return vdiff(a, b, c)
        return EQ, None
    # a subclass of the same builtin family counts as a different class only if definitely unrelated
    return d_(f"raises {cb} where it raised {ca}")


TIMES = {"early": "is looked up when the function is made, not when it is called", "late": "is looked up after the iteration, not for each element"}


WHOLE = (("const", "ellipsis", ...), ("slice", ("const", "NoneType", None), ("const", "NoneType", None), ("const", "NoneType", None)))


def _linear(v):
    """Integer arithmetic as (coefficient of each atom); None unless it has to be numbers."""
    out, sure = {}, [False]

    def go(v, k):
        if v[0] == "op" and v[1] in ("+", "-") and len(v) == 4:
            go(v[2], k)
            go(v[3], k if v[1] == "+" else -k)
        elif v[0] == "op" and v[1] == "neg" and len(v) == 3:
            sure[0] = True
            go(v[2], -k)
        elif v[0] == "const" and type(v[2]) is int:
            sure[0] = True
            out[None] = out.get(None, 0) + k * v[2]
        else:
            if v[0] == "idx" or v[0] == "call" and v[1] == ("glob", "builtins.len"):
                sure[0] = True
            out[v] = out.get(v, 0) + k

    go(v, 1)
    return {x: k for x, k in out.items() if k} if sure[0] else None


def _sums(a, b):
    x, y = _linear(a), _linear(b)
    if x is None or y is None or any(k is not None and has_unk(k) for k in (*x, *y)):
        return None
    if x == y:
        return EQ, None
    if {k for k in x if k is not None} <= set(y) or {k for k in y if k is not None} <= set(x):
        return d_(f"{_short(a)} became {_short(b)}")
    return None


def _passed_over(a, b, c, d):
    """Two accumulations over the same things: one takes every element into account, the other
    passes some over, on a condition that has nothing to do with what was accumulated."""
    mark = ("carry", a[2])

    if a[3][0] == b[3][0] == "phi" and set(b[3][1]) < set(a[3][1]):
        # what one iteration may come to
        gone = [x for x in a[3][1] if x not in b[3][1]]
        if all(x[0] == "call" and not has_unk(x) for x in gone):
            return d_(f"going through {_short(a[1])} never comes to {_short(gone[0])}")

    def kept(m):
        s = m[3]
        if s[0] != "phi" or len(s) < 3 or mark not in s[1]:
            return None
        return s[2][s[1].index(mark)] or ()
    x, y = kept(a), kept(b)
    if (x is None) == (y is None):
        return None
    whole, part, gs = (a, b, y) if x is None else (b, a, x)
    steps = [v for v in part[3][1] if v != mark]
    if len(steps) != 1 or steps[0][0] != "call" or not gs or any(z == mark or z and z[0] == "unk" for g in gs for z in walk(g)):
        return None
    if vdiff(*((whole[3], steps[0]) if whole is a else (steps[0], whole[3])), c, d + 1)[0] != EQ:
        return None
    if not any(z and z[0] == "elem" for g in gs for z in walk(g)):
        return None
    return d_(f"elements of {_short(a[1])} with {_gshow(gs[0])[:200]} are {'passed over' if whole is a else 'no longer passed over'}")


def _heads(a, b, c, d):
    if b[0] == "same" and b[1] == a:
        return d_(f"every call gives one and the same {_short(a)}")
    if a[0] == "mu" and not any(x and x[0] in ("mu", "carry") for x in walk(b)):
        mark = ("carry", a[2])
        once = deep(replace(a[3], mark, a[2]))
        r = [vdiff(x, y, c, d + 1) for x in ([once] if once[0] != "phi" else once[1]) for y in ([b] if b[0] != "phi" else b[1]) if x[0] == y[0]]
        if any(s == EQ for s, _ in r) and any(x == mark for x in walk(a[3])):
            return d_("what the iterations so far came to is no longer used")
        if len(r) == 1 and r[0][0] == DIFF:
            return r[0]
        return U
    if a[0] in TIMES or b[0] in TIMES:
        x, y = (a[1] if a[0] in TIMES else a), (b[1] if b[0] in TIMES else b)
        s, w = vdiff(x, y, c, d + 1)
        if s != EQ:
            return s, w
        return d_(f"{_short(x)} {TIMES[b[0]]}" if b[0] in TIMES else f"{_short(x)} no longer {TIMES[a[0]]}")
    ta, tb = a[0], b[0]
    # dropped or added benign copies
    if tb == "coll" and tb != ta and len(b[2]) == 1 and b[2][0][0] == "star" and b[1] in SEQ | {"dict", "set"}:
        s, w = vdiff(a, b[2][0][1], c, d + 1)
        return (EQ, None) if s == EQ and b[1] in ("copy", "dict") else (U if s != DIFF else U)
    if ta == "coll" and len(a[2]) == 1 and a[2][0][0] == "star" and a[1] in ("copy", "dict", "list", "set"):
        s, w = vdiff(a[2][0][1], b, c, d + 1)
        if s == EQ:
            return d_(f"{_short(b)} itself is used where a copy of it was")
        return U
    simple = ("param", "const", "glob", "attr", "item", "elem", "bound", "entered", "idx")
    if ta in ("sent", "caught", "super", "rec", "free") or tb in ("sent", "caught", "super", "rec", "free"):
        return U
    if ta in simple and tb in simple:
        for x, y in ((a, b), (b, a)):
            if x[0] == "elem" and y[0] == "item" and y[2][0] == "idx" and vdiff(x[1], y[1], c, d + 1)[0] == EQ:
                return U  # may be gone through in step
        if has_unk(a) or has_unk(b):
            return U
        if "glob" in (ta, tb) and "attr" in (ta, tb):
            return U
        return d_(f"{_short(b)} is used where {_short(a)} was")
    # one is a sub-value of the other: a wrapper was dropped or added
    for x, y in ((a, b), (b, a)):
        if x[0] == "item" and y[0] != "item" and x[2] not in WHOLE and vdiff(*((x[1], y) if x is a else (y, x[1])), c, d + 1)[0] == EQ:
            return d_(f"{_short(b)} is used where {_short(a)} was")

    if tb in simple and ta in ("call", "op", "coll"):
        if any(x == b for x in walk(a)) or tb == "const":
            if ta == "coll" and not a[2]:
                return U
            if ta == "call" and a[1][0] == "glob" and (a[1][1] in BENIGN_WRAPPERS or a[1][1] == "builtins.bool" or a[1][1] in ITERATORS):
                return U
            return d_(f"{_short(b)} is used where {_short(a)} was")
        return U
    if ta in simple and tb in ("call", "op", "coll"):
        if tb == "call" and b[1][0] == "glob" and (b[1][1] in BENIGN_WRAPPERS or b[1][1] == "builtins.bool" or b[1][1] in ITERATORS or c.is_repo(b[1][1]) and not c.known_repo(b[1][1])):
            return U
        if tb == "call" and b[1][0] == "attr" and ta == "item":
            return U
        if any(x == a for x in walk(b)) or ta == "const":
            if tb == "coll" and ta == "const":
                return d_(f"{_short(b)} is used where {_short(a)} was")
            return d_(f"{_short(b)} is used where {_short(a)} was")
        return U
    return U


def _lam(a, b, c, d):
    sa, sb = a[1], b[1]
    if sa[0] != sb[0] or sa[2] != sb[2] or sa[3] != sb[3]:
        if sa[2] == sb[2] and sa[3] == sb[3] and sa[0] - sa[4] == sb[0] - sb[4]:
            return U
        return U
    if len(sa) > 5 and len(sb) > 5 and sa[5] != sb[5]:
        if ("none",) in (sa[5], sb[5]):
            w = d_(f"no longer wraps {_short(sa[5])}") if sb[5] == ("none",) else U
        else:
            w = vdiff(sa[5], sb[5], c)
        if w[0] != EQ:
            return w
    pa = [(x[0], "raise" if x[1][0] == "raises" else "return", x[1], x[2], x[3]) for x in a[2]]
    pb = [(x[0], "raise" if x[1][0] == "raises" else "return", x[1], x[2], x[3]) for x in b[2]]
    return paths_diff(pa, pb, c)


# ------------------------------------------------------------------ conditions
def _already(a, pair):
    """Is it what the dictionary being filled holds under the key as it is?"""
    if a[0] != "op" or a[1] != "==" or len(a) != 4:
        return False
    return any(x == pair[2] and y[0] == "item" and y[2] == pair[1] and y[1][0] == "coll" and len(y[1][2]) == 1 and y[1][2][0][0] == "star"
               and y[1][2][0][1][0] == "sofar" for x, y in (a[2:], a[:1:-1]))


def _within(x):
    """There being an element which is not among others, as a relation of the two."""
    if x[0] == "call" and x[1] == ("glob", "builtins.any") and len(x[2]) == 1 and not x[3] and x[2][0][0] == "coll" and len(x[2][0][2]) == 1:
        p = x[2][0][2][0]
        if p[0] == "each" and len(p[3]) == 1 and not p[3][0][1] and p[3][0][0][:3] == ("op", "in", ("elem", p[1])):
            return ("op", "<=", p[1], p[3][0][0][3])
    return x


def _class_of(v):
    """What the class is taken of."""
    if v[0] == "call" and v[1] == ("glob", "builtins.type") and len(v[2]) == 1 and not v[3]:
        return v[2][0]
    return v[1] if v[0] == "attr" and v[2] == "__class__" else None


def kin(a, b, c):
    """Are the two conditions tests of the same subject that definitely differ?"""
    a1, b1 = _within(a), _within(b)
    if _relation(a1) and _relation(b1) and _relation(a1) != _relation(b1):
        xs, ys = [_bare(x) for x in a1[2:]], [_bare(x) for x in b1[2:]]
        return any(all(vdiff(x, y, c)[0] == EQ for x, y in zip(xs, zs)) for zs in (ys, ys[::-1]))
    if all(x[0] == "op" and x[1] in ("==", "<", "<=") and len(x) == 4 for x in (a, b)):
        for x, y in ((a, b), (b, a)):
            if all(s[0] == "call" and s[1] == ("glob", "builtins.len") and len(s[2]) == 1 for s in x[2:]):
                xs = [s[2][0] for s in x[2:]]
                if any(all(vdiff(p, q, c)[0] == EQ for p, q in zip(xs, zs)) for zs in (y[2:], y[:1:-1])):
                    return True  # lengths against the things themselves
    for x, y in ((a, b), (b, a)):
        # of the same class against of a class that descends from it
        if x[0] == "op" and x[1] in ("is", "==") and len(x) == 4 and y[0] == "call" and len(y[2]) == 2 \
                and y[1] in (("glob", "builtins.isinstance"), ("glob", "builtins.issubclass")):
            ts = [_class_of(z) for z in x[2:]]
            us = [y[2][0] if y[1][1] == "builtins.isinstance" else _class_of(y[2][0]), _class_of(y[2][1])]
            if None not in ts + us and any(all(vdiff(p, q, c)[0] == EQ for p, q in (zip(ts, zs) if x is a else zip(zs, ts))) for zs in (us, us[::-1])):
                return True
    for x, y in ((a, b), (b, a)):
        # of exactly this class against of it or one that descends from it
        if x[0] == "op" and x[1] in ("is", "==") and len(x) == 4 and y[0] == "call" and y[1] == ("glob", "builtins.isinstance") and len(y[2]) == 2:
            for p, q in (x[2:], x[:1:-1]):
                if _class_of(p) is not None and q == y[2][1] and q[0] == "glob" and q[1].startswith("builtins.") and q[1] not in ("builtins.bool", "builtins.type", "builtins.range", "builtins.slice"):
                    return vdiff(*((_class_of(p), y[2][0]) if x is a else (y[2][0], _class_of(p))), c)[0] == EQ
    for x, y in ((a, b), (b, a)):
        if x[0] == "op" and x[1] == "in" and y[0] == "op" and y[1] in ("is", "=="):
            # presence of an entry against what the entry is
            if any((g := _get_of(o)) and vdiff(x[3], g[0], c)[0] == EQ and vdiff(x[2], g[1], c)[0] == EQ for o in y[2:4]):
                return True
    if a[0] == b[0]:
        if a[0] == "call" and a[1] == b[1] and a[1][0] == "glob" and a[1][1] in ("builtins.isinstance", "builtins.issubclass") and len(a[2]) == 2 and len(b[2]) == 2:
            if vdiff(a[2][0], b[2][0], c)[0] == EQ:
                return vdiff(a[2][1], b[2][1], c)[0] == DIFF
            return vdiff(a[2][0], b[2][0], c)[0] == DIFF and vdiff(a[2][1], b[2][1], c)[0] == EQ
        for x, y in ((a, b), (b, a)):
            # being of a type of the repository against being callable
            if x[0] == "call" and x[1] == ("glob", "builtins.isinstance") and len(x[2]) == 2 and y[0] == "call" \
                    and y[1] == ("glob", "builtins.callable") and len(y[2]) == 1 and x[2][1][0] == "glob" and c.is_repo(x[2][1][1]):
                return vdiff(*((x[2][0], y[2][0]) if x is a else (y[2][0], x[2][0])), c)[0] == EQ
        if a[0] == "op" and b[0] == "op" and a[1] != b[1]:
            if len(a) == 4 and len(b) == 4:
                xs = {a[1], b[1]}
                same = vdiff(a[2], b[2], c)[0] == EQ and vdiff(a[3], b[3], c)[0] == EQ
                swap = vdiff(a[2], b[3], c)[0] == EQ and vdiff(a[3], b[2], c)[0] == EQ
                if xs in ({"==", "is"}, {"==", "^"}) or xs == {"==", "-"} and not all(_a_set(x) for x in a[2:]):
                    return False
                if xs == {"==", "<="} and _a_set(a[2]) and _a_set(b[2]):
                    # the subset relation holds with any iterable
                    us, vs = [_members(x) for x in a[2:]], [_members(x) for x in b[2:]]
                    return any(all(vdiff(x, y, c)[0] == EQ for x, y in zip(us, zs)) for zs in (vs, vs[::-1]))
                return same or swap
            return False
        if a[0] == "call" and a[1] != b[1]:
            if b[1][0] == "glob" and b[1][1].rsplit(".", 1)[-1] in INEXACT and b[1] not in walk(a):
                return True
            return vdiff(a[1], b[1], c)[0] == DIFF and len(a[2]) == len(b[2]) and not a[3] and not b[3] \
                and all(vdiff(x, y, c)[0] == EQ for x, y in zip(a[2], b[2]))
        return vdiff(a, b, c)[0] == DIFF
    # any / all
    # truthiness against `is None`
    def subj(x):
        if x[0] == "op" and x[1] == "is" and x[3] == ("const", "NoneType", None):
            return x[2]
        return None

    for x, y in ((a, b), (b, a)):
        if x[0] == "op" and x[1] == "in" and (g := _get_of(y)) and vdiff(x[3], g[0], c)[0] == EQ and vdiff(x[2], g[1], c)[0] == EQ:
            return True
        s = subj(x)
        if s is not None and vdiff(s, y, c)[0] == EQ:
            return True
        if x[0] == "op" and x[1] in ("==", "<") and any(_length(s, y, c) for s in x[2:4]):
            return True  # a particular length against being empty
    # one side lost: `f(x)` against `x` and so on is not kin
    return False


def _members(v):
    """What a set built of another iterable holds."""
    return v[2][0][1] if v[0] == "coll" and v[1] in ("set", "frozenset") and len(v[2]) == 1 and v[2][0][0] == "star" else v


def _length(s, y, c):
    return s[0] == "call" and s[1] == ("glob", "builtins.len") and len(s[2]) == 1 and vdiff(s[2][0], y, c)[0] == EQ


def _relation(x):
    """The relation of two sets a condition tests."""
    return x[1] if x[0] == "op" and len(x) == 4 and x[1] in ("meet", "<=", "<") else None


def _bare(v):
    while v[0] == "coll" and v[1] in ("set", "frozenset") and len(v[2]) == 1 and v[2][0][0] == "star":
        v = v[2][0][1]
    return v


def _same_head(a, b):
    return a[0] == b[0] and (a[1] == b[1] if a[0] in ("call", "op") else True)


# ------------------------------------------------------------------ paths
def consistent(ga, gb, amap):
    A = dict(ga)
    for k, b in gb:
        k = amap.get(k, k)
        if k in A and A[k] != b:
            return False
    # one isinstance subject cannot be None and so on: left alone
    return True


def _lengths(gs):
    """What each thing's length is said to be."""
    for k, b in gs:
        if b and k[0] == "op" and k[1] == "==" and len(k) == 4:
            for x, y in ((k[2], k[3]), (k[3], k[2])):
                if x[0] == "call" and x[1] == ("glob", "builtins.len") and len(x[2]) == 1 and y[0] == "const" and isinstance(y[2], int):
                    yield x[2][0], y[2]


def _satisfiable(gs):
    ns = set(_lengths(gs))
    if len(ns) != len({x for x, _ in ns}):
        return False
    d = {}
    return all(d.setdefault(k, b) == b and const_truth(k) in (None, b) for k, b in gs)


def _cases(ea, eb, c):
    """The same done under several conditions on either side: compared under all of them together."""
    by = {}
    for es, i in ((ea, 0), (eb, 1)):
        for e in es:
            by.setdefault(e[:4], ([], []))[i].append(e[4])
    res, done = [], set()
    for k, (ga, gb) in by.items():
        if not ga or not gb or len(ga) == len(gb):
            continue
        A, B = ([(g, "", ("const", "NoneType", None), (), ()) for g in gs] for gs in (ga, gb))
        A, B = split_gets(A, _atoms(B)), split_gets(B, _atoms(A))
        r = dnf_diff([p[0] for p in A], [p[0] for p in B], c)
        if r[0] != DIFF:
            res.append(r)
            done.add(k)
    if not done:
        return ea, eb, res
    return tuple(e for e in ea if e[:4] not in done), tuple(e for e in eb if e[:4] not in done), res


def effects_diff(ea, eb, c, strict=True):
    s, w = _effects_diff(ea, eb, c, strict)
    if s == DIFF:
        # the keyword arguments are this call's own: they may be added to or put together anew
        for x in ea:
            if x[0] == "setitem" and x[1][1][0] == "param" and x[1][1][1].startswith("**") and len(x[1]) == 4 \
                    and not any(y[0] == "setitem" and y[1][1] == x[1][1] for y in eb) and any(y[0] == "call" and _entry_put(x[1][2], x[1][3], y) for y in eb):
                return U
    return s, w


def _effects_diff(ea, eb, c, strict=True):
    ea, eb, res = _cases(ea, eb, c)
    left = list(eb)
    pending = []
    exact = []
    for i, x in enumerate(ea):
        hit = None
        for y in left:
            if x == y:
                hit = y
                break
        if hit is None:
            pending.append(x)
        else:
            left.remove(hit)
            exact.append((i, x))
    # a place written step by step in one and at once, or by other means, in the other
    shifty = _shifty(pending, left)
    w = _order(exact, ea, eb)
    if w is not None:
        res.append(d_(w))
    lost = []
    for x in pending:
        best = None
        for y in left:
            if x[0] != y[0]:
                continue
            s, w = vdiff(x[1], y[1], c)
            if s == EQ:
                cx = _ctx_diff(x[2], y[2], c)
                g = guards_diff(x[4], y[4], c)
                l = (EQ, None) if x[3] == y[3] else U
                r = worst([cx, g, l])
                if l[0] == UNK and r[0] == DIFF and r is g:
                    r = U
                if best is None or r[0] < best[0][0]:
                    best = (r, y)
        if best is None:
            lost.append(x)
        else:
            left.remove(best[1])
            res.append(best[0])
    for x in lost:
        best = None
        for y in left:
            if x[0] != y[0]:
                continue
            s, w = vdiff(x[1], y[1], c)
            if _same_target(x, y, c) and s != EQ:
                if best is None or s < best[0][0]:
                    best = ((s, f"{w} (in {_edesc(y)})" if s == DIFF else w), y)
        if best is not None:
            left.remove(best[1])
            res.append(U if best[0][0] == DIFF and _place(x) in shifty else best[0])
            continue
        if _place(x) in shifty or _in_local(x) and any(_in_local(y) for y in eb):
            res.append(U)
            continue
        unkcall = any(y[0] == "call" and _unknown_callee(y[1][1], c) or _managed(y, c) for y in left)
        if x[0] == "captured" or x[0] == "call" and x[1][1][0] not in ("glob", "attr", "param"):
            res.append(U)
        elif x[0] == "call" and x[1][1][0] == "glob" and c.is_repo(x[1][1][1]) and not c.exists_now(x[1][1][1]):
            res.append(U)
        elif unkcall or any(_maybe_same(x, y, c) for y in left if y[0] == x[0]):
            res.append(U)
        else:
            res.append(d_(f"no longer does: {_edesc(x)}"))
    for y in left:
        if _place(y) in shifty or _in_local(y) and any(_in_local(x) for x in ea):
            res.append(U)
            continue
        if y[0] in ("setattr", "setitem", "delitem", "delattr", "aug", "setglobal", "yield"):
            if y[0] == "yield":
                res.append(U)
                continue
            base = y[1][1]
            if y[0] == "setattr" and _fresh(base):
                res.append(U)
                continue
            res.append(d_(f"now also does: {_edesc(y)}"))
        elif y[0] == "call":
            f = y[1][1]
            if f[0] == "attr" and f[2] in MUTATORS and not _fresh(f[1]):
                res.append(d_(f"now also does: {_edesc(y)}"))
            elif f[0] == "glob" and c.is_repo(f[1]) and c.known_repo(f[1]) and y not in ea:
                res.append(U)
    return worst(res)


def _place(e):
    """The place a write changes, whichever way it is written."""
    k, data = e[0], e[1]
    if k in ("setattr", "delattr"):
        a = data[2]
        return ("attr", data[1], a[2] if isinstance(a, tuple) and a[0] == "const" else a)
    if k in ("setitem", "delitem", "aug"):
        return tuple(data[1])
    if k == "call" and data[1][0] == "attr" and data[1][2] in MUTATORS:
        return tuple(data[1][1])
    return ()


def _entry_put(k, v, e):
    """Is k: v (or k=v) part of what the effect does?"""
    return any(x and (x[0] == "pair" and x[1:3] == (k, v) or k[0] == "const" and len(x) == 2 and x[0] == k[2] and x[1] == v) for x in walk(e))


def _in_local(e):
    """Is it a change inside of a container made here?"""
    p = _place(e)
    p = p[1] if p and p[0] in ("attr", "item") and len(p) > 1 else p
    if e[0] in ("setitem", "delitem", "aug"):
        p = e[1][1]
    n = 0
    while isinstance(p, tuple) and p and p[0] in ("item", "attr") and len(p) == 3:
        p, n = p[1], n + 1
    return n > 0 and isinstance(p, tuple) and p[:1] == ("coll",)


SAME_MEANING = [{"setattr", "setitem", "update", "setdefault", "aug", "add"}, {"append", "extend", "aug", "setattr"},
                {"delitem", "pop", "delattr"}, {"remove", "discard", "difference_update", "setattr", "aug"}]


def _shifty(lost, gained):
    res = set()
    for x in lost:
        p = _place(x)
        if not p or p in res:
            continue
        kx = x[1][1][2] if x[0] == "call" else x[0]
        for y in gained:
            if _place(y) != p:
                continue
            ky = y[1][1][2] if y[0] == "call" else y[0]
            if kx != ky and any(kx in m and ky in m for m in SAME_MEANING) or kx == ky and bool(x[3]) != bool(y[3]):
                res.add(p)
    return res


def _cell(e):
    """What an effect writes, if it writes a place the function can see."""
    k, data = e[0], e[1]
    if k in ("setattr", "delattr"):
        return ("attr", data[1], data[2])
    if k in ("setitem", "delitem", "aug"):
        return ("in", data[1])
    if k == "call" and data[1][0] == "attr" and data[1][2] in MUTATORS:
        return ("in", data[1][1])
    if k == "call" and (data[1][0] == "glob" and data[1][1].startswith("effectful.") or data[1][0] == "attr" and data[1][2] in IN_TURN):
        return ("turn", data[1])
    if k == "yield":
        return "yield"
    return None


IN_TURN = {"append", "appendleft", "extend", "extendleft", "insert", "write", "writelines", "push"}


def _order(exact, ea, eb):
    """Two writes of one place (or a write and a yield) that happen the other way round."""
    cells = [(i, x, _cell(x)) for i, x in exact if ea.count(x) == 1 and eb.count(x) == 1]
    cells = [t for t in cells if t[2] is not None]
    for n, (i, x, cx) in enumerate(cells):
        for j, y, cy in cells[n + 1:]:
            if cx != cy and ("yield" not in (cx, cy) or _fresh((cx if cy == "yield" else cy)[1])):
                continue
            if eb.index(x) > eb.index(y):
                return f"{_edesc(y)} now comes before {_edesc(x)}"
    return None


def _fresh(v):
    return v[0] in ("call", "coll", "lam", "unk", "local") or v[0] == "item" and v[1][0] == "coll"


def _unknown_callee(f, c):
    return f[0] == "glob" and c.is_repo(f[1]) and not c.known_repo(f[1]) or f[0] in ("unk", "lam", "phi")


def _managed(y, c):
    """Something is arranged to be done later, or by a context manager of the program's own that is new."""
    if y[0] == "enter" and y[1][1][0] == "call":
        return _unknown_callee(y[1][1][1], c)
    return y[0] == "call" and y[1][1][0] == "attr" and y[1][1][2] in ("callback", "push", "enter_context")


def _maybe_same(x, y, c):
    """Could effect y be effect x in another form?"""
    if vdiff(x[1], y[1], c)[0] != UNK:
        return False
    if x[0] != "call":
        return True
    fx, fy = x[1][1], y[1][1]
    names = [f[1].rsplit(".", 1)[-1] if f[0] == "glob" else f[2] if f[0] == "attr" else None for f in (fx, fy)]
    return None in names or names[0] == names[1]


def _same_target(x, y, c):
    if x[0] == "call":
        return vdiff(x[1][1], y[1][1], c)[0] == EQ
    if x[0] in ("setattr", "delattr", "setitem", "delitem"):
        if x[0] in ("setattr", "delattr"):
            return x[1][2] == y[1][2]
        return vdiff(x[1][1], y[1][1], c)[0] == EQ
    if x[0] == "captured":
        return vdiff(x[1][1], y[1][1], c)[0] == EQ
    return True


def _edesc(e):
    k, data = e[0], e[1]
    return _short(data) if k == "call" else f"{k} " + ", ".join(_short(x) for x in data[1:] if isinstance(x, tuple))


def _ctx_diff(a, b, c):
    if a == b:
        return EQ, None
    if len(a) == len(b):
        return worst([vdiff(x, y, c) for x, y in zip(a, b)])
    miss = [x for x in a if not any(vdiff(x, y, c)[0] != DIFF for y in b)]
    if any(y[0] == "call" and _unknown_callee(y[1], c) for y in b):
        return U
    if miss and len(b) < len(a):
        return d_(f"no longer done within {_short(miss[0])}")
    return U


def _entailed(facts):
    """What being an instance of a class says otherwise."""
    for k, b in list(facts.items()):
        if k[0] == "call" and k[1] == ("glob", "builtins.isinstance") and len(k[2]) == 2 and not k[3] and b and k[2][1][0] == "glob" \
                and k[2][1][1] not in ("builtins.object", "types.NoneType"):
            yield ("op", "is", k[2][0], NONE), False
            if k[2][1][1] == "builtins.type":
                yield k[2][0], True
        elif k[0] == "call" and k[1] == ("glob", "builtins.issubclass") and len(k[2]) == 2:
            yield k[2][0], True


def joint_diff(r, n, c, amap):
    """The outcomes of two paths, in the cases both are taken."""
    w = outcome_diff(r, n, c)
    if w[0] == EQ or r[1] != n[1]:
        return w
    facts = dict(r[0])
    for a, b in n[0]:
        facts[a] = b
        if a in amap:
            facts[amap[a]] = b
    for x, y in amap.items():
        if y in facts:
            facts.setdefault(x, facts[y])
    facts.update((k, v) for k, v in _entailed(facts) if k not in facts)
    r2, n2 = path_under(r, facts), path_under(n, facts)
    if r2 == r and n2 == n:
        return w
    return outcome_diff(r2, n2, c)


def outcome_diff(r, n, c):
    if r[1] != n[1]:
        v = f"raises {_short(n[2])}" if n[1] == "raise" else f"returns {_short(n[2])}"
        w = f"raised {_short(r[2])}" if r[1] == "raise" else f"returned {_short(r[2])}"
        return d_(f"{v} where it {w}")
    if r[1] == "raise":
        rv, nv = r[2], n[2]
        if rv[0] == "raises":
            rv = rv[1]
        if nv[0] == "raises":
            nv = nv[1]
        s = exc_diff(rv, nv, c)
    else:
        s = vdiff(r[2], n[2], c)
        if s[0] == UNK and c.public and r[1] == "return" and r[2][0] == n[2][0] == "coll" and n[2][1] == "iter" and r[2][1] in ("list", "tuple", "set", "dict") \
                and vdiff(r[2], r[2][:2] + n[2][2:], c)[0] == EQ:
            s = d_("the result is put together only when asked for")
    if r[1] == "raise":
        return s  # effects before a failure are not compared
    e = effects_diff(_unasked(r[3], n[0]), _unasked(n[3], r[0]), c)
    if e[0] == DIFF and mutations((n[0], n[2], n[3])) - mutations((r[0], r[2], r[3])):
        e = u_("changes data while computing a value")
    return worst([s, e])


_mut_memo = {}


def mutations(v):
    """Mutating calls made for their value."""
    v = deep(v)
    r = _mut_memo.get(id(v))
    if r is None:
        r = set()
        if isinstance(v, tuple) and v:
            if v[0] == "call" and len(v) == 4 and v[1][0] == "attr" and v[1][2] in ("setdefault", "pop", "popitem", "popleft"):
                r.add(v)
            for x in v:
                if isinstance(x, tuple):
                    r |= mutations(x)
        r = _mut_memo[id(v)] = frozenset(r)
    return r


def _unasked(effs, guards):
    """A call made for its answer is no effect where the other path asks the same in a condition."""
    calls = [e for e in effs if e[0] == "call"]
    if not calls or not guards:
        return effs

    asked = set()
    for a, _ in guards:
        asked.update(x for x in walk(a) if x and x[0] == "call")
    return tuple(e for e in effs if e[0] != "call" or e[1] not in asked)


def _atoms(paths):
    out = []
    for p in paths:
        for a, _ in p[0]:
            if a not in out:
                out.append(a)
    return out


def paths_diff(R, N, c):
    """R, N: normalised paths.  -> (status, reason)"""
    s, w = _paths_diff0(R, N, c)
    if s == UNK and (one := _one_element(R, N)):
        # what happens when there is exactly one element
        s1, w1 = _paths_diff0(*one, c)
        if s1 == DIFF:
            return s1, w1
    return s, w


def _one_element(R, N):
    """The paths taken when the source that conditions ask about "any" element of has exactly one element."""
    srcs = {a[0] for k in {g[0] for p in R + N for g in p[0]} if (ps := _any_parts(k)) for a in ps}
    if len(srcs) != 1:
        return None
    (S,) = srcs
    if S[0] in ("prod", "while", "zip", "coll", "const"):
        return None

    def _with(gs, alts):
        if gs is None or len(gs) * len(alts) > 600:
            return None
        out = []
        for g in gs:
            known = dict(g)
            for a in alts:
                if all(known.get(k, b) == b for k, b in a):
                    out.append(g + tuple(x for x in a if x[0] not in known))
        return list(dict.fromkeys(out))

    def spread(P):
        out = []
        for p in P:
            gs = [()]
            for k, b in p[0]:
                ps = _any_parts(k)
                if ps is None:
                    alts = [((k, b),)]
                elif b:
                    alts = [tuple(sorted(f, key=okey)) for _, f in ps]
                else:
                    alts = None
                    for _, f in ps:
                        f = sorted(f, key=okey)
                        gs = _with(gs, [tuple(f[:i]) + ((f[i][0], not f[i][1]),) for i in range(len(f))])
                gs = _with(gs, alts) if alts else gs
                if gs is None:
                    return None
            out += [(g,) + p[1:] for g in map(norm_guards, gs) if _satisfiable(g)]
            if len(out) > 300:
                return None
        return out

    if not any(_any_parts(k) for p in R for k, _ in p[0]) or not any(_any_parts(k) for p in N for k, _ in p[0]):
        return None
    R1, N1 = spread(R), spread(N)
    if not R1 or not N1 or len(R1) * len(N1) >= 40000:
        return None
    ar, an = set(_atoms(R1)), set(_atoms(N1))
    missing, alien = ar - an, an - ar
    if missing and alien:
        return None
    known = ar & an
    if any(x in known or x[0] in ("phi", "mu", "sofar", "carry") for a in missing | alien for x in walk(a) if isinstance(x, tuple) and x):
        return None  # known conditions put in another way
    return R1, N1


def _paths_diff0(R, N, c):
    ar, an = _atoms(R), _atoms(N)
    R1, N1 = settle_absent(R, an, N), settle_absent(N, ar, R)
    if R1 is R and N1 is N:
        return _paths_diff(R, N, c)
    s, w = _paths_diff(R1, N1, c)
    # what happens when the attribute is missing may be put in more than one way
    return U if s == DIFF else (s, w)


def _paths_diff(R, N, c):
    R0 = [p for p in R if not p[4] and _satisfiable(p[0])]
    N0 = [p for p in N if not p[4] and _satisfiable(p[0])]
    ar, an = _atoms(R0), _atoms(N0)
    R1, N1 = split_gets(R0, an), split_gets(N0, ar)
    if R1 is not R0 or N1 is not N0:
        R0, N0 = [p for p in R1 if _satisfiable(p[0])], [p for p in N1 if _satisfiable(p[0])]
        ar, an = _atoms(R0), _atoms(N0)
    if len(R0) * len(N0) > 60000:
        return (EQ, None) if R == N else U
    sr, sn = set(ar), set(an)
    missing = [a for a in ar if a not in sn]
    alien = [a for a in an if a not in sr]
    amap = {}
    kins = []
    for x in list(alien):
        for y in missing:
            s, _ = vdiff(y, x, c)
            if s == EQ:
                amap[x] = y
                missing.remove(y)
                alien.remove(x)
                break
    for x in list(alien):
        # a condition that may well be one of the confirmed ones says nothing
        if any(_same_head(y, x) and vdiff(y, x, c)[0] == UNK for y in missing):
            continue
        for y in missing:
            if kin(y, x, c) and not _together(y, x, missing, alien):
                kins.append((y, x))
                break
    kin_aliens = {x for _, x in kins}
    kin_missing = {y for y, _ in kins}
    hard_missing = [y for y in missing if y not in kin_missing]
    hard_alien = [x for x in alien if x not in kin_aliens]
    # conditions re-expressed in another vocabulary cannot be related
    vocab_unknown = bool(hard_missing) and bool(hard_alien)
    results = []
    asks_r, asks_n = _found_out(R, N), _found_out(N, R)
    for n in N0:
        cands = [r for r in R0 if consistent(r[0], n[0], amap)]
        if not cands:
            results.append(u_("no confirmed case for", ("guards",) + n[0], ("alien",) + tuple(alien)))
            continue
        na = {amap.get(a, a) for a, _ in n[0]}
        outs = [(r, joint_diff(r, n, c, amap)) for r in cands]
        met = [r for r, (s, _) in outs if s == EQ]
        for r, (s, w) in outs:
            if s == EQ:
                continue
            # confirmed cases that are not mutually exclusive: meeting one of them is enough
            if any(consistent(r[0], m[0], {}) and not _infeasible(r[0], m[0], {}, c) for m in met):
                continue
            if s == UNK and not (w := _exchanged(r, n, R0, N0, alien, missing, c)):
                results.append(u_("cannot relate", ("outcomes", r[2], n[2])) if w is None else (s, w))
                continue
            # a definite difference between consistent paths
            if vocab_unknown:
                ra = {a for a, _ in r[0]}
                # only trustworthy when neither path depends on unrelated vocabulary
                if any(a in hard_alien for a in na) or any(a in hard_missing for a in ra):
                    results.append(u_("other conditions", ("m",) + tuple(hard_missing), ("a",) + tuple(hard_alien)))
                    continue
            if _infeasible(r[0], n[0], amap, c):
                if not met:
                    results.append(U)
                continue
            if _unrolled(r, na, alien, sr):
                results.append(U)
                continue
            if missing and any(a in missing for a, _ in r[0]) and any(outcome_diff(r, q, c)[0] != DIFF for q in asks_n) \
                    or alien and any(a in alien for a in na) and any(outcome_diff(q, n, c)[0] != DIFF for q in asks_r):
                results.append(U)  # asked first on one side, found out on the other
                continue
            k = next((x for x in kins if x[1] in na or x[0] in {a for a, _ in r[0]}), None)
            if k and len(kins) == 1 and not (vocab_unknown):
                w = f"the condition {_short(k[0])} became {_short(k[1])}: {w}"
            elif alien and any(a in alien for a in na):
                g = next(a for a in n[0] if amap.get(a[0], a[0]) in alien)
                w = f"when {'' if g[1] else 'not '}{_short(g[0])}: {w}"
            elif missing and any(a in missing for a, _ in r[0]):
                g = next(a for a in r[0] if a[0] in missing)
                w = f"without regard to {_short(g[0])}: {w}"
            elif r[0]:
                w = f"when {_gshow(r[0])[:240]}: {w}"
            results.append((DIFF, w))
    # every confirmed case must still be reachable
    if not vocab_unknown:
        for r in R0:
            if not any(consistent(r[0], n[0], amap) for n in N0):
                results.append(d_(f"no path is left for {_gshow(r[0])[:240]}"))
    results.append(_caught_diff(R, N, c))
    return worst(results)


def _together(y, x, missing, alien):
    """May an equality and a weaker relation of the same things come to the same with what else is asked of them?"""
    if not (x[0] == y[0] == "op" and len(x) == len(y) == 4 and "==" in (x[1], y[1])):
        return False

    def things(v):
        if v[0] == "call" and v[1] == ("glob", "builtins.len") and len(v[2]) == 1:
            v = v[2][0]
        return _members(v)

    if x[1] == y[1] and [things(v) for v in x[2:]] == list(x[2:]) and [things(v) for v in y[2:]] == list(y[2:]):
        return False
    for z, zs in ((x, alien), (y, missing)):
        ms = {things(v) for v in z[2:]}
        if any(w != z and ms <= set(walk(w)) for w in zs):
            return True
    return False


def _exchanged(r, n, R0, N0, alien, missing, c):
    """The confirmed outcomes are told apart by the same conditions, and this path takes another one."""
    if alien or r[1] != n[1] or has_unk(n[2]) or has_unk(r[2]):
        return None
    if len(missing) == 1 and _type_test(missing[0]):
        # what is of this type was told apart, and no longer is
        x = missing[0]
        b = dict(r[0]).get(x)
        if b is None or _infeasible(r[0], n[0], {}, c) or vdiff(r[2], n[2], c)[0] == EQ:
            return None
        if any(dict(q[0]).get(x) == (not b) and consistent(q[0], n[0], {}) and _same_outcome(q, n, c) for q in R0):
            return f"without regard to {_short(x)}: {n[1]}s {_short(n[2])} where it {r[1]}ed {_short(r[2])}"
        return None
    if missing or vdiff(r[2], n[2], c)[0] == EQ:
        return None
    if not any(_same_outcome(q, n, c) and not consistent(q[0], n[0], {}) for q in R0):
        return None
    if len({(p[1], p[2]) for p in R0}) < 2:
        return None
    return f"{n[1]}s {_short(n[2])} where it {r[1]}ed {_short(r[2])}"


def _type_test(x):
    """Is it the question whether something is of a type (and not whether there is anything to do)?"""
    if x[0] == "call" and x[1] == ("glob", "builtins.isinstance") and len(x[2]) == 2:
        return True
    return x[0] == "op" and x[1] in ("is", "==") and len(x) == 4 and any(_class_of(y) is not None for y in x[2:])


def _unrolled(r, na, alien, known):
    """The confirmed path calls on with some argument, and this one asks of that argument what was asked of a parameter."""
    if r[1] != "return" or r[2][0] != "call":
        return False
    for x in r[2][2] + tuple(v for _, v in r[2][3]):
        if x[0] in ("attr", "item", "elem"):
            y = x
            while y[0] in ("attr", "item", "elem"):
                y = y[1]
            if y[0] == "param" and any(a in na and norm(_replaced(a, x, y)) in known for a in alien):
                return True
    return False


def _replaced(v, x, y):
    if v == x:
        return y
    return tuple(_replaced(w, x, y) if isinstance(w, tuple) else w for w in v)


def _same_outcome(q, n, c):
    return q[1] == n[1] and vdiff(q[2], n[2], c)[0] == EQ


def _infeasible(gr, gn, amap, c):
    """Do the joint conditions obviously exclude each other?"""
    lits = dict(gr)
    for k, b in gn:
        lits.setdefault(amap.get(k, k), b)
    for k, b in [*lits.items()]:
        ps = _any_parts(k) if b else None
        if ps and len(ps) == 1:  # the one that was found
            for a, t in ps[0][1]:
                lits.setdefault(a, t)
    if _classes_exclude(lits, c):
        return True
    memo, said = {}, dict(lits)
    for k, b in lits.items():
        # what the conditions come to where the others hold
        w = under(k, lits, memo)
        if w is not k and w != k:
            w = norm(w)
            if said.setdefault(w, b) != b or const_truth(w) not in (None, b):
                return True
    none = {}
    for k, b in lits.items():
        ps = None if b else _any_parts(k)
        for src, g in ps or ():
            none.setdefault(src, []).append(g)
    if none:
        for k, b in lits.items():
            ps = _any_parts(k) if b else None
            if ps and all(_covered(g, none.get(src, ())) for src, g in ps):
                return True
    for k, b in lits.items():
        if b and k[0] == "call" and k[1] == ("glob", "builtins.isinstance") and len(k[2]) == 2 and k[2][1][0] == "glob":
            if k[2][1][1] == "builtins.type" and lits.get(k[2][0]) is False:
                return True  # classes are true
            if k[2][1][1] in _DISJOINT and any(
                    b2 and k2[0] == "op" and k2[1] == "is" and k2[2] == k[2][0] and k2[3][0] == "const" and k2[3][1] not in ("bool", "int", "str")
                    for k2, b2 in lits.items()):
                return True
        if b and k[0] == "op" and k[1] == "is" and k[3] == ("const", "NoneType", None):
            x = k[2]
            if lits.get(x) is True:
                return True
            for k2, b2 in lits.items():
                if b2 and k2[0] == "call" and k2[1] == ("glob", "builtins.isinstance") and k2[2][0] == x:
                    return True
                if b2 and k2[0] == "call" and k2[1] == ("glob", "builtins.callable") and k2[2][0] == x:
                    return True
                if b2 and k2[0] == "call" and k2[1] == ("glob", "builtins.hasattr") and k2[2][0] == x and len(k2[2]) == 2 \
                        and k2[2][1][0] == "const" and not hasattr(None, str(k2[2][1][2])):
                    return True
        if b and k[0] == "op" and k[1] == "is":
            for k2, b2 in lits.items():
                if b2 and k2 != k and k2[0] == "op" and k2[1] == "is" and k2[2] == k[2] and _distinct(k[3], k2[3]):
                    return True
        if b and k[0] == "op" and k[1] == "==" and k[3][0] == "const":
            for k2, b2 in lits.items():
                if b2 and k2 != k and k2[0] == "op" and k2[1] == "==" and k2[2] == k[2] and k2[3][0] == "const" and k2[3] != k[3]:
                    return True
    return False


_DISJOINT = {"builtins." + n for n in ("dict", "list", "tuple", "str", "bytes", "int", "float", "set", "frozenset", "type", "complex")}


def _distinct(a, b):
    """Two names that certainly stand for different objects."""
    if a[0] == "const" and b[0] == "const":
        return a != b
    if {a[0], b[0]} == {"const", "glob"}:
        return True
    if a[0] == b[0] == "glob":
        (p, x), (q, y) = a[1].rsplit(".", 1), b[1].rsplit(".", 1)
        return p == q and x != y and x.isupper() and y.isupper()  # members of an enumeration
    return False


_STD_MODULES = ("builtins", "collections", "collections.abc", "types", "numbers", "enum", "functools")


def _std_class(q):
    """The class of the standard library that q names."""
    import importlib

    m, _, n = q.rpartition(".")
    if m not in _STD_MODULES:
        return None
    x = getattr(importlib.import_module(m), n, None)
    return x if isinstance(x, type) else None


def _no_builtin(q, c):
    """Is q a class of the repository that has nothing of a built-in container or number?"""
    todo, seen = [q], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x in c.p.classes:
            if not all(isinstance(b, str) for b in c.p.classes[x].bases):
                return False
            todo.extend(c.p.classes[x].bases)
        elif c.is_repo(x) or x in _DISJOINT or x.rsplit(".", 1)[-1] in ("NamedTuple", "TypedDict", "Any"):
            return False
    return q in c.p.classes


def _classes_exclude(lits, c):
    """An object of two classes that have no common instances, or of a class but not of its base."""
    by = {}
    for k, b in lits.items():
        if k[0] == "call" and k[1] == ("glob", "builtins.isinstance") and len(k[2]) == 2 and k[2][1][0] == "glob":
            by.setdefault(k[2][0], []).append((k[2][1][1], b))
    for cs in by.values():
        yes = [q for q, b in cs if b]
        plain = {q for q in yes if q in _DISJOINT}
        if len(plain) > 1 or plain and any(_no_builtin(q, c) for q in yes):
            return True
        for q in yes:
            x = _std_class(q)
            for p, b2 in cs:
                y = None if b2 or x is None else _std_class(p)
                if y is not None and issubclass(x, y):
                    return True
    return False


def _any_parts(k):
    """The alternatives of any(True for each x in src if guards), when k is one."""
    if k[0] == "call" and k[1] == ("glob", "builtins.any") and len(k[2]) == 1 and not k[3] and k[2][0][0] == "coll":
        ps = k[2][0][2]
        if ps and all(p[0] == "each" and p[2] == ("const", "bool", True) for p in ps):
            return [(p[1], frozenset(p[3])) for p in ps]
    return None


def _covered(t, fs):
    """Does the conjunction t imply the disjunction of the conjunctions fs?"""
    fs = [f - t for f in fs if not any((a, not b) in t for a, b in f)]
    if any(not f for f in fs):
        return True
    if not fs or len(fs) > 12:
        return False
    a = min((x[0] for f in fs for x in f), key=okey)
    return _covered(t | {(a, True)}, fs) and _covered(t | {(a, False)}, fs)


def _found_out(P, Q):
    """The paths of P that catch a failed lookup or the like, which Q does not."""
    other = {t for q in Q for ts in q[4] for t in ts}
    return [p for p in P if p[4] and all(t not in other and t[0] == "glob" and t[1].rsplit(".", 1)[-1] in EAFP for ts in p[4] for t in ts)]


def _stray(p, others, names, c, diff, what):
    """A handler's outcome that no handler of the other side has, whatever the conditions."""
    if has_unk(p[2]) or any(diff(q)[0] != DIFF for q in others if names(q) == names(p)):
        return U
    return d_(f"after catching {', '.join(_short(t) for t in names(p))}: the outcome {p[1]} {_short(p[2])} {what}")


def _caught_diff(R, N, c):
    RC = [p for p in R if p[4]]
    NC = [p for p in N if p[4]]
    if not RC and not NC:
        return EQ, None

    def names(p):
        return {t for ts in p[4] for t in ts}

    rt = set().union(*[names(p) for p in RC]) if RC else set()
    nt = set().union(*[names(p) for p in NC]) if NC else set()

    def eafp(t):
        return t[0] == "glob" and t[1].rsplit(".", 1)[-1] in EAFP

    res = []
    def passes_on(t, C):
        """Every handler of t only does something on the way out (compared with the clean-up)."""
        return t == ("glob", "builtins.BaseException") and all(p[1] == "raise" and p[2][0] == "caught" for p in C if t in names(p))

    passed = {t for t in rt - nt if passes_on(t, RC)} | {t for t in nt - rt if passes_on(t, NC)}
    rt, nt = rt - passed, nt - passed
    for t in rt - nt:
        if eafp(t) and not (nt - rt):
            res.append(U)
        elif t[0] != "glob":
            res.append(U)
        else:
            res.append(d_(f"{_short(t)} is no longer caught"))
    for t in nt - rt:
        if eafp(t) and not (rt - nt):
            res.append(U)
        elif t[0] != "glob":
            res.append(U)
        else:
            res.append(d_(f"{_short(t)} is now caught"))
    if res and worst(res)[0] == DIFF:
        return worst(res)
    gone = {t for t in rt ^ nt if eafp(t)} | passed
    # what follows having caught something is told apart by conditions like anything else
    for ns in {frozenset(names(p)) for p in RC} & {frozenset(names(p)) for p in NC}:
        if not ns & gone:
            res.append(paths_diff([p[:4] + ((),) for p in RC if names(p) == ns], [p[:4] + ((),) for p in NC if names(p) == ns], c))
    for n in NC:
        if names(n) & gone:
            continue
        same = [r for r in RC if names(r) == names(n) and consistent(r[0], n[0], {})]
        if not same:
            res.append(_stray(n, RC, names, c, lambda r: outcome_diff(r, n, c), "is new"))
            continue
        rs = [outcome_diff(r, n, c) for r in same]
        best = min(rs, key=lambda x: x[0])
        if best[0] != EQ:
            res.append((best[0], f"after catching {', '.join(_short(t) for t in names(n))}: {best[1]}" if best[0] == DIFF else best[1]))
    for r in RC:
        if names(r) & gone:
            continue
        same = [n for n in NC if names(r) == names(n) and consistent(r[0], n[0], {})]
        if not same:
            res.append(_stray(r, NC, names, c, lambda n: outcome_diff(r, n, c), "is lost"))
            continue
        rs = [outcome_diff(r, n, c) for n in same]
        best = min(rs, key=lambda x: x[0])
        if best[0] != EQ:
            res.append((best[0], f"after catching {', '.join(_short(t) for t in names(r))}: {best[1]}" if best[0] == DIFF else best[1]))
    return worst(res)
