"""Judge the confirmed obligations against the current tree."""

from __future__ import annotations

import time

from .compare import (
    DIFF, Deadline, EQ, UNK, Ctx, effects_diff, leaves, CONTAINER_METHODS, norm, norm_effs, norm_path, paths_diff, rename, vdiff, worst, _short, has_unk, walk, EAFP,
)
from .facts import is_private
from .values import BEYOND

BUDGET = 20.0  # CPU seconds per comparison
CACHES = ("cache", "lru_cache", "cached_property")


def _read(v, name):
    """Is the attribute looked at, other than to call it?"""
    called = {id(x[1]) for x in walk(v) if len(x) == 4 and x[0] == "call"}
    return any(x[0] == "attr" and x[2] == name and id(x) not in called for x in walk(v) if len(x) == 3)


def _stores(v, name):
    """Is the attribute filled in? What was read of it may be what was put there."""
    return any(x[0] == "setattr" and len(x) == 4 and x[2] == ("const", "str", name) for x in walk(v))


class Verdict:
    __slots__ = ("construct", "status", "reason", "loc", "n")

    def __init__(self, construct, status, reason, loc, n):
        self.construct, self.status, self.reason, self.loc, self.n = construct, status, reason, loc, n


class Judge:
    def __init__(self, spec, facts):
        self.spec, self.facts = spec, facts
        self.c = Ctx(spec.names, facts.p, spec.sigs)
        self._cls = None
        self._mods = {}
        self.cache = {}
        # private helpers whose parameters changed are judged together with their callers only
        self.changed_sig = set()
        self.performing = {"effectful.ops.semantics.evaluate": True}

    # ---- functions
    def function(self, key):
        if key not in self.cache:
            self.c.deadline = time.process_time() + BUDGET
            try:
                self.cache[key] = self._function(key)
            except (Deadline, RecursionError, *BEYOND) as e:
                self.cache[key] = Verdict(key, UNK, f"comparison gave up ({type(e).__name__})", "", len(self.spec.functions[key].paths))
            self.c.deadline = None
        return self.cache[key]

    def _local(self, key):
        """Is it a method of a class that a function defines for itself?"""
        parts = key.split(".")
        return any(".".join(parts[:i]) in self.spec.functions for i in range(2, len(parts)))

    def _function(self, key):
        ref = self.spec.functions[key]
        fi = self.facts.keys.get(key)
        n = len(ref.paths)
        if fi is None:
            qual = ref.module
            fi = self._moved(key, qual)
            if fi is None:
                private = "register(" not in key and qual.rsplit(".", 1)[-1].startswith("_") and not qual.endswith("__")
                if private or "register(" not in key and self._local(key):
                    return Verdict(key, UNK, "helper is gone", "", n)
                if "register(" in key and any(
                    key.startswith(k[:-1]) and k != key and self.spec.functions[k].paths == ref.paths and k in self.facts.keys
                    for k in self.spec.functions if k.startswith(key.split("(")[0])
                ):
                    return Verdict(key, UNK, "may be covered by the registration of a more general type", "", n)
                if "register(" in key and any(
                    x and x.rsplit(".", 1)[-1] == key.split(".register(")[0].rsplit(".", 1)[-1] for m in self.facts.p.modules.values() for x in m.open_regs
                ):
                    return Verdict(key, UNK, "may be registered by a statement", "", n)
                return Verdict(key, DIFF, "is no longer defined" if "register(" not in key else "is no longer registered", "", n)
            k2 = next(k for k, v in self.facts.keys.items() if v is fi)
            new = self.facts.summary(k2)
        else:
            new = self.facts.summary(key)
        if ref.status != "ok" or new.status != "ok":
            return Verdict(key, UNK, new.status, new.loc, n)
        if ref.sig == new.sig and ref.decorators == new.decorators and ref.paths == new.paths and ref.cleanups == new.cleanups and ref.catches == new.catches and ref.scoped == new.scoped:
            return Verdict(key, EQ, None, new.loc, n)
        m, rs = self._sig(ref, new, fi)
        if m is None:
            return Verdict(key, UNK, "parameters changed", new.loc, n)
        rs.append(self._decos(ref, new))
        R = [norm_path(p) for p in ref.paths]
        N = [norm_path(rename(p, m)) for p in new.paths]
        self.c.public = not any(x.startswith("_") and not x.startswith("__") for x in key.split("(")[0].split("."))
        s, w = paths_diff(R, N, self.c)
        self.c.public = False
        rs.append(self._ignored(R, N) or (s, w) if s == UNK else (s, w))
        rs.append(self._cleanups(ref.cleanups, rename(new.cleanups, m), N))
        rs.append(self._catches(ref.catches, rename(new.catches, m), N))
        rs.append(self._scoped(ref.scoped, rename(new.scoped, m), new.status))
        s, w = worst(rs)
        return Verdict(key, s, w, new.loc, n)

    def _ignored(self, R, N):
        """Whatever the function does now, it does without looking at something it has to look at."""
        a, b = (frozenset().union(*map(leaves, ps)) for ps in (R, N))
        if b - a or ("unk",) in a | b:
            return None
        for kind, x, *_ in sorted((x for x in a - b if len(x) == 2), key=str):
            if kind == "param" and not x.startswith("*"):
                return DIFF, f"{x} plays no part"
            if kind == "attr" and x not in CONTAINER_METHODS and not x.startswith("_") and any(_read(p, x) for p in R) and not any(_stores(p, x) for p in N):
                return DIFF, f"{x} plays no part"
        return None

    def _scoped(self, ref, new, status):
        """What is asked of other code is asked under the same interpretation: within the contexts the function sets up, or outside."""
        if not ref or not new:
            return EQ, None
        R, N = ({}, {})
        for src, out in ((ref, R), (new, N)):
            for d, w in src:
                d = norm(d)
                if d[0] != "call" or d[1][0] != "glob" or self._performs(d[1][1]):
                    out.setdefault(d, set()).update(w)
        for d, w in R.items():
            if d in N and not w & N[d]:
                if d[0] == "strict":
                    if w == {True}:
                        return DIFF, f"the lengths in {_short(d[1])} may now differ"
                    continue
                if d[0] == "after":
                    return DIFF, f"{_short(d[2])} now comes {'before' if True in w else 'after'} the change to {_short(d[1][2])}"
                if d[0] == "told":
                    return DIFF, f"{_short(d[2])} is now read {'before' if True in w else 'after'} {_short(d[1])}"
                return DIFF, f"{_short(d)} is now done {'outside' if True in w else 'within'} the context the function sets up"
        return EQ, None

    def _performs(self, q, d=0):
        """Does calling it perform an operation, so that it matters which interpretation is in force?"""
        if q in self.performing:
            return self.performing[q]
        f = self.spec.functions.get(q)
        self.performing[q] = False
        r = f is not None and any(x[0] == "glob" and x[1].endswith(("Operation.define", ".defop")) for x in walk(f.decorators))
        if not r and f is not None and d < 4:
            r = any(x[0] == "call" and len(x) == 4 and x[1][0] == "glob" and x[1][1].startswith("effectful.") and self._performs(x[1][1], d + 1)
                    for x in walk(tuple((p[0], p[2], p[3]) for p in f.paths)))
        self.performing[q] = r
        return r

    def _catches(self, ref, new, N):
        """What a handler is there for is still covered by one."""
        ref, new = [{(norm(t), norm(f)) for t, f in x} for x in (ref, new)]
        rs = []
        now = None
        for t, f in ref - new:
            q = f[1] if f[0] == "glob" else f[2]
            if t[1].rsplit(".", 1)[-1] in EAFP or f[0] == "glob" and q.startswith("builtins.") and q not in ("builtins.compile", "builtins.exec", "builtins.eval"):
                continue
            if any(vdiff(f, g, self.c)[0] != DIFF for u, g in new if u == t):
                continue
            if now is None:
                now = {x[1] for x in walk(tuple(N)) if len(x) == 4 and x[0] == "call" and x[1] and isinstance(x[1], tuple)}
            if f in now:
                rs.append((DIFF, f"{_short(t)} out of {_short(f)} is no longer caught"))
        return worst(rs) if rs else (EQ, None)

    def _cleanups(self, ref, new, N):
        """What the confirmed definition does on the way out of an exception is still done."""
        R = {}
        for kind, w in ref:
            R.setdefault(norm(w), set()).add(kind)
        M = {}
        for kind, w in new:
            M.setdefault(norm(w), set()).add(kind)
        effs = [e for p in N for e in p[3]]
        yields = any(e[0] == "yield" for e in effs)
        managed = any(e[0] == "enter" or e[2] for e in effs) or has_unk(tuple(effs)) or any(
            x[0] == "attr" and x[2] in ("callback", "push", "enter_context") for x in walk(tuple(effs)) if len(x) == 3)
        rs = []
        for w, kinds in R.items():
            ks = M.get(w)
            if ks is None:
                like = [(k, vdiff(w, x, self.c)[0]) for x, k in M.items() if x[0] == w[0]]
                ks = next((k for k, s in like if s == EQ), None)
                if ks is None:
                    lost = not managed and all(s == DIFF for _, s in like)
                    rs.append((DIFF, f"{_short(w)} is no longer done when an exception leaves") if lost else (UNK, None))
                    continue
            if "yield" in kinds and "yield" not in ks:
                rs.append((DIFF, f"{_short(w)} is no longer done when an exception comes in at the yield") if yields and not managed else (UNK, None))
        return worst(rs) if rs else (EQ, None)

    def _moved(self, key, qual):
        if "register(" in key:
            return None
        p = self.facts.p
        q = p.canon(qual)
        if q in p.funcs:
            return p.funcs[q]
        if "." in qual:
            cls, name = qual.rsplit(".", 1)
            if cls in p.classes:
                fi = p.find_method(cls, name)
                if fi is not None and fi.qual not in self.spec.names:
                    return fi
        return None

    def _sig(self, ref, new, fi):
        a, b = ref.sig, new.sig
        rs = []
        m = {}
        pa = [x for x in a if x[0] in ("pos", "any")]
        pb = [x for x in b if x[0] in ("pos", "any")]

        def pn(x):
            return {"star": "*", "dstar": "**"}.get(x[0], "") + x[1]

        if len(pa) != len(pb) or {x[0] for x in a} ^ {x[0] for x in b}:
            if is_private(fi):
                return None, rs
            if len(pa) > len(pb) and not any(x[0] == "star" for x in b):
                rs.append((DIFF, f"takes {len(pb)} positional parameters where it took {len(pa)}"))
            elif ("star" in {x[0] for x in a}) > ("star" in {x[0] for x in b}):
                rs.append((DIFF, "no longer takes *args"))
            elif ("dstar" in {x[0] for x in a}) > ("dstar" in {x[0] for x in b}):
                rs.append((DIFF, "no longer takes **kwargs"))
            elif len(pb) > len(pa) and all(x[2] is not None for x in pb[len(pa):]):
                pass
            else:
                rs.append((UNK, None))
        # parameters are matched by name first, then by position
        namesb = [x[1] for x in pb]
        if [x[1] for x in pa] != namesb:
            for x, y in zip(pa, pb):
                if x[1] != y[1]:
                    m[("param", y[1])] = ("param", x[1])
        for x, y in zip(pa, pb):
            rs.append(self._default(x, y))
        for kind in ("star", "dstar"):
            x = next((z for z in a if z[0] == kind), None)
            y = next((z for z in b if z[0] == kind), None)
            if x and y and x[1] != y[1]:
                m[("param", pn(y))] = ("param", pn(x))
        ka = {x[1]: x for x in a if x[0] == "kw"}
        kb = {x[1]: x for x in b if x[0] == "kw"}
        for k in ka:
            if k in kb:
                rs.append(self._default(ka[k], kb[k]))
            elif is_private(fi):
                return None, rs
            elif k in namesb:
                pass
            else:
                rs.append((DIFF, f"no longer takes {k}"))
        return m, rs

    def _default(self, x, y):
        if x[2] is None and y[2] is None:
            return EQ, None
        if x[2] is None:
            return EQ, None
        if y[2] is None:
            return DIFF, f"parameter {x[1]} no longer has a default"
        s, w = vdiff(norm(x[2]), norm(y[2]), self.c)
        return s, f"the default of {x[1]}: {w}" if s == DIFF else w

    def _decos(self, ref, new):
        left = [norm(d) for d in new.decorators]
        rs = []
        for d in ref.decorators:
            d = norm(d)
            if _reg(d):
                # registrations are obligations of their own
                left = [x for x in left if not (x == d)]
                continue
            hit = next((x for x in left if vdiff(d, x, self.c)[0] == EQ), None)
            if hit is not None:
                left.remove(hit)
                continue
            k = next((x for x in left if x[0] == d[0] and vdiff(d, x, self.c)[0] == DIFF and not _reg(x) and _dname(x) == _dname(d)), None)
            if k is not None:
                rs.append((DIFF, f"decorator {_short(d)} became {_short(k)}"))
                left.remove(k)
            elif any(vdiff(d, x, self.c)[0] == UNK for x in left):
                rs.append((UNK, None))
            else:
                rs.append((DIFF, f"decorator {_short(d)} was removed"))
        for x in left:
            if _reg(x):
                continue
            n = _dname(x)
            if n in CACHES:
                rs.append((DIFF, f"results are now cached by {_short(x)}"))
            elif n in ("override", "final", "no_type_check", "wraps", "overload", "deprecated"):
                pass
            else:
                rs.append((UNK, None))
        return worst(rs)

    def new_function(self, key):
        try:
            return self._new_function(key)
        except (Deadline, RecursionError, *BEYOND):
            return None

    def _new_function(self, key):
        """Why a function that is not in the confirmed tree changes behaviour, if it does."""
        fi = self.facts.keys[key]
        if "register(" in key:
            reg = key.split(".register(")[0]
            if any(k.startswith(reg + ".register(") for k in self.spec.functions):
                return Verdict(key, DIFF, "a new case is registered", fi.loc, 1)
            return None
        if fi.cls is not None and fi.cls.qual in self.spec.classes:
            name = fi.name
            if name.startswith("__") and name.endswith("__"):
                # an inherited definition moved down is judged by what it does
                for q in self.facts.p.mro(fi.cls.qual)[1:]:
                    k = f"{q}.{name}"
                    if k in self.spec.functions:
                        ref = self.spec.functions[k]
                        new = self.facts.summary(key)
                        m, rs = self._sig(ref, new, fi)
                        if m is None or new.status != "ok":
                            return None
                        rs.append(paths_diff([norm_path(p) for p in ref.paths], [norm_path(rename(p, m)) for p in new.paths], self.c))
                        s, w = worst(rs)
                        return Verdict(key, s, f"overrides {k}: {w}", fi.loc, 1) if s == DIFF else None
                if name in ("__eq__", "__hash__", "__bool__", "__len__", "__getattr__", "__getattribute__", "__setattr__",
                            "__copy__", "__deepcopy__", "__reduce__", "__new__", "__iter__", "__contains__", "__call__",
                            "__enter__", "__exit__", "__get__", "__set__", "__init_subclass__"):
                    return Verdict(key, DIFF, f"the class now defines {name}", fi.loc, 1)
            else:
                # overriding an inherited public method
                for q in self.facts.p.mro(fi.cls.qual)[1:]:
                    if f"{q}.{name}" in self.spec.functions:
                        ref = self.spec.functions[f"{q}.{name}"]
                        new = self.facts.summary(key)
                        m, rs = self._sig(ref, new, fi)
                        if m is None or new.status != "ok":
                            return None
                        rs.append(paths_diff([norm_path(p) for p in ref.paths], [norm_path(rename(p, m)) for p in new.paths], self.c))
                        s, w = worst(rs)
                        return Verdict(key, s, f"overrides {q}.{name}: {w}", fi.loc, 1) if s == DIFF else None
        return None

    # ---- classes
    def klass(self, q):
        try:
            return self._klass(q)
        except (Deadline, RecursionError, *BEYOND) as e:
            return Verdict("class " + q, UNK, f"comparison gave up ({type(e).__name__})", "", 1)

    def _klass(self, q):
        if self._cls is None:
            self._cls = self.facts.class_facts()
        ref = self.spec.classes[q]
        new = self._cls.get(q)
        if new is None:
            c2 = self.facts.p.canon(q)
            new = self._cls.get(c2)
        if new is None:
            if q.rsplit(".", 1)[-1].startswith("_") or q.rsplit(".", 1)[0] in self.spec.functions:
                return Verdict("class " + q, UNK, "class is gone", "", 1)
            return Verdict("class " + q, DIFF, "class is no longer defined", "", 1)
        loc = self.facts.p.classes[q].loc if q in self.facts.p.classes else ""
        if ref == new:
            return Verdict("class " + q, EQ, None, loc, 1)
        rs = []
        rb, nb = [norm(x) for x in ref[0]], [norm(x) for x in new[0]]
        if rb != nb:
            if len(rb) == len(nb):
                rs.append(worst([vdiff(x, y, self.c) for x, y in zip(rb, nb)]))
                if sorted(map(repr, rb)) == sorted(map(repr, nb)):
                    rs[-1] = (UNK, None)
            elif len(nb) < len(rb) and all(y in rb for y in nb):
                lost = [x for x in rb if x not in nb]
                rs.append((DIFF, f"no longer derives from {_short(lost[0])}"))
            else:
                rs.append((UNK, None))
        for nm, what in ((1, "class keyword"),):
            if ref[nm] != new[nm]:
                rs.append((UNK, None))
        rd, nd = [norm(x) for x in ref[2]], [norm(x) for x in new[2]]
        for d in rd:
            st = [vdiff(d, x, self.c)[0] for x in nd if x[0] == d[0] or x[0] == "unk"]
            if EQ in st:
                continue
            if UNK in st or self._applied_elsewhere(q, d):
                rs.append((UNK, None))
            else:
                rs.append((DIFF, f"class decorator {_short(d)} was removed or changed"))
        ra, na = dict(ref[3]), dict(new[3])
        for k in ra:
            if k not in na:
                if k in new[5]:
                    rs.append((UNK, None))
                    continue
                rs.append((UNK if k.startswith("_") and not k.startswith("__") else DIFF, f"attribute {k} is gone"))
            else:
                s, w = vdiff(norm(ra[k]), norm(na[k]), self.c)
                rs.append((s, f"attribute {k}: {w}" if s == DIFF else w))
        for k in na:
            if k not in ra and k.startswith("__") and k.endswith("__") and k not in ("__doc__", "__slots__", "__match_args__"):
                rs.append((DIFF, f"now defines {k}"))
        if ref[4] != new[4]:
            common = [f for f in new[4] if f in ref[4]]
            if [f for f in ref[4] if f in new[4]] != common:
                rs.append((DIFF, "the order of its fields changed"))
            elif any(f not in new[4] for f in ref[4]):
                gone = [f for f in ref[4] if f not in new[4] and f not in na]
                if gone:
                    rs.append((UNK, None))
        s, w = worst(rs)
        return Verdict("class " + q, s, w, loc, 1)

    def _applied_elsewhere(self, q, d):
        """Is the decorator applied by a module-level call instead?"""
        m = self.facts.p.classes[q].module if q in self.facts.p.classes else None
        if m is None:
            return True
        new = self.facts.module_fact(m)
        return new[0] != "ok" or any(e[0] == "call" and vdiff(d, norm(e[1])[1], self.c)[0] != DIFF for e in new[2] if norm(e[1])[1][0] == d[0])

    # ---- modules
    def module(self, name):
        try:
            return self._module(name)
        except (Deadline, RecursionError, *BEYOND) as e:
            return [Verdict("module " + name, UNK, f"comparison gave up ({type(e).__name__})", "", 1)]

    def _module(self, name):
        ref = self.spec.modules[name]
        p = self.facts.p
        if name not in p.modules:
            return [Verdict("module " + name, UNK, "module is gone", "", 1)]
        new = self._mods.get(name)
        if new is None:
            new = self._mods[name] = self.facts.module_fact(p.modules[name])
        rel = p.modules[name].rel
        if ref == new:
            return [Verdict(f"{name}.{k}", EQ, None, rel, 1) for k, _ in ref[1]] + [Verdict(f"module {name}", EQ, None, rel, 1)]
        if ref[0] != "ok" or new[0] != "ok":
            return [Verdict("module " + name, UNK, new[0], rel, 1)]
        out = []
        nn = dict(new[1])
        for k, v in ref[1]:
            if k not in nn:
                known = p.resolve_name(p.modules[name], k) is not None
                priv = k.startswith("_")
                out.append(Verdict(f"{name}.{k}", UNK if priv or known else DIFF, "is no longer defined", rel, 1))
                continue
            s, w = vdiff(norm(v), norm(nn[k]), self.c)
            out.append(Verdict(f"{name}.{k}", s, w, rel, 1))
        s, w = effects_diff(list(norm_effs(ref[2])), list(norm_effs(new[2])), self.c)
        out.append(Verdict(f"module {name}", s, w, rel, 1))
        return out


def _reg(d):
    return d[0] == "call" and d[1][0] in ("glob", "attr") and (d[1][1] if d[1][0] == "glob" else d[1][2]).rsplit(".", 1)[-1] == "register" or (
        d[0] == "glob" and d[1].endswith(".register")) or (d[0] == "attr" and d[2] == "register")


def _dname(d):
    if d[0] == "call":
        d = d[1]
    if d[0] == "glob":
        return d[1].rsplit(".", 1)[-1]
    if d[0] == "attr":
        return d[2]
    return None
