"""Decide one property on the current source tree."""

from __future__ import annotations

import fnmatch
import json
import os
import time

from . import catalog
from .compare import DIFF, EQ, UNK
from .facts import Facts, is_private
from .obligations import Judge, Verdict
from .project import AnalysisBroken, Project
from .rules import RULES, load as load_rules
from .spec import Spec
from .values import BEYOND

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
PKG = "effectful"


def matches(name, pat):
    short = name[len(PKG) + 1:] if name.startswith(PKG + ".") else name
    return fnmatch.fnmatchcase(short, pat) or name == f"{PKG}.{pat}" or name == pat


def globs_of(v, out, seen):
    stack = [v]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(x) == 2 and x[0] == "glob" and isinstance(x[1], str):
            out.add(x[1])
        else:
            stack.extend(x)


class Context:
    """What the rules see."""

    def __init__(self, project=None, spec=None):
        self.spec = spec or Spec()
        self.p = project or Project()
        self.facts = Facts(self.p, self.spec.opaque, self.spec.names)
        self.judge = Judge(self.spec, self.facts)
        self._refs = {}

    # ---- the constructs of a property
    def refs(self, key):
        """Private helpers the confirmed definition of `key` relies on."""
        if key not in self._refs:
            out = set()
            s = self.spec.functions[key]
            globs_of(s.paths, out, set())
            self._refs[key] = {g for g in out if g in self.spec.functions and g.rsplit(".", 1)[-1].startswith("_")
                               and not g.endswith("__")}
        return self._refs[key]

    def selected(self, prop):
        fs, cs, ms = [], [], []
        for s in prop["sel"]:
            kind, pat = s.split(":", 1)
            if kind == "f":
                hit = [k for k in self.spec.functions if matches(k, pat)]
                fs += hit
            elif kind == "c":
                hit = [k for k in self.spec.classes if matches(k, pat)]
                cs += hit
            else:
                hit = [m for m in self.spec.modules if matches(m, pat) or any(matches(f"{m}.{k}", pat) for k, _ in self.spec.modules[m][1])]
                ms.append((pat, hit))
            if not hit:
                raise AnalysisBroken(f"selector {s} of {prop['id']} selects nothing")
        todo = list(dict.fromkeys(fs))
        seen = set(todo)
        while todo:
            for g in sorted(self.refs(todo.pop())):
                if g not in seen:
                    seen.add(g)
                    fs.append(g)
                    todo.append(g)
        return list(dict.fromkeys(fs)), list(dict.fromkeys(cs)), ms


def confirmed(cx, prop):
    """Verdicts on the confirmed definitions."""
    fs, cs, ms = cx.selected(prop)
    j = cx.judge
    out = [("definition", j.function(k)) for k in fs]
    fpats = [s.split(":", 1)[1] for s in prop["sel"] if s.startswith("f:")]
    for k in cx.facts.keys:
        if k not in cx.spec.functions and any(matches(k, p) for p in fpats):
            v = j.new_function(k)
            if v is not None:
                out.append(("definition", v))
        elif k not in cx.spec.functions and cx.facts.keys[k].cls is not None and cx.facts.keys[k].cls.qual in cs:
            v = j.new_function(k)
            if v is not None:
                out.append(("definition", v))
    # a case may be registered under any key of a registry this property covers
    regs = {k.split(".register(")[0] for k in fs if ".register(" in k}
    done = {v.construct for _, v in out}
    for k in cx.facts.keys:
        if k not in cx.spec.functions and ".register(" in k and k.split(".register(")[0] in regs and k not in done:
            v = j.new_function(k)
            if v is not None:
                out.append(("definition", v))
    out += [("class", j.klass(q)) for q in cs]
    seen = set()
    for pat, mods in ms:
        for m in mods:
            for v in j.module(m):
                name = v.construct.removeprefix("module ")
                if v.construct not in seen and (matches(name, pat) or v.construct == f"module {m}" and matches(m, pat)):
                    seen.add(v.construct)
                    out.append(("module", v))
    return out


def known_findings(pid):
    """[(rule, construct, text)] recorded for a property and not repaired."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(x.split("=", 1) for x in line.split("\t") if "=" in x and not x.startswith("known:"))
                head = line.split("\t")[0].split("property=")[1].strip()
                if head == pid:
                    out.append((f.get("rule", ""), f.get("construct", ""), f.get("what", "")))
    return out


def decide(prop, cx):
    res = confirmed(cx, prop)
    for r in prop["rules"]:
        if r not in RULES:
            continue
        try:
            res.extend([(r, v) for v in RULES[r](cx)])
        except AnalysisBroken:
            raise
        except BEYOND as e:
            res.append((r, Verdict(f"rule {r}", UNK, f"the rule gave up ({type(e).__name__})", "", 1)))
    return res


def run(pid, tier, seed, project=None, spec=None, quiet=False):
    t0 = time.time()
    load_rules()
    prop = next((p for p in catalog.P if p["id"] == pid), None)
    if prop is None:
        print(f"unknown property {pid}")
        return 2
    say = (lambda *a: None) if quiet else print
    try:
        cx = Context(project, spec)
        res = decide(prop, cx)
    except AnalysisBroken as e:
        say(f"ANALYSIS-BROKEN property={pid} {e}")
        return 2
    known = known_findings(pid)
    bad, und = [], []
    for rule, v in res:
        if v.status == DIFF:
            k = next((x for x in known if x[0] == rule and x[1] == v.construct), None)
            if k is not None:
                say(f"KNOWN-FINDING: property={pid} {k[2]}")
            else:
                bad.append((rule, v))
        elif v.status == UNK:
            und.append((rule, v))
    extra = {}
    if tier == "thorough" and not bad:
        from .liveness import probe

        extra = probe(prop, cx, seed)
    by_rule = {}
    for rule, v in res:
        d = by_rule.setdefault(rule, {"obligations": 0, "held": 0, "violated": 0, "undecided": 0})
        d["obligations"] += 1
        d[{EQ: "held", UNK: "undecided", DIFF: "violated"}[v.status]] += 1
    os.makedirs(EVIDENCE, exist_ok=True)
    replay = os.path.join("evidence", f"{pid}.violations.txt")
    path = os.path.join(VERIF, replay)
    if os.path.exists(path):
        os.remove(path)
    if bad:
        with open(path, "w") as fh:
            fh.write(f"{pid} {prop['title']}\n{prop['statement']}\n\nre-run: cd /verif && python3 -m sa {pid}\n")
            for rule, v in bad:
                fh.write(f"\n{v.loc}: [{rule}] {v.construct}\n    {v.reason}\n")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Source-level decision, nothing is executed. 'definition', 'class' and 'module' obligations compare the effect/path summary "
                           "computed from the current source with the confirmed one (guards, calls, arguments, order, results, exceptions), up to the "
                           "equivalences of DESIGN.md; the other rules check the structural condition named. An undecided obligation is neither a pass nor an alarm.",
            "obligations": len(res), "held": sum(1 for _, v in res if v.status == EQ), "undecided": len(und), "violated": len(bad),
            "paths": sum(v.n for _, v in res), "by_rule": by_rule,
            "modules_parsed": len(cx.p.modules), "files": {m.rel: m.digest[:12] for m in cx.p.modules.values() if m.rel in prop["files"]},
            "constructs": [f"{v.construct} @ {v.loc}" for _, v in res][:400],
            "undecided_constructs": [f"[{r}] {v.construct}: {v.reason}" for r, v in und][:50],
            **extra,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 3), "violations": len(bad),
    }
    with open(os.path.join(EVIDENCE, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
        fh.write("\n")
    say(f"{pid} {prop['title']}: {len(res)} obligations, {ev['coverage']['held']} held, {len(und)} undecided, {len(bad)} violated ({ev['wall_s']} s)")
    for r, v in und:
        say(f"UNDECIDED [{r}] {v.construct} {v.loc}: {str(v.reason)[:300]}")
    for r, v in bad:
        say(f"{v.loc}: [{r}] {v.construct}: {v.reason}")
    if bad:
        say(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


ASSUMPTIONS = [
    "Third-party libraries behave as installed in this environment; their calls are opaque but compared call for call.",
    "Names resolve as the module's imports say: no monkey-patching of the package from outside.",
    "The confirmed definitions in spec/obligations.json.gz were read against the property and the repairs recorded in known_findings.txt.",
]
