"""Thorough tier: is the decision of a property alive?

Edits of the constructs the property covers are made in memory, one at a time, and the property
is decided again on each edited program (nothing is run or written).  The outcome goes into the
evidence: how many edits that drop or change something are reported, and how many rewrites that
change nothing raise an alarm.  It never produces a violation: it measures the check, not /repo.
"""

from __future__ import annotations

import multiprocessing
import os
import random
import time

from .compare import DIFF, UNK
from .edits import breaking, neutral
from .project import REPO, Project

BREAKING, NEUTRAL, BUDGET = 240, 160, 420
_shared = {}


def _spans(prop, cx):
    """file -> line spans of the functions and classes the property covers."""
    fs, cs, _ = cx.selected(prop)
    out = {}
    for k in fs:
        fi = cx.facts.keys.get(k)
        if fi is not None:
            out.setdefault(fi.module.rel, []).append((fi.node.lineno, fi.node.end_lineno))
    for q in cs:
        ci = cx.p.classes.get(q)
        if ci is not None:
            out.setdefault(ci.module.rel, []).append((ci.node.lineno, ci.node.lineno))
    return out


def _decide(job):
    from .check import Context, decide

    rel, kind, line, src = job
    if time.time() > _shared["deadline"]:
        return None
    try:
        compile(src, rel, "exec")
        cx = Context(Project(overrides={rel: src.encode()}), _shared["spec"])
        res = decide(_shared["prop"], cx)
    except SyntaxError:
        return None
    except Exception as e:  # noqa: BLE001 - the probe reports, it does not decide
        return rel, kind, line, f"error {type(e).__name__}", ""
    bad = [v for _, v in res if v.status == DIFF]
    if bad:
        return rel, kind, line, "violation", f"{bad[0].construct}: {str(bad[0].reason)[:160]}"
    if any(v.status == UNK for _, v in res):
        return rel, kind, line, "undecided", ""
    return rel, kind, line, "held", ""


def probe(prop, cx, seed):
    rng = random.Random(f"{prop['id']}-{seed}")
    want = {"breaking": [], "neutral": []}
    for rel, spans in sorted(_spans(prop, cx).items()):
        with open(os.path.join(REPO, rel), encoding="utf-8") as fh:
            src = fh.read()
        for name, make in (("breaking", breaking), ("neutral", neutral)):
            want[name] += [(rel, k, ln, s) for k, ln, s in make(src, spans)]
    jobs = {}
    for name, n in (("breaking", BREAKING), ("neutral", NEUTRAL)):
        js = want[name]
        jobs[name] = rng.sample(js, n) if len(js) > n else js
    _shared.update(spec=cx.spec, prop=prop, deadline=time.time() + BUDGET)
    todo = [(name, j) for name in jobs for j in jobs[name]]
    rng.shuffle(todo)
    out = {name: {"possible": len(want[name]), "tried": 0, "violation": 0, "undecided": 0, "held": 0} for name in jobs}
    quiet, alarms = [], []
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for (name, _), r in zip(todo, pool.imap(_decide, [j for _, j in todo], chunksize=2)):
            if r is None:
                continue
            rel, kind, line, status, why = r
            d = out[name]
            d["tried"] += 1
            d[status] = d.get(status, 0) + 1
            if name == "breaking" and status == "held":
                quiet.append(f"{kind} @ {rel}:{line}")
            if name == "neutral" and status == "violation":
                alarms.append(f"{kind} @ {rel}:{line}: {why}")
    return {"liveness": {
        "rule": "edits of the covered constructs, decided in memory; an edit that changes nothing observable is rightly quiet",
        "breaking_edits": out["breaking"], "neutral_edits": out["neutral"],
        "breaking_edits_that_held": sorted(quiet)[:60], "neutral_edits_reported": sorted(alarms)[:60]}}
