"""The confirmed obligations (spec/obligations.json.gz): load, save, build."""

from __future__ import annotations

import gzip
import json
import os

from .facts import Facts, all_names, call_sigs, is_private
from .summary import Summary, summarize

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(os.path.dirname(HERE), "spec", "obligations.json.gz")

ALWAYS_OPAQUE = {
    "effectful.internals.runtime._set_prompt",
    "effectful.internals.runtime._save_args",
    "effectful.internals.runtime._restore_args",
}


class Enc:
    def __init__(self):
        self.tab, self.idx = [], {}

    def enc(self, v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == "const" and not isinstance(v[2], tuple):
                row = ("C", v[1], repr(v[2]))
            elif len(v) == 3 and v[0] == "const":
                row = ("C", v[1], repr(v[2]))
            else:
                row = tuple((self.enc(x),) if isinstance(x, tuple) else x for x in v)
            # True == 1: keep the types apart
            key = repr(row)
            if key not in self.idx:
                self.idx[key] = len(self.tab)
                self.tab.append(row)
            return self.idx[key]
        raise TypeError(v)


def dec_table(tab):
    out = []
    for row in tab:
        if row and row[0] == "C" and len(row) == 3 and isinstance(row[1], str):
            r = row[2]
            v = ... if r == "Ellipsis" else eval(r, {"__builtins__": {}, "inf": float("inf"), "nan": float("nan")})
            out.append(("const", row[1], v))
        else:
            out.append(tuple(out[x[0]] if isinstance(x, list) else x for x in row))
    return out


def compute_opaque(project):
    f = Facts(project, ())
    out = set(ALWAYS_OPAQUE)
    for k, fi in f.keys.items():
        if is_private(fi):
            s = summarize(project, fi, k, dict(inline=lambda g: g.outer is not None, limit=300))
            n = len(s.paths) if s.status == "ok" else 999
            if n > 3:
                out.add(fi.qual)
    return out


def build(project):
    names = all_names(project)
    opaque = compute_opaque(project)
    f = Facts(project, opaque, names)
    e = Enc()
    fns = {}
    for k in f.keys:
        s = f.summary(k)
        fns[k] = {
            "qual": f.keys[k].qual, "status": s.status,
            "sig": e.enc(s.sig), "decos": e.enc(s.decorators), "paths": e.enc(s.paths),
            "cleanups": e.enc(s.cleanups), "catches": e.enc(s.catches), "scoped": e.enc(s.scoped),
        }
    data = {
        "names": sorted(names), "opaque": sorted(opaque), "sigs": call_sigs(project),
        "functions": fns,
        "classes": {q: e.enc(v) for q, v in f.class_facts().items()},
        "modules": {q: e.enc(v) for q, v in f.module_facts().items()},
    }
    data["table"] = e.tab
    return data


def save(data, path=PATH):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    raw = json.dumps(data, separators=(",", ":"), sort_keys=True).encode()
    with open(path, "wb") as fh:
        with gzip.GzipFile(fileobj=fh, mode="wb", mtime=0, filename="") as g:
            g.write(raw)


class Spec:
    def __init__(self, path=PATH):
        with gzip.open(path, "rb") as fh:
            d = json.loads(fh.read())
        tab = dec_table(d["table"])
        self.names = set(d["names"])
        self.opaque = set(d["opaque"])
        self.sigs = d["sigs"]
        self.functions = {}
        for k, x in d["functions"].items():
            s = Summary(k, "")
            s.status = x["status"]
            s.sig, s.decorators, s.paths = tab[x["sig"]], tab[x["decos"]], tab[x["paths"]]
            s.cleanups, s.catches = tab[x["cleanups"]], tab[x["catches"]]
            s.scoped = tab[x["scoped"]]
            s.module = x["qual"]
            self.functions[k] = s
        self.classes = {k: tab[i] for k, i in d["classes"].items()}
        self.modules = {k: tab[i] for k, i in d["modules"].items()}


if __name__ == "__main__":
    from .project import Project

    d = build(Project())
    save(d)
    print(len(d["functions"]), "functions", len(d["table"]), "nodes", os.path.getsize(PATH), "bytes")
