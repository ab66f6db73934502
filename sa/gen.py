"""Write properties.jsonl and MANIFEST.json from the catalog."""

import json
import os

from . import catalog
from .rules import RULES, load

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "source-level path/effect summaries compared with confirmed definitions"
NOTE = ("Decides the structural content of the property: every listed definition does, path by path, what was confirmed against the property. "
        "Undecided constructs are reported as such, never as held. Runtime values beyond what the code shapes determine are not claimed.")


def row(p):
    return {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {
            "files": p["files"],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in p.get("state", ())],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": list(p.get("observe", ())),
        },
    }


def fill(text, mark, body):
    a, b = f"<!-- {mark} -->", "<!-- end -->"
    i = text.index(a) + len(a)
    return text[:i] + "\n" + body + "\n" + text[text.index(b, i):]


def design():
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path).read()
    out = []
    for p in catalog.P:
        out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
        out.append(f"Quantifies over {p['text']}. Tests: {p['why']}.")
        out.append("Mechanism: " + "; ".join(f"{n} (`{w}`)" for n, w in p["mech"]) + ".")
        out.append("Decided by: " + ", ".join(f"`{s}`" for s in p["sel"]) + (". Rules: " + "; ".join(f"{r} ({(RULES[r].__doc__ or '').strip()})" for r in p["rules"]) if p["rules"] else "") + ".\n")
    out.append("### Not applicable\n")
    why = {x["property"]: x["reason"] for x in catalog.NOT_APPLICABLE}
    for p in catalog.P_NA:
        out.append(f"* {p['id']} {p['title']}: {why[p['id']]}.")
    text = fill(text, "properties", "\n".join(out))
    fixed = [line.strip()[7:] for line in open(os.path.join(VERIF, "known_findings.txt")) if line.startswith("fixed:")]
    text = fill(text, "fixed", "\n".join("* " + x.replace("property=", "", 1) for x in fixed))
    rows = ["| bug | property | breaks | needs | reported by |", "|---|---|---|---|---|"]
    root = os.path.join(VERIF, "seeded")
    caught = os.path.join(VERIF, "seeded_results.json")
    caught = json.load(open(caught)) if os.path.exists(caught) else {}
    for d in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        m = json.load(open(os.path.join(root, d, "meta.json")))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(d, ())) or 'undecided (missed)'} |")
    if os.path.isdir(root):
        text = fill(text, "seeded", "\n".join(rows))
    with open(path, "w") as fh:
        fh.write(text)


def main():
    load()
    rows = [row(p) for p in catalog.P + catalog.P_NA]
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fh:
        for r in rows:
            fh.write(json.dumps(r, ensure_ascii=False) + "\n")
    checks = []
    for p in catalog.P:
        p["rules"] = [r for r in p["rules"] if r in RULES]
        tech = TECH + (" + rules: " + ", ".join(p["rules"]) if p["rules"] else "")
        checks.append({
            "property": p["id"], "quick_cmd": f"python3 -m sa {p['id']} --tier quick", "thorough_cmd": f"python3 -m sa {p['id']} --tier thorough",
            "technique": tech, "level": "other", "level_note": p.get("note") or NOTE,
        })
    man = {"version": 1, "setup_cmd": "python3 -c 'import sa.check'", "checks": checks, "not_applicable": catalog.NOT_APPLICABLE}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1, ensure_ascii=False)
        fh.write("\n")
    design()


if __name__ == "__main__":
    main()
