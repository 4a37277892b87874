#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from tools/spec.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import spec

LEVEL_NOTE = ("Bounded: every assertion is decided by the solver for all inputs of every explored path of the real code's SSA; "
              "evidence says whether all paths within the bounds were explored. ")

props, checks, man = [], [], []
for p in spec.PROPS:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["quant"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, p["id"]
    if not p.get("harnesses"):
        continue
    checks.append({"id": p["id"], "harnesses": p["harnesses"], "outside": p.get("outside", [])})
    man.append({"property": p["id"], "quick_cmd": "./run.sh %s quick" % p["id"], "thorough_cmd": "./run.sh %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": "symbolic execution of the real Go SSA, SMT-decided assertions (z3), counterexamples replayed on the real build",
                "level": "model_checking",
                "level_note": LEVEL_NOTE + "Bounds: " + "; ".join(h["bounds"] for h in p["harnesses"] if h.get("bounds")) + ". Outside: " + "; ".join(p.get("outside", ["nothing further"]))})
na = [{"property": k, "reason": v} for k, v in spec.NA.items()]
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(root, "checks.json"), "w") as f:
    json.dump(checks, f, indent=1); f.write("\n")
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": man, "not_applicable": na,
     "notes": "No hooks: /repo carries no instrumentation; harnesses are laid over it (packages.Config.Overlay and go build -overlay)."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(props), "properties,", len(man), "checks")


def region(text, name, body):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + body + text[j:]


rows = ["| Property | Harness: what is arbitrary (bounds) | Quantified over | Outside |", "|---|---|---|---|"]
for p in spec.PROPS:
    hs = "<br>".join("`%s.%s`: %s (%s)" % (h["pkg"], h["fn"], h["what"], h["bounds"]) for h in p["harnesses"])
    rows.append("| **%s** %s | %s | %s | %s |" % (p["id"], p["title"], hs, p["quant"], "; ".join(p.get("outside", [])) or "nothing further"))
fn = os.path.join(root, "DESIGN.md")
with open(fn) as f:
    text = f.read()
text = region(text, "bounds", "\n".join(rows) + "\n")
missed = {}
mf = os.path.join(here, "missed.txt")
if os.path.exists(mf):
    for l in open(mf):
        k, _, v = l.strip().partition(": ")
        missed[k] = v
rows = ["| Property | Planted bug | What it breaks | First missed; strengthened by |", "|---|---|---|---|"]
sd = os.path.join(root, "seeded")
if os.path.isdir(sd):
    l = []
    for d in os.listdir(sd):
        with open(os.path.join(sd, d, "meta.json")) as f:
            m = json.load(f)
        l.append((m["property"], d, m["what_it_breaks"]))
    for a, b, c in sorted(l):
        rows.append("| %s | %s | %s | %s |" % (a, b, c.replace("|", "\\|"), missed.get(b, "")))
    text = region(text, "seeded", "\n".join(rows) + "\n")
with open(fn, "w") as f:
    f.write(text)
