#!/usr/bin/env python3
"""DESIGN.md from its hand-written parts, the evidence of the last runs, and the planted bugs."""
import json, glob, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from design_props import P
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = open(H + "/design_head.md").read()
out += "| ID | property | specification and what is enumerated | left open | TLC states/transitions; replayed; events [s] |\n|---|---|---|---|---|\n"
for p in props:
    s, w, o = P[p["id"]]
    try:
        e = json.load(open("%s/evidence/%s.json" % (V, p["id"]))); c = e["coverage"]
        n = "%d/%d; %d; %d [%.0f]" % (c["states"], c["transitions"], sum(t["transitions_replayed"] for t in c["transition_coverage"]), c["events_validated"], e["wall_s"])
    except FileNotFoundError: n = "-"
    out += "| %s | %s | %s: %s | %s | %s |\n" % (p["id"], p["title"].replace("|", "/"), s, w.replace("|", "/"), o.replace("|", "/"), n)
out += """
Every property is decided by this family of technique; `not_applicable` in MANIFEST.json is empty. Concurrency does
not occur in harbol (no threads, no shared mutable globals besides the lazily filled tables), so "schedules" are call histories
and failing requests.
"""
out += open(H + "/design_tail.md").read()
out += "## 6. Defects of harbol found and repaired\n\nEach is one `fix:` commit in /repo, listed in known_findings.json; the checks report them again if they return. No finding is left unrepaired.\n\n"
for f in json.load(open(V + "/known_findings.json"))["fixed"]: out += "* " + f.replace("fixed: property=", "") + "\n"
out += "\n## 7. Planted bugs\n\nEach keeps the build and the stable tests green and has a demonstration (seeded/ID/demo.sh). `caught` is the result of the property's own quick check at the last full re-run.\n\n"
res = {}
if os.path.exists(H + "/seeded_results.json"): res = json.load(open(H + "/seeded_results.json"))
out += "| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); b = f.split("/")[-2]; r = res.get(b)
    out += "| %s | %s | %s | %s | %s |\n" % (b, m["property"], m.get("needs", "").replace("|", "/"), m.get("what_it_breaks", "").replace("|", "/"), {1: m["property"], 0: "missed"}.get(r, "?"))
open(V + "/DESIGN.md", "w").write(out)
