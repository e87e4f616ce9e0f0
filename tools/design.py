#!/usr/bin/env python3
"""Composes DESIGN.md: the general part (design_head.md), one section per
property (from properties.jsonl and the analyser's own explanation of its rules),
the planted bugs with the checks that catch them, and the defects found."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = lambda *a: os.path.join(V, *a)
props = [json.loads(l) for l in open(P("properties.jsonl")) if l.strip()]
man = json.load(open(P("MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
ex = {}
for l in subprocess.run([P("bin/kyvelint"), "explain"], capture_output=True, text=True).stdout.splitlines():
    f = l.split("\t")
    if len(f) >= 3:
        ex[f[0]] = (f[1], f[2])
o = [open(P("tools/design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    o += [f"### {i} {p['title']}", ""]
    if i in na:
        o += [f"Not applicable: {na[i]}", ""]
        continue
    t, x = ex[i]
    o += [f"*Method:* {t}.", "", f"*Decided:* {x}", "", f"*Quantifier:* {p['quantifier']['text']}. *Beyond tests:* {p['why_tests_cant']}.", ""]
o += ["## Planted bugs and the checks that catch them", "",
      "`seeded/<id>/` holds each change with its demonstration; every one compiles, passes the",
      "repository's tests and is shown to break its property by `demo.sh`. \"Caught by\" is the result of",
      "all checks run on the patched tree (`tools/seedtest.sh`); the first-run column says whether the",
      "check caught it as it stood when the bug was written.", "",
      "| id | property | needs | caught by | first run |", "|---|---|---|---|---|"]
notes = {}
if os.path.exists(P("tools/caught.tsv")):
    for l in open(P("tools/caught.tsv")):
        f = l.rstrip("\n").split("\t")
        if len(f) >= 3:
            notes[f[0]] = (f[1], f[2])
for s in sorted(os.listdir(P("seeded"))):
    m = json.load(open(P("seeded", s, "meta.json")))
    c = notes.get(s, ("?", "?"))
    o.append(f"| {s} | {m['property']} | {m['needs']} | {c[0]} | {c[1]} |")
o += ["", open(P("tools/design_tail.md")).read().rstrip(), "", "### Repaired (`fix:` commits in /repo)", ""]
kf = [l.strip() for l in open(P("known_findings.txt")) if l.strip() and not l.startswith("#")]
for l in kf:
    if l.startswith("fixed:"):
        f = l.split(" ", 3)
        o.append(f"* {f[1].split('=')[1]} `{f[2]}`: {f[3]}")
o += ["", "### Recorded, not repaired", ""]
for l in kf:
    if l.startswith("finding:"):
        o.append("* " + l[len("finding: "):].replace("::", "—"))
o.append("")
open(P("DESIGN.md"), "w").write("\n".join(o))
