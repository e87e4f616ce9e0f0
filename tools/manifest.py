#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the specs compiled into the analyser and
the not-applicable list below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = subprocess.run([V + "/bin/kyvelint", "explain"], capture_output=True, text=True, check=True).stdout
ex = dict(l.split("\t", 1) for l in claimed.splitlines() if l)
NA = {
 "C47": "Exactness of repeated decimal divisions over an unbounded history of stakes, slashes and rewards is a numeric bound on runtime quantities; no static argument in reach gives it. The structure that carries the remainders is decided under C10.",
 "C48": "Proportionality over a window is a property of long numeric sequences of scores; static analysis decides the selection rule (C24), not its long-run distribution.",
 "C49": "The sum of all recorded liabilities against the module balances over all histories is a global numeric invariant over unbounded record sets; static analysis decides the local pairing of each transfer with its booking (C06, C09, C13, C15, C22, C26), not the sum.",
 "C50": "Liveness under fair schedules quantifies over unbounded schedules of transactions; out of reach of a static argument over the source.",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in ex:
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "./check.sh " + i + " -tier thorough",
            "technique": "static analysis: " + ex[i].split("\t")[0],
            "level": "other",
            "level_note": ex[i].split("\t")[1] + " Sound up to the analyser's model: go/types + SSA of the current tree, the SDK's own modules trusted as specified in external.go, numeric reasoning limited to syntactic terms and order facts.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built for it yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One analyser (kyvelint/, Go, vendored x/tools) decides every property from the source of /repo on each run; no code of /repo is executed and no hooks are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
