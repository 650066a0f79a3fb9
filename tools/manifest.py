#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/props.py and the harnesses that exist."""
import json, re, glob, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(root + "/properties.jsonl")]
have = {}
for f in glob.glob(root + "/harness/h/*.go"):
    for m in re.findall(r"^func ([A-Z]\d\d)_(\w+)\(\)", open(f).read(), re.M):
        have.setdefault(m[0], []).append(m[1])
NA = {}
exec(open(root + "/tools/na.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique="bounded symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding branches and assertions",
            level="model_checking",
            level_note="Every path of the real code within the bounds stated by the harnesses (" + ", ".join(sorted(have[i])) + ") is executed symbolically; counterexamples are replayed on the real build before they are reported. Trusts the gosym SSA interpreter and its models of fmt, regexp, os and time (validated by re-executing sampled path models natively) and the solver."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="./check.sh --setup",
    hooks=dict(guard="verif", enable="no hooks are needed: the harnesses use the exported API of the unmodified tree", source_commits=[]),
    checks=checks, not_applicable=na)
open(root + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
