#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the harnesses' doc comments, properties, findings and planted bugs."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(root + "/properties.jsonl")]
docs = {}
for f in sorted(glob.glob(root + "/harness/h/*.go")):
    t = open(f).read()
    for m in re.finditer(r"((?:^//.*\n)*)^func ([A-Z]\d\d)_(\w+)\(\)", t, re.M):
        c = " ".join(l[2:].strip() for l in m[1].splitlines())
        c = re.sub(r"^%s_%s:?\s*" % (m[2], m[3]), "", c)
        docs.setdefault(m[2], []).append((m[3], c))
seeds = {}
res = {}
p = root + "/tools/seed_results.json"
if os.path.exists(p): res = json.load(open(p))
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    seeds.setdefault(m["property"], []).append((i, m, res.get(i, "not run")))
out = [open(root + "/tools/design.md").read().rstrip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    out += [f"### {i} {p['title']}", "", p.get("statement", ""), ""]
    if p["quantifier"]["text"]: out += ["*Explored:* " + p["quantifier"]["text"], ""]
    if i in docs:
        out += ["Harnesses (`harness/h/%s.go`):" % i.lower(), ""]
        out += [f"- `{i}_{n}`: {c}" if c else f"- `{i}_{n}`" for n, c in docs[i]]
        out.append("")
    if i in seeds:
        out += ["Planted: " + "; ".join(f"{s} ({m['what_it_breaks']}; {r})" for s, m, r in seeds[i]), ""]
out += ["## Defects found in gmnlisp", "", "All were repaired by `fix:` commits in /repo (the same list, machine-readable, is `known_findings.txt`; no finding is left open).", ""]
for l in open(root + "/known_findings.txt"):
    m = re.match(r"(fixed|known): property=(\w+) (\S+) (.*)", l)
    if m: out.append(f"- {m[2]} `{m[3]}` {m[4]}" + ("" if m[1] == "fixed" else " (**open**)"))
open(root + "/DESIGN.md", "w").write("\n".join(out) + "\n")
