#!/usr/bin/env python3
"""seed.py [ID...]: (re)create /verif/seeded/<id> from tools/seeds.py and confirm each one:
patch applies, builds, the stable tests pass, the demo passes without it and fails with it.
-c also runs the property's check (quick) on it."""
import json, os, re, subprocess, sys, difflib, shutil, stat
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
R = "/repo"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
'''
LISP = DEMO + '''go build -o "$w/g" ./cmd/gmnlisp || exit 2
timeout 60 "$w/g" "$d/demo.lsp" </dev/null >"$w/out" 2>"$w/err" || { cat "$w/err"; exit 1; }
diff "$w/out" "$d/expected.txt"
'''
GO = DEMO + '''printf '{"Replace":{"/repo/cmd/zzdemo/main.go":"%s/demo.go"}}' "$d" >"$w/o.json"
timeout 120 go run -overlay "$w/o.json" ./cmd/zzdemo </dev/null
'''
def stable():
    b = json.load(open('/opt/vp/BASELINE.json')); 
    for k in ('passed', 'stable', 'tests', 'pass'):
        if isinstance(b.get(k), list): return set(map(str, b[k]))
def run_tests():
    sh("bash /opt/vp/test.sh /tmp/seed_out.json")
    o = json.load(open('/tmp/seed_out.json'))
    for k in ('passed', 'stable', 'tests', 'pass'):
        if isinstance(o.get(k), list): return set(map(str, o[k]))
check = '-c' in sys.argv
want = [a for a in sys.argv[1:] if a[0] != '-']
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
for s in SEEDS:
    if want and s['id'] not in want: continue
    if not want and os.path.isdir('/verif/seeded/' + s['id']) and not check and sh(f"git -C /repo apply --check /verif/seeded/{s['id']}/patch.diff").returncode == 0: continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    msg = []
    try:
        for f, old, new in s['edits']:
            t = open(f"{R}/{f}").read()
            if t.count(old) != 1: msg.append(f"{f}: {t.count(old)} matches"); break
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
        for f, old, new in s['edits']:
            own = [l for l in sh(f"git -C /repo diff -U0 {base} HEAD -- {f}").stdout.splitlines() if l[:1] == '+' and l[:3] != '+++']
            mine = [l[1:].strip() for l in own]
            gone = [l[1:].strip() for l in sh(f"git -C /repo diff -U0 -- {f}").stdout.splitlines() if l[:1] == '-' and l[:3] != '---']
            if gone and all(g in mine for g in gone): msg.append(f"{f}: changes own lines only")
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(d + "/meta.json", "w"), indent=1)
        if 'sh' in s:
            open(d + "/demo.sh", "w").write(DEMO + 'go build -o "$w/g" ./cmd/gmnlisp || exit 2\n' + s['sh'])
        elif 'lisp' in s:
            open(d + "/demo.lsp", "w").write(s['lisp']); open(d + "/expected.txt", "w").write(s['expect'])
            open(d + "/demo.sh", "w").write(LISP)
        else:
            open(d + "/demo.go", "w").write(s['go']); open(d + "/demo.sh", "w").write(GO)
        os.chmod(d + "/demo.sh", 0o755)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: msg.append("BUILD " + b.stderr[-300:])
        r = sh("bash %s/demo.sh" % d, cwd=R)
        if r.returncode == 0: msg.append("demo passes with the patch")
        m = stable() - run_tests()
        if m: msg.append("tests fail: %s" % sorted(m)[:4])
        if check and not [m for m in msg if "own lines" not in m]:
            c = sh(f"cd /verif && bash check.sh {s['property']} quick")
            msg.append("CAUGHT" if c.returncode == 1 and "VIOLATION property=" + s['property'] in c.stdout else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]))
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            if v: msg.append(v[0][:150])
    finally:
        sh("git -C /repo checkout -- .")
    r = sh("bash %s/demo.sh" % d, cwd=R)
    if r.returncode: msg.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-300:])
    if check:
        f = "/verif/tools/seed_results.json"
        res = json.load(open(f)) if os.path.exists(f) else {}
        v = [re.search(r"replay/[A-Z0-9]+-(\w+)-", x) for x in msg]
        res[s['id']] = next(("caught by " + x[1] for x in v if x), "missed")
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    print(s['id'], "ok" if not msg else msg, flush=True)
