#!/usr/bin/env python3
"""mkseed.py SPEC.py : build seeded/<id>/ from a spec module with ID, PROPERTY, NEEDS, BREAKS, PKG,
EDITS [(file, old, new)], TEST (Go test source).  Confirms build, stable tests, demo both ways in a scratch worktree."""
import json, os, shutil, subprocess, sys, tempfile
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > $T/o.json
go test -overlay $T/o.json -vet=off -run '^TestSeedDemo$' -count=1 ./%s
'''
def main(spec, check=True):
    g = {}
    exec(open(spec).read(), g)
    W = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(W, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
        d = os.path.join(R, "seeded", g["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go"), "w").write(g["TEST"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (g["PKG"], g["PKG"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
        if a.returncode != 0: print("demo fails on the clean tree:", a.stdout[-1500:], a.stderr[-500:]); ok = False
        if b.returncode == 0 or "build failed" in b.stdout: print("demo does not fail with the patch", b.stdout[-800:], b.stderr[-500:]); ok = False
        ts = open("/opt/vp/test.sh").read().replace("cd /repo ||", "cd %s ||" % repo).replace("LOGS=/opt/vp/logs", "LOGS=%s/logs" % W)
        open(W + "/test.sh", "w").write(ts)
        subprocess.run(["bash", W + "/test.sh", W + "/o.json"], capture_output=True)
        o = set(json.load(open(W + "/o.json"))["passed"])
        miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - o)
        if miss: print("  breaks stable tests:", miss[:6], len(miss)); ok = False
        print(g["ID"], "OK" if ok else "REJECTED")
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(W, ignore_errors=True)
for s in sys.argv[1:]:
    main(s)
