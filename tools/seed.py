#!/usr/bin/env python3
"""seed.py SPEC.py...: makes /verif/seeded/<id> from a spec (id, property, needs, breaks, edits, demo) after confirming it:
the patch applies to /repo's HEAD, changes only original lines, builds, passes the stable tests, and the demo tells the trees apart.
Then runs the property's check and reports whether it was caught. Development tool; no check uses it."""
import json, os, subprocess, sys, shutil, re
REPO, VD = "/repo", "/verif"
DEMO = '''#!/bin/bash
# exit 0: the property holds here; non-zero: it is broken
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$W"' EXIT
cp "$D/main.go.txt" "$W/main.go"
cat > "$W/go.mod" <<X
module demo

go 1.23

require (
	github.com/KSpaceer/yamly v0.1.1
	github.com/KSpaceer/yamly/engines/goyaml v0.0.0
	github.com/KSpaceer/yamly/engines/yayamls v0.0.0
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/KSpaceer/yamly => $R

replace github.com/KSpaceer/yamly/engines/yayamls => $R/engines/yayamls

replace github.com/KSpaceer/yamly/engines/goyaml => $R/engines/goyaml
X
cp "$R/engines/goyaml/go.sum" "$W/go.sum"
cd "$W" && timeout 120 go run @RACE@. || exit 1
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f"git -C {REPO} checkout -- .")
base = "cd68172"
for spec in sys.argv[1:]:
    if spec.startswith("--"): continue
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns["id"]
    assert not sh(f"git -C {REPO} status --porcelain").stdout.strip(), "repo not clean"
    ok = True
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(REPO, f); t = open(p).read()
            assert t.count(old) == 1, (sid, f, t.count(old), old)
            # the removed lines have to be lines of the original repository
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        orig = 0; mine = 0
        for f in {e[0] for e in ns["edits"]}:
            bl = sh(f"git -C {REPO} blame -s HEAD -- {f}").stdout.splitlines()
            d = sh(f"git -C {REPO} diff -U0 -- {f}").stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0: a, n = a, 1
                for l in bl[a-1:a-1+n]:
                    if l.lstrip("^").startswith(base): orig += 1
                    else: mine += 1
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(sid, "BUILD FAILS", b.stdout[-800:], b.stderr[-800:]); ok = False
        t = sh("bash /opt/vp/test.sh /tmp/seed-out.json") if ok else None
        if ok and "309 passed, 0 failed" not in t.stdout: print(sid, "TESTS FAIL", t.stdout[-600:]); ok = False
        d = f"/tmp/seedtmp/{sid}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.sh", "w").write(ns.get("demo_sh") or DEMO.replace("@RACE@", ns.get("race", "")))
        for name, body in (ns.get("files") or {"main.go.txt": ns["demo"]}).items():
            open(d + "/" + name, "w").write(body)
        dm = sh(f"bash {d}/demo.sh", cwd=REPO)
        if dm.returncode == 0: print(sid, "DEMO DOES NOT FAIL", dm.stdout[-500:]); ok = False
        pid = ns["property"]; caught = "-"
        if ok or "--force" in sys.argv:
            c = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash {VD}/run.sh {pid}", cwd=VD)
            caught = c.returncode == 1 and f"VIOLATION property={pid} " in c.stdout
            sig = re.findall(r"signature=(\S+)", c.stdout)[:1]
            if not caught and c.returncode != 0: print(c.stdout[-800:])
    finally:
        clean()
    dm0 = sh(f"bash {d}/demo.sh", cwd=REPO)
    if dm0.returncode != 0: print(sid, "DEMO FAILS ON CLEAN", dm0.stdout[-500:], dm0.stderr[-900:]); ok = False
    if mine: print(sid, f"note: {mine} changed lines are not original ({orig} are)")
    if not orig: ok = False
    print(sid, pid, "valid" if ok else "INVALID", "caught" if caught is True else f"MISSED({caught})", sig if caught is True else "", "| demo:", (dm.stdout + dm.stderr).strip().replace("\n", " ")[:150])
    if ok:
        out = f"{VD}/seeded/{sid}"; shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": pid, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
