#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each
planted bug in a scratch copy: applies, builds, passes the stable tests, demo passes before and fails after."""
import os, sys, json, subprocess, shutil, tempfile, glob, runpy
HERE = os.path.dirname(os.path.abspath(__file__)); OUT = os.path.join(os.path.dirname(HERE), "seeded")
DEMO = '''#!/bin/bash
# run with cwd /repo after the build; exit 0: the property holds on this example
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd); tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
python3 - "$repo" "$here" "$tmp/overlay.json" <<'P'
import sys, json, os
repo, here, out = sys.argv[1:]
d = os.path.join(repo, "PKG"); m = {os.path.join(d, "zz_demo_test.go"): os.path.join(here, "demo_test.go.txt")}
for f in os.listdir(d):
    if f.endswith("_test.go"): m[os.path.join(d, f)] = ""
json.dump({"Replace": m}, open(out, "w"))
P
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestDemo$' ./PKG
'''
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main():
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))): seeds += runpy.run_path(f)["SEEDS"]
    want = sys.argv[1:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in seeds:
        if want and s["id"] not in want: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="seed_"); w = os.path.join(tmp, "repo")
        try:
            shutil.copytree("/repo", w, symlinks=True)
            sh("git checkout -q -- . && git clean -fdq", w)
            for f, old, new in s["edits"]:
                p = os.path.join(w, f); t = open(p).read()
                if t.count(old) < 1: print(s["id"], "TEXT NOT FOUND", f, repr(old[:60])); raise SystemExit
                n = s.get("nth", {}).get(old, 0)
                i = -1
                for _ in range(n + 1): i = t.index(old, i + 1)
                t = t[:i] + new + t[i+len(old):]
                open(p, "w").write(t)
            sh(". /opt/vp/env.sh; gofmt -l .", w)
            patch = sh("git diff", w).stdout
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("PKG", s["pkg"])); os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo_test.go.txt"), "w").write("package %s\n\n" % os.path.basename(s["pkg"]) + s["demo"].strip() + "\n")
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = []
            b = sh(". /opt/vp/env.sh; go build ./... && go vet ./pkg/dag ./pkg/etx 2>&1 | head -3", w); r.append("build=%d" % b.returncode)
            if b.returncode: print(b.stderr)
            t = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 $(go list -e ./... | grep -vx github.com/hexbee-net/etxe/pkg/dag) > %s/log.json; python3 /opt/vp/results.py %s/o.json gojson:%s/log.json" % (tmp, tmp, tmp), w)
            res = json.load(open(tmp + "/o.json")); passed = set(res.get("passed", []))
            broken = sorted(stable - passed); r.append("stable_broken=%d" % len(broken))
            if broken: print("   ", broken[:5])
            d1 = sh("bash %s/demo.sh" % d, w); r.append("demo_patched=%d" % d1.returncode)
            sh("git checkout -q -- .", w)
            d0 = sh("bash %s/demo.sh" % d, w); r.append("demo_clean=%d" % d0.returncode)
            good = b.returncode == 0 and not broken and d1.returncode != 0 and "FAIL: TestDemo" in d1.stdout + d1.stderr or "panic" in d1.stdout
            good = good and d0.returncode == 0 and not broken
            print(s["id"], s["property"], " ".join(r), "OK" if good else "BAD")
            if not good: print(d1.stdout[-600:], d1.stderr[-600:], "CLEAN:", d0.stdout[-800:], d0.stderr[-400:])
        finally: shutil.rmtree(tmp, ignore_errors=True)
main()
