#!/usr/bin/env python3
"""Plants a bug: seed(id, prop, needs, breaks, edits, demo[, pkg]) writes
/verif/seeded/<id>/ after checking, in a scratch copy of /repo, that the
change compiles, passes the stable tests, and fails the demonstration that
passes without it. With --check, the property's check is run against it."""
import json, os, shutil, subprocess, sys, tempfile

ROOT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package PKG of the repository in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
GOPROXY=off GOFLAGS=-mod=mod go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run 'TestZZDemo' ./PKG
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def seed(id, prop, needs, breaks, edits, demo, pkg=".", force=False):
    d = f"{ROOT}/{id}"
    if os.path.exists(d) and not force:
        print(id, "already there"); return
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = tmp + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for f, reps in edits.items():
            s = open(f"{repo}/{f}").read()
            for a, b in reps:
                if s.count(a) != 1:
                    print(id, "EDIT", f, s.count(a), repr(a[:80])); return
                s = s.replace(a, b)
            open(f"{repo}/{f}", "w").write(s)
        diff = sh("git diff", repo).stdout
        art = tmp + "/art"; os.makedirs(art)
        open(art + "/demo_test.go.txt", "w").write(demo)
        open(art + "/demo.sh", "w").write(DEMO.replace("PKG", pkg)); os.chmod(art + "/demo.sh", 0o755)
        open(art + "/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(art + "/meta.json", "w"), indent=1)
        env = dict(os.environ, GOPROXY="off", GOFLAGS="-mod=mod")
        r = sh("gofmt -l $(git diff --name-only) && go vet . && go build ./...", repo, env=env)
        if r.stdout.strip() or r.returncode: print(id, "BUILD:", r.stdout[-1500:]); return
        r = sh("go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -v /tests/interop/)", repo, env=env)
        ok = set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        bad = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
        if bad: print(id, "FAILS TESTS", sorted(bad)[:5]); return
        r1 = sh(f"bash {art}/demo.sh", repo)
        sh("git checkout -q -- .", repo)
        r0 = sh(f"bash {art}/demo.sh", repo)
        if r0.returncode != 0: print(id, "DEMO FAILS UNPATCHED", r0.stdout[-1500:]); return
        if r1.returncode == 0: print(id, "DEMO PASSES PATCHED", r1.stdout[-800:]); return
        if "zz_demo_test.go" in r1.stdout and "build failed" in r1.stdout: print(id, "DEMO BUILD", r1.stdout[-800:]); return
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(art, d)
        print(id, "planted")
    finally:
        shutil.rmtree(tmp)

def check(ids, tier="quick", props=None):
    """Runs the property's check against each planted bug, in scratch copies of
    /repo and of the machinery (so that both can be edited meanwhile)."""
    import time
    tmp = tempfile.mkdtemp(prefix="seedcheck")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/repo"])
        subprocess.check_call(f"mkdir {tmp}/verif && cd /verif && cp -a check.sh setup.sh engine harness tools known_findings.txt *.json* bin {tmp}/verif/ && mkdir {tmp}/verif/evidence {tmp}/verif/replays", shell=True)
        for id in ids:
            d = f"{ROOT}/{id}"
            prop = props or json.load(open(d + "/meta.json"))["property"]
            if sh(f"git apply {d}/patch.diff", tmp + "/repo").returncode: print(id, "DOES NOT APPLY", flush=True); continue
            t = time.time()
            r = sh(f"VERIF_SEED=1 VERIF_TIER={tier} ./check.sh {prop} -repo {tmp}/repo -verif {tmp}/verif", tmp + "/verif")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            lab = [l.strip() for l in r.stdout.splitlines() if " assert " in l or "panic" in l][:2]
            print(f"{id} {prop} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {time.time()-t:.0f}s {lab}", flush=True)
            if r.returncode not in (0, 1): print(r.stdout[-1500:], flush=True)
            sh("git checkout -q -- .", tmp + "/repo")
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    if sys.argv[1] == "check":
        check(sys.argv[2:] or sorted(os.listdir(ROOT)))
