#!/usr/bin/env python3
"""Builds and validates planted bugs.

    seed.py SPEC.py [ID...]   SPEC.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo=Go source)}

For each bug: applies the edits to a copy of /repo, builds, checks that the demonstration passes on the unchanged copy
and fails on the changed one, runs the stable tests, and then writes seeded/<id>/."""
import concurrent.futures, threading, json, os, runpy, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# runs demo_test.go, beside this file, as a test of the package core of the repository in the current directory
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/core/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -overlay "$t/overlay.json" -count=1 -timeout 200s -run '^TestDemo$' ./core
'''

LOCK = threading.Lock()

def run(cmd, cwd, timeout=900):
    env = dict(os.environ, GOFLAGS="-mod=mod")
    try:
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"

def build(bug, spec, clean):
    w = f"/tmp/w/{bug}"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = f"/tmp/w/{bug}.seed"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug, f"edit of {f}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        open(d + "/demo_test.go", "w").write(spec["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("-vet=off", "-vet=off -race" if spec.get("race") else "-vet=off"))
        os.chmod(d + "/demo.sh", 0o755)
        run("gofmt -l -w " + " ".join({e[0] for e in spec["edits"]}), w)
        rc, out = run("git diff", w)
        open(d + "/patch.diff", "w").write(out)
        rc, out = run("go build ./...", w)
        if rc: return bug, "build: " + out
        for i in range(spec.get("repeat", 3)):
            rc, out = run(d + "/demo.sh", clean, 300)
            if rc: return bug, "demo fails on the unchanged tree: " + out[-1500:]
            rc, out2 = run(d + "/demo.sh", w, 300)
            if rc == 0 or "zz_demo" not in out2 and "panic" not in out2 and "DATA RACE" not in out2 and "deadlock" not in out2:
                return bug, f"demo with the bug: {rc} " + out2[-1500:]
        script = open("/opt/vp/test.sh").read().replace("/repo", w).replace("/opt/vp/testwork", f"/tmp/w/{bug}.tests")
        open(d + "/t.sh", "w").write(script)
        rc, out = run(f"bash {d}/t.sh {d}/out.json", w)
        passed = set(json.load(open(d + "/out.json"))["passed"])
        for _ in range(4): # some tests depend on the load
            if all(t in passed for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]): break
            with LOCK:
                run(f"bash {d}/t.sh {d}/out.json", w)
            passed |= set(json.load(open(d + "/out.json"))["passed"])
        missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]
        if missing: return bug, f"stable tests fail: {missing[:5]}"
        for f in ("t.sh", "out.json"): os.remove(f"{d}/{f}")
        meta = {"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}
        json.dump(meta, open(d + "/meta.json", "w"), indent=1)
        t = f"{VERIF}/seeded/{bug}"
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        return bug, None
    finally:
        for x in (w, d, f"/tmp/w/{bug}.tests"): shutil.rmtree(x, ignore_errors=True)

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or sorted(bugs)
    os.makedirs("/tmp/w", exist_ok=True)
    clean = "/tmp/w/clean"
    shutil.rmtree(clean, ignore_errors=True)
    shutil.copytree("/repo", clean, symlinks=True)
    ok = True
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for bug, err in ex.map(lambda b: build(b, bugs[b], clean), ids):
            print(bug, "OK" if err is None else "FAILED " + err, flush=True)
            ok = ok and err is None
    shutil.rmtree(clean, ignore_errors=True)
    sys.exit(0 if ok else 1)
main()
