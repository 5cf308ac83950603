#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's working tree, runs them, judges the outcome.

  check.py <ID>                    run the check (VERIF_SEED, VERIF_TIER)
  check.py <ID> --replay <file>    run again the case of a violation
  check.py --build                 build only

exit 0: held on everything explored; 1: VIOLATION line; 2: inconclusive or error of the check.
"""
import glob, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "out")
REPLAYS = os.path.join(HERE, "replays")
HARNESS = os.path.join(HERE, "harness")
GO = "/opt/veriftools/go1.27.3/bin/go"
RUN_LIMIT = 800

# checks that (also) run under the race detector: fraction of what they decide
RACE = {"C06", "C22"}
RACE_ONLY = {"C06"}


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    for k in ("GODEBUG", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", "GORACE", "VERIF_ONLY"):
        e.pop(k, None)
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e


def build(race):
    os.makedirs(OUT, exist_ok=True)
    # a copy, so that the committed files never change
    mod = os.path.join(OUT, "go.mod")
    shutil.copyfile(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copyfile(os.path.join(HARNESS, "go.sum"), os.path.join(OUT, "go.sum"))
    binary = os.path.join(OUT, "race.test" if race else "plain.test")
    if os.path.exists(binary):
        os.unlink(binary)
    cmd = [GO, "test", "-c", "-vet=off", "-modfile", mod, "-o", binary] + (["-race"] if race else []) + ["./checks"]
    p = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("error: the harness does not build against /repo")
        sys.exit(2)
    return binary


def run(prop, binary, race, only=None):
    work = os.path.join(OUT, "run-%s%s" % (prop, "-race" if race else ""))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    e = env()
    e["VERIF_OUT"] = work
    e["GOTRACEBACK"] = "all"
    if race:
        e["VERIF_RACE"] = "1"
        e["GORACE"] = "halt_on_error=0 exitcode=0 history_size=5 log_path=%s/race" % work
    if only:
        e["VERIF_ONLY"] = only
    log = open(os.path.join(work, "log"), "wb")
    p = subprocess.Popen([binary, "-test.run", "^Test%s$" % prop, "-test.timeout", "0"], cwd=work, env=e,
                         stdout=log, stderr=subprocess.STDOUT)
    timed_out = False
    try:
        p.wait(RUN_LIMIT if e["VERIF_TIER"] == "quick" else 6 * 3600)
    except subprocess.TimeoutExpired:
        timed_out = True
        p.send_signal(3)
        try:
            p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    log.close()
    text = open(os.path.join(work, "log"), "rb").read().decode("utf8", "replace")
    res = {"violations": [], "errors": [], "evidence": None, "log": text, "races": 0}
    try:
        res.update({k: v or [] for k, v in json.load(open(os.path.join(work, "result.json"))).items()})
        res["evidence"] = json.load(open(os.path.join(work, "evidence.json")))
    except (OSError, ValueError):
        if timed_out:
            res["errors"].append("the check did not end in time")
        elif p.returncode in (-9, -15):
            res["errors"].append("the check was killed")
        else:
            m = re.search(r"^(fatal error:.*|panic:.*|unexpected fault.*|runtime: .*|SIG[A-Z]+: .*)", text, re.M)
            what = m.group(1) if m else "the process ended with status %s" % p.returncode
            v = {"property": prop, "group": "process", "index": -1, "key": "crash", "seed": int(e["VERIF_SEED"]),
                 "tier": e["VERIF_TIER"], "message": "the process crashed: " + what,
                 "trace": text[m.start() if m else 0:][:12000]}
            if m and "out of memory" in what:
                res["errors"].append(v["message"])
            else:
                res["violations"].append(v)
    if race:
        judge_races(prop, work, e, res)
    return res


def judge_races(prop, work, e, res):
    seen = {}
    foreign = []
    for f in glob.glob(os.path.join(work, "race.*")):
        text = open(f, errors="replace").read()
        for block in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
            res["races"] += 1
            # the two accesses, before the creation stacks
            acc = re.split(r"\n\s*\n", block)
            acc = [a for a in acc if re.match(r"\s*(Previous )?(atomic )?(read|write)", a, re.I)]
            inlib = [a for a in acc if "wearelumenai/distclus/" in a]
            sig = "|".join(sorted(re.sub(r"0x[0-9a-f]+|:\d+|goroutine \d+", "", ln.strip())
                                  for a in acc for ln in a.splitlines()[1:3]))
            if inlib:
                seen.setdefault(sig, block)
            else:
                foreign.append(block)
    for sig, block in list(seen.items())[:3]:
        fn = re.findall(r"(github.com/wearelumenai/distclus/\S+)\(", block)
        res["violations"].append({"property": prop, "group": "race", "index": -1, "key": "race", "tier": e["VERIF_TIER"],
                                  "seed": int(e["VERIF_SEED"]), "message": "data race: " + ", ".join(fn[:2]),
                                  "trace": block})
    if foreign and not seen:
        res["errors"].append("data race in the harness:\n" + foreign[0])


def known(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def main():
    if sys.argv[1] == "--build":
        build(False)
        build(True)
        return 0
    prop = sys.argv[1]
    only = None
    races = [False] * (prop not in RACE_ONLY) + [True] * (prop in RACE)
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        os.environ["VERIF_SEED"] = str(r["seed"])
        os.environ["VERIF_TIER"] = r["tier"]
        if r["index"] >= 0:
            only = "%s:%d" % (r["group"], r["index"])
    t0 = time.time()
    violations, errors, evidence = [], [], None
    for race in races:
        binary = build(race)
        res = run(prop, binary, race, only)
        violations += res["violations"]
        errors += res["errors"]
        ev = res["evidence"]
        if ev is None:
            ev = {"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "level": "exploration",
                  "seed": int(os.environ.get("VERIF_SEED", "1")), "violations": 0, "wall_s": 0,
                  "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "no result: see log"}}
        if race:
            ev["coverage"]["race_detector"] = {"enabled": True, "reports": res["races"]}
        if evidence is None:
            evidence = ev
        else:
            evidence["coverage"]["with_race_detector"] = ev["coverage"]
    kn = known(prop)
    for key, what in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    fresh = [v for v in violations if v["key"] not in [k for k, _ in kn]]
    evidence["violations"] = len(fresh)
    evidence["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only:
        json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for n, v in enumerate(fresh):
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
        v["run"] = "./check.py %s --replay %s" % (prop, path)
        json.dump(v, open(path, "w"), indent=1)
        print("%s %s:%d: %s" % (prop, v["group"], v["index"], v["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if fresh:
        return 1
    if errors:
        for err in errors:
            print("INCONCLUSIVE property=%s %s" % (prop, err[:3000]))
        return 2
    cov = evidence["coverage"]
    print("%s held: %d evaluations, %d distinct, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], evidence["wall_s"]))
    print(json.dumps(cov.get("observed", {})))
    return 0


if __name__ == "__main__":
    sys.exit(main())
