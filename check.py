#!/usr/bin/env python3
"""check.py ID quick|thorough   - decide property ID on /repo's working tree
   check.py --replay PATH       - run a saved violation again
   check.py --list              - which test belongs to which property

Every test of property ID is a Go function TestVerif_<ID>_* in /verif/overlay/<import path>/; the
overlay puts it into /repo's package at build time. Exit 0: held on everything generated; 1: a
VIOLATION line was printed; 3: no answer (the tree does not build with the harness, ...)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OVER = os.path.join(VERIF, "overlay")
MODULES = ["adminserver", "apiserver", "common", "metaserver", "objectserver"]


def overlay_files():
    for d, _, fs in os.walk(OVER):
        for f in sorted(fs):
            if f.endswith(".go"):
                yield os.path.relpath(os.path.join(d, f), OVER)


def tests():
    """{property: {package: [test, ...]}}"""
    res = {}
    for f in overlay_files():
        if not f.endswith("_test.go"):
            continue
        for m in re.finditer(r"^func (TestVerif_([A-Z]\d+)_\w+)\(", open(os.path.join(OVER, f)).read(), re.M):
            res.setdefault(m[2], {}).setdefault(os.path.dirname(f), []).append(m[1])
    return res


class NoAnswer(Exception):
    pass


def workspace(scratch):
    with open(f"{scratch}/go.work", "w") as f:
        f.write("go 1.23\n\ngodebug default=go1.20\n\nuse (\n")
        for m in MODULES:
            f.write(f"\t{REPO}/src/{m}\n")
        f.write(f"\t{VERIF}/harness\n)\n")
    sums = set()
    for s in (os.path.join(VERIF, "harness/base.sum"), os.path.join(REPO, "go.work.sum")):
        if os.path.exists(s):
            sums.update(open(s).read().splitlines())
    with open(f"{scratch}/go.work.sum", "w") as f:
        f.write("\n".join(sorted(x for x in sums if x)) + "\n")
    rep = {os.path.join(REPO, "src", f): os.path.join(OVER, f) for f in overlay_files()}
    json.dump({"Replace": rep}, open(f"{scratch}/overlay.json", "w"))
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK=f"{scratch}/go.work", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    return env


def build(scratch, env, pkg, race):
    out = f"{scratch}/{pkg.replace('/', '_')}{'_race' if race else ''}.test"
    cmd = ["go", "test", "-overlay", f"{scratch}/overlay.json", "-vet=off", "-c", "-o", out]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + [pkg], cwd=f"{REPO}/src/common", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise NoAnswer(f"building the check for {pkg} failed:\n{r.stdout[-6000:]}")
    return out


def binaries(scratch, env, race):
    """the servers' programs, for the checks that run them"""
    out = f"{scratch}/bin{'_race' if race else ''}"
    os.mkdir(out)

    def one(m):
        cmd = ["go", "build", "-o", f"{out}/{m}"] + (["-race"] if race else []) + ["."]
        r = subprocess.run(cmd, cwd=f"{REPO}/src/{m}", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise NoAnswer(f"building {m} failed:\n{r.stdout[-6000:]}")
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, ["apiserver", "metaserver", "objectserver"]))


def run_test(scratch, binary, pkg, test, tier, seed, failfile=None):
    d = tempfile.mkdtemp(prefix=test + "_", dir=scratch)
    out = f"{d}/out"
    cwd = f"{d}/cwd"
    tmp = f"{d}/tmp"
    for x in (out, cwd, tmp):
        os.mkdir(x)
    env = dict(os.environ)
    env.update(VERIF_BIN=f"{scratch}/bin{'_race' if test.endswith('_race') else ''}", VERIF_OUT=out, VERIF_TIER=tier, VERIF_SEED=str(seed), TMPDIR=tmp, VERIF_DIR=VERIF, HOME=tmp, GORACE="halt_on_error=1")
    limit = 300 if tier == "quick" else 3300
    cmd = [binary, f"-test.run=^{test}$", f"-test.timeout={limit}s", "-test.count=1"]
    if failfile:
        cmd.append(f"-rapid.failfile={failfile}")
    log = f"{d}/log"
    with open(log, "wb") as f:
        try:
            rc = subprocess.run(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=limit + 60).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    res = {"pkg": pkg, "test": test, "rc": rc, "log": log, "dir": d, "report": [], "known": []}
    for r in sorted(glob.glob(f"{out}/*.json")):
        res["report"].append(json.load(open(r)))
    if os.path.exists(f"{out}/known.txt"):
        res["known"] = open(f"{out}/known.txt").read().splitlines()
    ff = sorted(glob.glob(f"{cwd}/testdata/rapid/**/*.fail", recursive=True), key=os.path.getmtime)
    res["failfile"] = ff[-1] if ff else None
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def save_replay(pid, res, tier, seed):
    base = os.path.join(VERIF, "replays", pid, res["test"])
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    data = open(res["log"], "rb").read()
    with open(f"{base}/log.txt", "wb") as f:
        f.write(data if len(data) < 400000 else data[:200000] + b"\n...\n" + data[-200000:])
    rep = {"property": pid, "package": res["pkg"], "test": res["test"], "tier": tier, "seed": seed, "failfile": None}
    if res["failfile"]:
        shutil.copy(res["failfile"], f"{base}/case.fail")
        rep["failfile"] = "case.fail"
    json.dump(rep, open(f"{base}/replay.json", "w"), indent=1)
    return f"{base}/replay.json"


def main():
    if sys.argv[1:] == ["--list"]:
        for k, v in sorted(tests().items()):
            print(k, v)
        return 0
    failfile = None
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        pid, tier, seed = rep["property"], rep["tier"], rep["seed"]
        todo = {rep["package"]: [rep["test"]]}
        if rep["failfile"]:
            failfile = os.path.join(os.path.dirname(os.path.abspath(sys.argv[2])), rep["failfile"])
    else:
        pid, tier = sys.argv[1], sys.argv[2]
        seed = int(os.environ.get("VERIF_SEED") or "1")
        todo = tests().get(pid)
        if not todo:
            print("no checks for", pid)
            return 3
        only = os.environ.get("VERIF_ONLY")
        if only:
            todo = {p: [t for t in ts if re.search(only, t)] for p, ts in todo.items()}
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        env = workspace(scratch)
        jobs = [(p, t) for p, ts in todo.items() for t in ts]
        bins = {}
        keys = sorted({(p, t.endswith("_race")) for p, t in jobs})
        with ThreadPoolExecutor(4) as ex:
            for k, b in zip(keys, ex.map(lambda k: build(scratch, env, *k), keys)):
                bins[k] = b
        for race in sorted({r for p, r in keys if p.endswith("verife2e")}):
            binaries(scratch, env, race)
        tb = time.time() - t0
        with ThreadPoolExecutor(8) as ex:
            results = list(ex.map(lambda j: run_test(scratch, bins[(j[0], j[1].endswith("_race"))], j[0], j[1], tier, seed, failfile), jobs))
        viol = []
        for r in results:
            if r["rc"] == 0 and not r["report"]:
                raise NoAnswer(f"{r['test']} left no report:\n" + open(r["log"]).read()[-3000:])
            if os.environ.get("VERIF_VERBOSE"):
                print(open(r["log"], errors="replace").read()[-int(os.environ["VERIF_VERBOSE"]):])
            for k in sorted(set(r["known"])):
                print("KNOWN-FINDING:", k)
            if r["rc"] != 0:
                viol.append((r, save_replay(pid, r, tier, seed)))
        if not failfile:
            evidence(pid, tier, seed, results, len(viol), time.time() - t0, tb)
        for r, path in viol:
            log = open(r["log"], errors="replace").read()
            lines = log.splitlines()
            race = next((i for i, l in enumerate(lines) if "DATA RACE" in l), None)
            if race is not None:
                print("\n".join(lines[race:race + 30])[:4000] + "\n...")
            print("\n".join(lines[-60:])[-6000:])
        for r, path in viol:
            print(f"VIOLATION property={pid} replay={path}")
        for r in results:
            for rp in r["report"]:
                print(f"{rp['test']}: {rp['evaluations']} cases, {rp['nontrivial']} non-trivial ({rp['distinct_nontrivial']} distinct)", rp["classes"] or "")
        print(f"{pid} {tier} seed={seed}: {len(viol)} violations, build {tb:.1f}s, total {time.time()-t0:.1f}s")
        return 1 if viol else 0
    except NoAnswer as e:
        print("NO ANSWER:", e)
        return 3
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


def evidence(pid, tier, seed, results, nviol, wall, tb):
    reps = [rp for r in results for rp in r["report"]]
    samples = []
    for rp in reps:
        for s in rp["samples"] or []:
            samples.append(f"{rp['test']}: {s}")
    level = "exploration"
    man = os.path.join(VERIF, "MANIFEST.json")
    if os.path.exists(man):
        for c in json.load(open(man))["checks"]:
            if c["property"] == pid:
                level = c["level"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in reps),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in reps),
            "rule": " || ".join(f"{r['test']}: {r['rule']}" for r in reps),
            "samples": samples[:40],
            "per_test": [{k: r[k] for k in ("test", "evaluations", "nontrivial", "distinct_nontrivial", "classes")} for r in reps],
            "known_findings": sorted({k for r in results for k in r["known"]}),
            "build_s": round(tb, 1),
        },
        "wall_s": round(wall, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
