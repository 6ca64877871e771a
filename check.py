#!/usr/bin/env python3
"""Decides one property: builds the workload against /repo's working tree, runs
it in several processes and builds, and judges what the monitors recorded.

    check.py C01            (VERIF_SEED, VERIF_TIER from the environment)
    check.py C01 --tier thorough --seed 7
    check.py --replay replay/C01.json   runs the violating process again
    check.py --warm         builds everything once (setup)

Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else:
no verdict.
"""
import array, glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
from plan import PLAN, RULES  # noqa: E402


class NoVerdict(Exception):
    pass


def go_env(extra):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOCACHE", "GOPATH", "GOMODCACHE"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", CGO_ENABLED="0")
    e.update(extra)
    return e


def generic_overlay(tmp):
    """An overlay that selects the portable implementation on amd64, so that the
    race detector can see into it. None if the tree is not laid out that way."""
    fb = os.path.join(REPO, "stub_fallback.go")
    stub = os.path.join(REPO, "stub.go")
    asm = glob.glob(os.path.join(REPO, "*_amd64.s"))
    if not (os.path.exists(fb) and os.path.exists(stub) and asm):
        return None
    text = open(fb).read().split("\n")
    text = [l for l in text if not (l.startswith("// +build") or l.startswith("//go:build"))]
    p = os.path.join(tmp, "generic_stub.go")
    open(p, "w").write("\n".join(text))
    rep = {fb: p, stub: ""}
    for a in asm:
        rep[a] = ""
    o = os.path.join(tmp, "generic.json")
    json.dump({"Replace": rep}, open(o, "w"))
    return o


class GeneratorFailed(Exception):
    pass


def generated_overlay(tmp):
    """Runs the tree's assembly generator in a copy of the tree and returns an
    overlay that puts its output in the place of the shipped assembly."""
    d = os.path.join(tmp, "generated")
    tree = os.path.join(d, "tree")
    shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns(".git"))
    e = go_env({"GOARCH": "amd64"})
    run = lambda cmd, **kw: subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300, **kw)
    # The version of x/tools that the tree pins does not initialise the sizes for
    # newer standard libraries: a copy that does takes its place.
    p = run(["go", "list", "-m", "-f", "{{.Dir}}", "golang.org/x/tools"], cwd=tree)
    src = p.stdout.strip().split("\n")[-1]
    f = os.path.join(src, "go/packages/packages.go")
    if p.returncode != 0 or not os.path.exists(f):
        raise NoVerdict("the generator's dependencies are missing: " + p.stdout[-500:])
    tools = os.path.join(d, "tools")
    shutil.copytree(src, tools)
    for r, ds, fs in os.walk(tools):
        for x in [r] + [os.path.join(r, y) for y in fs]:
            os.chmod(x, os.stat(x).st_mode | 0o200)
    f = os.path.join(tools, "go/packages/packages.go")
    text = open(f).read().replace("Sizes: ld.sizes,", 'Sizes: types.SizesFor("gc", "amd64"),')
    open(f, "w").write(text)
    for x in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(tree, x), os.path.join(d, x))
    with open(os.path.join(d, "go.mod"), "a") as g:
        g.write("\nreplace golang.org/x/tools => %s\n" % tools)
    gen = os.path.join(d, "gen")
    for attempt in (0, 1):
        p = run(["go", "build", "-modfile", os.path.join(d, "go.mod"), "-o", gen, "asm/asm.go"], cwd=tree)
        if p.returncode == 0:
            break
    if p.returncode != 0:
        raise NoVerdict("the generator does not build:\n" + p.stdout[-2000:])
    out = os.path.join(d, "generated_amd64.s")
    p = run([gen, "-out", out], cwd=tree)
    if p.returncode != 0 or not os.path.exists(out):
        raise GeneratorFailed("status %d: %s" % (p.returncode, p.stdout[-1500:]))
    rep = {a: "" for a in glob.glob(os.path.join(REPO, "*_amd64.s"))}
    rep[os.path.join(REPO, "primitivefuncs_amd64.s")] = out
    o = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(o, "w"))
    return o


def build(variant, tmp):
    """Builds one variant of the workload and returns the binary's path."""
    out = os.path.join(tmp, "run-" + variant)
    cmd = ["go", "build", "-o", out]
    env = {"GOARCH": "amd64"}
    if variant == "386":
        env["GOARCH"] = "386"
    elif variant == "race":
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
    elif variant == "race-generic":
        env["CGO_ENABLED"] = "1"
        cmd.append("-race")
        o = generic_overlay(tmp)
        if o is None:
            return None
        cmd += ["-tags", "verifnocrowd", "-overlay", o]
    elif variant == "yield":
        d = os.path.join(tmp, "yield")
        os.mkdir(d)
        q = subprocess.run(["go", "run", "./yield", d], cwd=HARNESS, env=go_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if q.returncode != 0:
            print("note: the yield build is not available: %s" % q.stdout.strip()[-300:])
            return None
        cmd += ["-tags", "verifyield", "-overlay", os.path.join(d, "overlay.json")]
    elif variant == "generated":
        cmd += ["-overlay", generated_overlay(tmp)]
    elif variant == "noopt":
        cmd.append("-gcflags=all=-N -l")
    elif variant == "v3":
        env["GOAMD64"] = "v3"
    elif variant.startswith("go1."):
        d = [p for p in sorted(glob.glob("/opt/veriftools/%s*/bin/go" % variant)) if os.access(p, os.X_OK)]
        if not d:
            return None
        cmd[0] = d[-1]
    elif variant != "amd64":
        raise NoVerdict("unknown variant " + variant)
    e = go_env(env)
    if cmd[0] != "go":
        e["PATH"] = os.path.dirname(cmd[0]) + ":" + e["PATH"]
    for attempt in (0, 1):  # once more, in case the machine was the reason
        p = subprocess.run(cmd + ["./run"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    if p.returncode != 0:
        if variant == "generated":
            # only the overlay may be blamed: without it everything builds
            plain = [a for i, a in enumerate(cmd) if a != "-overlay" and cmd[i - 1] != "-overlay"]
            q = subprocess.run(plain + ["./run"], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.returncode != 0:
                raise NoVerdict("the ordinary build failed:\n" + q.stdout[-3000:])
            raise GeneratorFailed("its output does not assemble: " + p.stdout[-1500:])
        if variant in ("race-generic", "v3", "yield") or variant.startswith("go1."):
            print("note: the %s build is not available: %s" % (variant, p.stdout.strip()[-300:]))
            return None
        raise NoVerdict("build %s failed:\n%s" % (variant, p.stdout[-4000:]))
    return out


def run_shard(binary, job, tmp):
    """Runs one process; returns (result dict, violations)."""
    out = os.path.join(tmp, "%s-%d" % (job["variant"], job["shard"]))
    cmd = [binary, "-prop", job["prop"], "-seed", str(job["seed"]), "-tier", job["tier"], "-shard", str(job["shard"]),
           "-shards", str(job["shards"]), "-scale", repr(job["scale"]), "-out", out]
    env = go_env({"GORACE": "halt_on_error=0 exitcode=0 history_size=5 log_path=%s.race" % out})
    for attempt in (0, 1):
        for f in glob.glob(out + ".*"):
            os.remove(f)
        errf = out + ".stderr"
        with open(errf, "wb") as ef:
            p = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=tmp)
        err = open(errf, errors="replace").read()
        if p.returncode == -9 and attempt == 0:  # ended from outside
            time.sleep(5)
            continue
        break
    viol = []
    res = None
    if os.path.exists(out + ".json"):
        res = json.load(open(out + ".json"))
    if p.returncode == 3:
        raise NoVerdict("shard %s/%d: %s" % (job["variant"], job["shard"], err[-3000:]))
    if p.returncode in (-9, -15):
        raise NoVerdict("shard %s/%d was ended from outside" % (job["variant"], job["shard"]))
    if p.returncode != 0:
        viol.append({"kind": "crash", "args": [], "message": "the process crashed with status %d" % p.returncode, "detail": err[-6000:]})
    elif res is None:
        raise NoVerdict("shard %s/%d wrote no result: %s" % (job["variant"], job["shard"], err[-2000:]))
    if res is not None:
        for v in res.get("violations") or []:
            viol.append(v)
        if not res["complete"] and not viol:
            raise NoVerdict("shard %s/%d did not finish" % (job["variant"], job["shard"]))
    races = 0
    for f in sorted(glob.glob(out + ".race.*")):
        text = open(f, errors="replace").read()
        n = text.count("WARNING: DATA RACE")
        if n:
            races += n
            viol.append({"kind": "race", "args": [], "message": "%d data races reported" % n, "detail": text[:6000]})
    if res is None:
        res = {"evaluations": 0, "kinds": {}, "stats": {}, "samples": [], "arch": job["variant"]}
    res["races"] = races
    return res, viol


def seen_of(tmp, variant, shard):
    a = array.array("Q")
    f = os.path.join(tmp, "%s-%d.seen" % (variant, shard))
    if os.path.exists(f):
        a.frombytes(open(f, "rb").read())
    return a


def compare_traces(tmp, variants, shards):
    """Line-by-line comparison of the builds' traces."""
    viol, lines = [], 0
    base = variants[0]
    for s in range(shards):
        fs = [open(os.path.join(tmp, "%s-%d.trace" % (v, s)), errors="replace") for v in variants]
        n = 0
        for row in zip(*fs):
            n += 1
            for v, l in zip(variants[1:], row[1:]):
                if l != row[0]:
                    a, b = row[0].rstrip("\n").split("\t"), l.rstrip("\n").split("\t")
                    viol.append({"kind": "trace", "args": a[:2], "shard": s, "variant": v,
                                 "message": "%s: %s has result %s (%s...), %s has %s (%s...)" % (
                                     a[0], base, a[3], a[4], v, b[3], b[4])})
            if len(viol) > 5:
                break
        if not viol:
            for f in fs[0:]:
                if f.readline():
                    raise NoVerdict("the traces differ in length")
        lines += n
        if viol:
            break
    return viol, lines


def load_known():
    known = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: "):
                known.append(json.loads(l[len("finding: "):]))
    return known


def check(prop, tier, seed, only=None):
    t0 = time.time()
    plan = PLAN[prop]
    cfg = plan[tier]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        builds = dict(cfg["builds"])
        if only:
            builds = {only["variant"]: (only["scale"], only["shards"])}
        with ThreadPoolExecutor(4) as ex:
            bins = dict(zip(builds, ex.map(lambda v: build(v, tmp), builds)))
        skipped = [v for v in builds if bins[v] is None]
        for v in skipped:
            del builds[v]
        if not builds:
            raise NoVerdict("nothing could be built")
        t_build = time.time() - t0
        jobs = []
        for v, (scale, shards) in builds.items():
            for s in range(shards):
                if only and s != only["shard"]:
                    continue
                jobs.append({"prop": prop, "variant": v, "seed": seed, "tier": tier, "shard": s, "shards": shards, "scale": scale})
        # the slow builds first
        order = {"race-generic": 0, "386": 1, "yield": 2, "noopt": 2, "race": 3}
        jobs.sort(key=lambda j: order.get(j["variant"], 9))
        with ThreadPoolExecutor(cfg.get("workers", 8)) as ex:
            results = list(ex.map(lambda j: run_shard(bins[j["variant"]], j, tmp), jobs))
        viol = []
        for j, (r, vs) in zip(jobs, results):
            for v in vs:
                v["job"] = j
                viol.append(v)
        extra = {}
        if plan.get("traces") and not viol and not only:
            vs, lines = compare_traces(tmp, list(builds), list(builds.values())[0][1])
            for v in vs:
                v["job"] = {"prop": prop, "variant": v.pop("variant"), "shard": v.pop("shard"), "seed": seed, "tier": tier}
            viol += vs
            extra["calls_compared"] = lines
            extra["builds_compared"] = list(builds)
        # aggregate what was observed
        evals = sum(r["evaluations"] for r, _ in results)
        kinds, stats, by_build, samples = {}, {}, {}, []
        for j, (r, _) in zip(jobs, results):
            for k, n in (r.get("kinds") or {}).items():
                kinds[k] = kinds.get(k, 0) + n
            for k, n in (r.get("stats") or {}).items():
                stats[k] = stats.get(k, 0) + n
            by_build[j["variant"]] = by_build.get(j["variant"], 0) + r["evaluations"]
            if len(samples) < 24:
                for s in (r.get("samples") or []):
                    if len(samples) < 24 and s.split(" ")[0] not in [x.split(" ")[0] for x in samples]:
                        samples.append(s)
        seen = set()
        for j in jobs:
            seen.update(seen_of(tmp, j["variant"], j["shard"]))
        if len(kinds) > 60:
            extra["kinds_of_case"] = len(kinds)
            kinds = dict(sorted(kinds.items())[:40])
        cov = {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": RULES["common"] + " " + RULES[prop], "samples": samples,
               "cases_by_kind": kinds, "observed": stats, "evaluations_by_build": by_build, "processes": len(jobs), **extra}
        if any(v.startswith("race") for v in builds):
            cov["data_race_reports"] = sum(r["races"] for r, _ in results)
        if skipped:
            cov["builds_not_available"] = skipped
        known, fresh = [], []
        for v in viol:
            k = [x for x in load_known() if x["property"] == prop and x.get("kind") == v["kind"] and x.get("args") == v.get("args")]
            (known if k else fresh).append(v)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"), "coverage": cov,
              "wall_s": round(time.time() - t0, 1), "build_s": round(t_build, 1), "assumptions": plan.get("assumptions", []),
              "violations": len(fresh)}
        if not only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for v in known:
            print("KNOWN-FINDING: property=%s %s %s" % (prop, v["kind"], v["message"]))
        if fresh:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            path = os.path.join(VERIF, "replay", prop + ".json")
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "violations": fresh[:20]}, f, indent=1)
            for v in fresh[:5]:
                print("%s [%s, process %d] %s: %s" % (prop, v["job"]["variant"], v["job"]["shard"], v["kind"], v["message"][:600]))
                if v.get("args"):
                    print("    case: " + " ".join(v["args"])[:600])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        # a run that observed too little is no verdict
        if not only:
            for k in plan.get("need", []):
                if not (stats.get(k) or kinds.get(k)):
                    raise NoVerdict("the run observed no '%s'" % k)
            if evals == 0 or len(seen) < 2:
                raise NoVerdict("the run observed nothing")
        print("%s held: %d evaluations (%s), %d distinct cases, %.0f s (%.0f s to build)" % (
            prop, evals, ", ".join("%s %d" % x for x in by_build.items()), len(seen), time.time() - t0, t_build))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--seed" in args:
        seed = int(args[args.index("--seed") + 1])
    try:
        if "--warm" in args:
            tmp = tempfile.mkdtemp(prefix="verif-warm-")
            try:
                for v in ("amd64", "386", "race"):
                    build(v, tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            print("built")
            return 0
        if "--replay" in args:
            r = json.load(open(args[args.index("--replay") + 1]))
            j = r["violations"][0]["job"]
            if "scale" not in j:
                return check(r["property"], r["tier"], r["seed"])
            return check(r["property"], r["tier"], r["seed"], only=j)
        if tier not in ("quick", "thorough"):
            raise NoVerdict("unknown tier " + tier)
        return check(args[0], tier, seed)
    except GeneratorFailed as e:
        path = os.path.join(VERIF, "replay", args[0] + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": args[0], "tier": tier, "seed": seed, "violations": [{"kind": "generator", "message": str(e), "job": {}}]}, f, indent=1)
        print("%s the assembly generator fails: %s" % (args[0], e))
        print("VIOLATION property=%s replay=%s" % (args[0], path))
        return 1
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
