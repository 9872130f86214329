#!/opt/venv/bin/python
"""Driver: python mon/run.py <property> [--replay FILE].

Spawns the workers of a property, merges what they observed, writes evidence/<id>.json and
prints the verdict: exit 0 held, exit 1 violated (VIOLATION line), exit 2 inconclusive.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import plan  # noqa: E402

PY = "/opt/venv/bin/python"


def base_env(scratch, hashseed):
    env = {
        "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": os.path.join(scratch, "home"),
        "LANG": "C.UTF-8",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONNOUSERSITE": "1",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "TF_ENABLE_ONEDNN_OPTS": "0",
        "CUDA_VISIBLE_DEVICES": "-1",
        "OMP_NUM_THREADS": "1",
        "ASTA_REPO": os.environ.get("ASTA_REPO", "/repo"),
    }
    return env


def write_config(directory, world):
    cfg = dict(plan.DEFAULT_CONFIG)
    cfg.update(world.get("config", {}))
    with open(os.path.join(directory, ".astarc"), "w") as fh:
        fh.write("[MASTER]\n")
        for key, val in cfg.items():
            fh.write(f"{key}={val}\n")


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                fields = line[len("finding: ") :].split(" ", 2)
                if fields[0] == f"property={prop}" and fields[1].startswith("key="):
                    out[fields[1][4:]] = fields[2]
    return out


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = None
    if "--replay" in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        seed, tier = only["seed"], only["tier"]
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix=f"asta-{prop}-")
    os.makedirs(os.path.join(scratch, "home"))
    try:
        code = go(prop, seed, tier, only, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def go(prop, seed, tier, only, scratch, t0):
    spec = plan.PLAN[prop]
    jobs = []
    for world in spec["worlds"]:
        n = world.get("shards", 1)
        for shard in range(n):
            if only is not None and (world["name"], shard) != (only["world"], only["shard"]):
                continue
            jobs.append((world, shard, n))
    timeout = 850
    running, results, errors = [], [], []
    for idx, (world, shard, n) in enumerate(jobs):
        cwd = os.path.join(scratch, f"w{idx}")
        os.makedirs(cwd)
        write_config(cwd, world)
        out = os.path.join(scratch, f"out{idx}.json")
        job = {"property": prop, "world": world, "seed": seed, "tier": tier, "shard": shard,
               "nshards": n, "only": only["case"] if only else None,
               "budget": spec.get("budget", {}).get(tier, 180 if tier == "quick" else 780 // -(-len(jobs) // 8))}
        # Different hash seeds reach different iteration orders of the equation sets.
        hashseed = 0 if shard == 0 else (seed * 31 + shard * 7 + 1) % 1000
        log = open(os.path.join(scratch, f"log{idx}"), "w+")
        env = base_env(scratch, hashseed)
        env.update(world.get("env", {}))
        proc = subprocess.Popen(
            [PY, os.path.join(HERE, "worker.py"), json.dumps(job), out],
            cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            start_new_session=True)
        running.append((proc, job, out, log))
        while sum(p.poll() is None for p, *_ in running) >= 8:
            time.sleep(0.02)
    deadline = t0 + timeout
    for proc, job, out, log in running:
        try:
            proc.wait(max(1, deadline - time.monotonic()))
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, 9)
            proc.wait()
            errors.append(f"worker {job['world']['name']}/{job['shard']} timed out")
            continue
        if not os.path.exists(out):
            log.seek(0)
            errors.append(f"worker {job['world']['name']}/{job['shard']} died "
                          f"(exit {proc.returncode}): {log.read()[-1500:]}")
            continue
        res = json.load(open(out))
        if res.get("error"):
            errors.append(res["error"])
        res["job"] = job
        results.append(res)

    evals = sum(r["evaluations"] for r in results)
    distinct = set()
    events, lines, violations, findings, samples = {}, set(), [], [], []
    for r in results:
        distinct.update(r["distinct"])
        lines.update(r["lines"])
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for v in r["violations"]:
            v["shard"] = r["job"]["shard"]
            violations.append(v)
        findings.extend(r["findings"])
    for k in range(4):
        for r in results:
            if k < len(r["samples"]) and len(samples) < 12:
                samples.append(f"[{r['world']}] {r['samples'][k]}")

    known = known_findings(prop)
    reported = set()
    for f in findings:
        if f["key"] in known:
            if f["key"] not in reported:
                reported.add(f["key"])
                print(f"KNOWN-FINDING: property={prop} {known[f['key']]}")
        else:
            violations.append({"what": f["what"], "case": f["case"], "world": f["world"],
                               "shard": f["shard"], "detail": {"finding-key": f["key"]}})

    wall = time.monotonic() - t0
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(distinct),
            "rule": spec["rule"],
            "samples": samples,
            "events": dict(sorted(events.items())),
            "cases": sum(r["cases"] for r in results),
            "workers": [f"{r['world']}/{r['shard']} ({r['seconds']} s)" for r in results],
            "asta_lines_observed": len(lines),
            "asta_lines_by_file": count_by_file(lines),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
            fh.write("\n")

    if violations:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", f"{prop}.json")
        v = violations[0]
        replay = {"property": prop, "seed": seed, "tier": tier, "world": v["world"],
                  "shard": v["shard"], "case": v["case"], "what": v["what"],
                  "detail": v["detail"],
                  "all": violations[:20]}
        if only is None:
            with open(path, "w") as fh:
                json.dump(replay, fh, indent=1)
        for x in violations[:5]:
            print(f"  {x['world']} {x['case']}: {x['what']}")
            for k, val in x["detail"].items():
                print(f"      {k}: {val}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        return 1
    if errors:
        print("\n".join(errors))
        print(f"INCONCLUSIVE property={prop}: an error of the harness")
        return 2
    floor = spec.get("floor", {})
    if only is None:
        short = [f"{k}<{n}" for k, n in floor.items() if events.get(k, 0) < n]
        if evals == 0 or len(distinct) < 10:
            short.append(f"evaluations={evals} distinct={len(distinct)}")
        if short:
            print(f"INCONCLUSIVE property={prop}: monitors observed too little: {short}")
            return 2
    print(f"held property={prop} tier={tier} seed={seed} evaluations={evals} "
          f"distinct={len(distinct)} lines={len(lines)} wall={wall:.1f}s")
    return 0


def count_by_file(lines):
    out = {}
    for x in lines:
        f = x.split(":")[0]
        if not f.startswith("tests"):
            out[f] = out.get(f, 0) + 1
    return dict(sorted(out.items()))


if __name__ == "__main__":
    main()
