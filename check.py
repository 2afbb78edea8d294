#!/opt/venv/bin/python
"""Run the check of one property, or replay a recorded violation.

  check.py C01 --tier quick|thorough      exit 0: held; exit 1 and a VIOLATION line otherwise
  check.py --replay FILE                  exit 1 if the recorded violation reproduces
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
W = 8


def env_for(hashseed, so, repo):
    e = dict(os.environ)
    e.update(
        PYTHONHASHSEED=str(hashseed),
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        TQDM_DISABLE="1",
        VSIM_SO=so,
        VSIM_REPO=repo,
        PYTHONWARNINGS="ignore",
    )
    e.pop("PYTHONPATH", None)
    return e


def spawn(arg, hashseed, so, repo, log):
    return subprocess.Popen(
        [PY, os.path.join(HERE, "vsim", "worker.py"), json.dumps(arg)],
        env=env_for(hashseed, so, repo),
        stdout=log,
        stderr=subprocess.STDOUT,
        cwd=arg["scratch"],
        start_new_session=True,
    )


def stop(p):
    if p.poll() is None:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()


def known_findings(pid):
    out = []
    f = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def do_replay(path, so, scratch, repo):
    rp = json.load(open(path))
    out = os.path.join(scratch, "replay.json")
    if os.path.exists(out):
        os.unlink(out)
    with open(os.path.join(scratch, "replay.log"), "w") as log:
        p = spawn(
            {"mode": "replay", "file": os.path.abspath(path), "out": out, "scratch": scratch},
            rp.get("hashseed", 0),
            so,
            repo,
            log,
        )
        try:
            p.wait(timeout=600)
        except subprocess.TimeoutExpired:
            stop(p)
    if not os.path.exists(out):
        return {"verdict": "error", "message": open(os.path.join(scratch, "replay.log")).read()}
    return json.load(open(out))


def read_results(files, pos):
    new = []
    for f in files:
        if not os.path.exists(f):
            continue
        with open(f) as fh:
            fh.seek(pos.get(f, 0))
            while True:
                at = fh.tell()
                line = fh.readline()
                if not line.endswith("\n"):
                    fh.seek(at)
                    break
                new.append(json.loads(line))
            pos[f] = fh.tell()
    return new


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cap", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--so", help="extensions already built there (development only)")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"))
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vsim-")
    procs = []
    try:
        from vsim.build import build

        so = a.so or build(os.path.join(scratch, "so"), a.repo)
        t_build = time.time() - t0

        if a.replay:
            r = do_replay(a.replay, so, scratch, a.repo)
            rp = json.load(open(a.replay))
            if r["verdict"] == "violation" and r["signature"] == rp["signature"]:
                print(r["message"])
                print("\n".join(r.get("tail", [])))
                print(f"VIOLATION property={rp['property']} replay={a.replay}")
                return 1
            print(f"replay: {r['verdict']} {r['message']}")
            return 0 if r["verdict"] == "ok" else 2

        import importlib.util

        plan = json.load(open(os.path.join(HERE, "plan.json")))[a.prop]
        tier = plan[a.tier]
        runs = a.runs or tier["runs"]
        cap = a.cap or tier["cap"]
        known = known_findings(a.prop)
        files, logs = [], []
        for j in range(W):
            out = os.path.join(scratch, f"w{j}.jsonl")
            log = open(os.path.join(scratch, f"w{j}.log"), "w")
            logs.append(log)
            files.append(out)
            arg = dict(
                mode="seeds",
                prop=a.prop,
                base=a.seed,
                tier=a.tier,
                first=j,
                stride=W,
                runs=runs,
                cap=cap,
                out=out,
                scratch=scratch,
            )
            # The string hash seed is one of the things a run must not depend on
            procs.append(spawn(arg, 1 + 37 * j, so, a.repo, log))
        pos, results, viol, hits = {}, [], [], {}
        errors = []
        hard = time.time() + cap + 260
        cut = False
        while True:
            alive = any(p.poll() is None for p in procs)
            for r in read_results(files, pos):
                results.append(r)
                if r["verdict"] == "violation":
                    for kf in known:
                        if r["signature"] == kf["signature"]:
                            hits.setdefault(kf["signature"], []).append(r)
                            break
                    else:
                        viol.append(r)
                elif r["verdict"] == "error":
                    errors.append(r)
            if (viol and not a.keep_going) or not alive:
                break
            if time.time() > hard:
                cut = True
                break
            time.sleep(0.2)
        for p in procs:
            stop(p)
        if cut and not viol:
            print(f"HARNESS-ERROR property={a.prop} workers do not finish")
            return 2
        bad_exit = [p.returncode for p in procs if p.returncode not in (0, -9)]
        if not viol and (bad_exit or (errors and not results)):
            for j in range(W):
                sys.stderr.write(open(os.path.join(scratch, f"w{j}.log")).read()[-1500:])
            print(f"HARNESS-ERROR property={a.prop} worker exit codes {bad_exit}")
            return 2
        if errors:
            for e in errors[:3]:
                sys.stderr.write(f"run {e['k']}: {e['message']}\n")
            if not viol:
                print(f"HARNESS-ERROR property={a.prop} {len(errors)} runs")
                return 2

        code, vlines, confirmed = 0, [], None
        if viol:
            if a.keep_going:
                sigs = {}
                for r in viol:
                    sigs.setdefault(r["signature"], []).append(r)
                for s, rs in sigs.items():
                    print(f"[{len(rs)}x] {s} k={sorted(r['k'] for r in rs)[:40]}")
                    for r in rs[:8]:
                        print(f"     k={r['k']} {r['message'][:400]}")
            viol.sort(key=lambda r: r["k"])
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            for r in viol[:4]:
                path = os.path.join(rdir, f"{a.prop}-{a.seed}-{r['k']}.json")
                doc = dict(
                    property=a.prop,
                    seed=r["seed"],
                    scenario=r["scenario"],
                    schedules=r["schedules"],
                    hashseed=r["hashseed"],
                    signature=r["signature"],
                    message=r["message"],
                    tail=r["tail"],
                    recorded=r.get("recorded", True),  # False: schedule drawn from the seed
                )
                with open(path, "w") as fh:
                    json.dump(doc, fh, indent=1)
                chk = do_replay(path, so, scratch, a.repo)
                if chk["verdict"] != "violation":
                    print(f"not reproduced in a fresh process: run {r['k']} ({chk['verdict']})")
                    continue
                confirmed = path
                if r["signature"] in ("no-progress", "process-died"):
                    print(r["message"])
                    break
                orig = open(path).read()
                with open(os.path.join(scratch, "min.log"), "w") as log:
                    mcap = 60 if a.tier == "quick" else 240
                    p = spawn(
                        dict(mode="minimise", file=path, cap=mcap, scratch=scratch),
                        r["hashseed"],
                        so,
                        a.repo,
                        log,
                    )
                    try:
                        p.wait(timeout=mcap + 120)
                    except subprocess.TimeoutExpired:
                        stop(p)
                chk = do_replay(path, so, scratch, a.repo)
                if chk["verdict"] != "violation":
                    with open(path, "w") as fh:
                        fh.write(orig)
                doc = json.load(open(path))
                print(doc["message"])
                break
            if confirmed is None and len(viol) >= 2:
                # Seen repeatedly but not a function of the recorded decisions: the code itself
                # is not deterministic given its inputs, which no property here allows.
                confirmed = path
                print(viol[0]["message"])
            if confirmed is not None:
                code = 1
                vlines.append(f"VIOLATION property={a.prop} replay={confirmed}")

        if a.keep_going:
            why = {}
            for r in results:
                if r["verdict"] == "skip":
                    why.setdefault(r["message"][:100], []).append(r["k"])
            for m, ks in sorted(why.items(), key=lambda t: -len(t[1])):
                print(f"skip {len(ks)}x {m} k={ks[:5]}")
        write_evidence(a, plan, tier, results, viol, hits, t0, t_build, runs)
        for kf in known:
            if kf["signature"] in hits:
                print(f"KNOWN-FINDING: property={a.prop} {kf['what']}")
        n_ok = sum(r["verdict"] == "ok" for r in results)
        n_skip = sum(r["verdict"] == "skip" for r in results)
        print(
            f"{a.prop} {a.tier}: {len(results)} runs ({n_ok} ok, {n_skip} skipped) in "
            f"{time.time() - t0:.0f} s"
        )
        for v in vlines:
            print(v)
        return code
    finally:
        for p in procs:
            stop(p)
        shutil.rmtree(scratch, ignore_errors=True)


def add(d, e):
    for k, v in e.items():
        d[k] = d.get(k, 0) + v


def write_evidence(a, plan, tier, results, viol, hits, t0, t_build, runs):
    faults, ops, probes, digests = {}, {}, {}, set()
    for r in results:
        add(faults, r["faults"])
        add(ops, r["ops"])
        add(probes, r["probes"])
        digests.update(r["digests"])
    done = [r for r in results if r["verdict"] in ("ok", "violation")]
    wall = time.time() - t0
    samples = []
    for r in sorted(results, key=lambda r: r["k"]):
        if "scenario" in r and len(samples) < 3:
            samples.append(
                {"run": r["k"], "scenario": r["scenario"], "verdict": r["verdict"],
                 "ops": r["ops"], "faults_fired": r["faults"], "steps": r["steps"]}
            )
    cov = {
        "evaluations": sum(r["worlds"] for r in results),
        "distinct_nontrivial": len(digests),
        "rule": (
            "One evaluation is one simulated world (one execution of the real code under one "
            "seeded schedule and fault plan). Non-trivial: the scheduler had to choose between "
            "at least two runnable simulated processes, or a fault struck. Distinct: SHA-256 over "
            "the sequence of (simulated process, seam operation, operand) with the fault strikes. "
            + plan.get("rule", "")
        ),
        "samples": samples,
        "simulated_runs": len(results),
        "runs_planned": runs,
        "runs_skipped": sum(r["verdict"] == "skip" for r in results),
        "seeds_per_hour": round(len(results) / max(wall, 1e-9) * 3600),
        "oracle_comparisons": sum(r["evals"] for r in done),
        "scheduler_steps": sum(r["steps"] for r in results),
        "context_switches": sum(r["switches"] for r in results),
        "simulated_seconds": round(sum(r["sim_time"] for r in results), 1),
        "faults_injected": faults,
        "seam_operations": ops,
        "probes": probes,
        "hash_seeds": sorted({r["hashseed"] for r in results}),
        "real_components": plan["real"],
        "stubbed_components": plan["stub"],
        "build_s": round(t_build, 1),
        "known_findings_hit": {k: len(v) for k, v in hits.items()},
    }
    ev = {
        "property": a.prop,
        "tier": a.tier,
        "seed": int(a.seed) if str(a.seed).isdigit() else 0,
        "level": plan["level"],
        "coverage": cov,
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(viol),
    }
    os.makedirs(a.evidence, exist_ok=True)
    with open(os.path.join(a.evidence, f"{a.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)


if __name__ == "__main__":
    sys.exit(main())
