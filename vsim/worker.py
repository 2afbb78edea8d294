"""Worker process of a check: runs its share of the seeds, or one replay, or a minimisation."""

import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vsim import boot  # noqa: E402

boot.boot()

from vsim import harness  # noqa: E402


def scenario_for(prop, base, k, tier):
    rng = random.Random(f"{base}/{prop.id}/{k}/scenario")
    sc = prop.gen(rng, k, tier)
    return json.loads(json.dumps(sc))


STALL = 200  # seconds without an end of one run (they take about one)


def run(prop, sc, seed, root, sch=None):
    """One run in a process of its own: no run sees state that another left behind."""
    st, val = harness.forked(lambda: harness.run_one(prop, sc, seed, root, sch), STALL)
    if st == "ok":
        return val
    r = blank(sc, seed)
    if st == "timeout":
        r.update(signature="no-progress", message=f"no-progress: the run does not end within {STALL} s")
    elif st == "signal" and val in harness.FATAL:
        r.update(signature="process-died", message=f"process-died: the process is killed by signal {val}")
    else:
        r.update(verdict="error", message=f"run ended with {st} {val}")
    return r


def blank(sc, seed):
    return {
        "verdict": "violation",
        "signature": "",
        "message": "",
        "recorded": False,  # the schedule is the one that the seed gives
        "schedules": {}, "steps": 0, "switches": 0, "sim_time": 0, "worlds": 1, "digests": [],
        "faults": {}, "ops": {}, "probes": {}, "evals": 0, "nontrivial": 0, "tail": [],
        "scenario": sc, "seed": seed, "hashseed": os.environ.get("PYTHONHASHSEED"),
    }


def seeds(a):
    prop = harness.load(a["prop"])
    t_end = time.time() + a["cap"]
    with open(a["out"], "w") as out:
        for k in range(a["first"], a["runs"], a["stride"]):
            if time.time() > t_end:
                break
            t0 = time.time()
            sc = scenario_for(prop, a["base"], k, a["tier"])
            seed = f"{a['base']}/{prop.id}/{k}"

            r = run(prop, sc, seed, os.path.join(a["scratch"], f"r{k}"))
            r["k"] = k
            r["wall"] = time.time() - t0
            r["hashseed"] = os.environ.get("PYTHONHASHSEED")
            if r["verdict"] in ("violation", "error"):
                r["scenario"] = sc
                r["seed"] = seed
            else:
                r.pop("schedules")
                r.pop("tail")
                if k < 3 * a["stride"]:
                    r["scenario"] = sc
            out.write(json.dumps(r) + "\n")
            out.flush()


def replay(a):
    rp = json.load(open(a["file"]))
    prop = harness.load(rp["property"])

    sch = rp["schedules"] if rp.get("recorded", True) else None
    r = run(prop, rp["scenario"], rp["seed"], os.path.join(a["scratch"], "replay"), sch)
    with open(a["out"], "w") as fh:
        json.dump(r, fh)


def minimise(a):
    """Shrink scenario, then schedule, keeping the same kind of violation (same signature)."""
    rp = json.load(open(a["file"]))
    prop = harness.load(rp["property"])
    t_end = time.time() + a["cap"]
    sig = rp["signature"]
    n = [0]

    def attempt(sc, sch):
        n[0] += 1
        r = run(prop, sc, rp["seed"], os.path.join(a["scratch"], "min"), sch)
        return r if r["verdict"] == "violation" and r["signature"] == sig else None

    def save(sc, sch, r):
        rp.update(scenario=sc, schedules=sch, message=r["message"], tail=r["tail"])
        rp["minimised"] = {"attempts": n[0]}
        tmp = a["file"] + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(rp, fh, indent=1)
        os.replace(tmp, a["file"])

    sc, sch = rp["scenario"], rp["schedules"]
    # 1. default schedule everywhere
    r = attempt(sc, {})
    if r:
        sch = {}
        save(sc, sch, r)
    # 2. faults, then scenario
    progress = True
    while progress and time.time() < t_end:
        progress = False
        cands = []
        if sc.get("faults"):
            for i in range(len(sc["faults"])):
                c = dict(sc)
                c["faults"] = sc["faults"][:i] + sc["faults"][i + 1 :]
                cands.append(c)
        cands.extend(prop.shrink(sc))
        for c in cands:
            if time.time() > t_end:
                break
            c = json.loads(json.dumps(c))
            if c == sc:
                continue
            try:
                r = attempt(c, sch)
            except Exception:
                r = None
            if r:
                sc = c
                sch = {t: v for t, v in r["schedules"].items() if v}
                save(sc, sch, r)
                progress = True
                break
    # 3. schedule: zero chunks of decisions
    for tag in list(sch):
        size = max(1, len(sch[tag]) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(sch[tag]) and time.time() < t_end:
                cur = sch[tag]
                if any(cur[i : i + size]):
                    c = dict(sch)
                    c[tag] = cur[:i] + [0] * len(cur[i : i + size]) + cur[i + size :]
                    r = attempt(sc, c)
                    if r:
                        sch = {t: harness._trim(v) for t, v in c.items()}
                        sch = {t: v for t, v in sch.items() if v or t == tag}
                        sch.setdefault(tag, [])
                        save(sc, {t: v for t, v in sch.items() if v}, r)
                i += size
            size //= 2
    rp.setdefault("minimised", {})["attempts"] = n[0]
    with open(a["file"], "w") as fh:
        json.dump(rp, fh, indent=1)


if __name__ == "__main__":
    a = json.loads(sys.argv[1])
    {"seeds": seeds, "replay": replay, "minimise": minimise}[a["mode"]](a)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)
