#!/opt/venv/bin/python
"""Development helper: run single runs of a property in this process (dev.py C01 46 [tier])."""
import json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
os.environ.setdefault("VSIM_SO", "/repo/src")
from vsim import boot
boot.boot()
from vsim import harness, worker
prop = harness.load(sys.argv[1])
for k in sys.argv[2].split(","):
    k = int(k)
    sc = worker.scenario_for(prop, "1", k, "quick")
    if len(sys.argv) > 3:
        sc.update(json.loads(sys.argv[3]))
    t = time.time()
    r = harness.run_one(prop, sc, f"1/{prop.id}/{k}", f"/tmp/w/dev{os.getpid()}")
    print(k, r["verdict"], r["message"], f"{time.time()-t:.2f}s", "steps", r["steps"], r["faults"], r["ops"], json.dumps(sc))
os._exit(0)
