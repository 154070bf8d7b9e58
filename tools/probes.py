"""python tools/probes.py PROP [N]: run N plans in this process and print the probe counters and violations (no verdict)."""
import collections
import sys
import time
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sim import loader
loader.load_mass()
from sim import engine
from sim.registry import worlds_of
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 30
for w in worlds_of(prop):
    c, v, t0 = collections.Counter(), collections.Counter(), time.time()
    for seed in range(n):
        r = engine.run_plan(w, engine.make_plan(w, seed, "quick"))
        c.update(r["probes"])
        c.update({"fired " + k: x for k, x in r["fired"].items()})
        if r["viol"]:
            v[r["viol"]["kind"] + " " + r["viol"]["detail"][:150]] += 1
        if r["error"]:
            print(r["error"])
    print(w.name, f"{(time.time() - t0) / n:.2f} s/run", dict(sorted(c.items())))
    for k, x in v.most_common(20):
        print("  ", x, k)
