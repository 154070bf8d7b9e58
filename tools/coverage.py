"""python tools/coverage.py OUT.json PROP=N ...: which lines of /repo/mass the worlds execute (no verdict)."""
import json
import os
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sim import build, loader
out, args = sys.argv[1], [a.split("=") for a in sys.argv[2:]]
prefix = os.path.join(os.path.realpath(build.REPO), "mass") + os.sep
mon = sys.monitoring
mon.use_tool_id(2, "verif-cov")
lines = {}


def on_line(code, line):
    if code.co_filename.startswith(prefix) and cur[0]:
        lines.setdefault(code.co_filename[len(prefix):], {}).setdefault(line, set()).add(cur[0])
    return mon.DISABLE


cur = [None]
mon.register_callback(2, mon.events.LINE, on_line)
mon.set_events(2, mon.events.LINE)
loader.load_mass()
from sim import engine
from sim.registry import worlds_of
for prop, n in args:
    cur[0] = prop
    for w in worlds_of(prop):
        mon.restart_events()
        for seed in range(int(n)):
            engine.run_plan(w, engine.make_plan(w, seed, "quick"))
cur[0] = None
json.dump({f: {str(l): sorted(p) for l, p in d.items()} for f, d in lines.items()}, open(out, "w"))
