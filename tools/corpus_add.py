"""python tools/corpus_add.py REPLAY.json NAME: keep a (minimised) plan that once failed as a regression plan."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(sys.argv[1]))
out = os.path.join(HERE, "corpus", d["property"])
os.makedirs(out, exist_ok=True)
with open(os.path.join(out, sys.argv[2] + ".json"), "w") as f:
    json.dump({"world": d["world"], "plan": d["plan"], "once": d["violation"]}, f, indent=1)
    f.write("\n")
