"""python tools/uncovered.py IN.json... : functions of /repo/mass with lines that no world executes."""
import dis
import json
import os
import sys
sys.path.insert(0, __file__.rsplit("/", 2)[0])
from sim import build
got = {}
for p in sys.argv[1:]:
    for f, d in json.load(open(p)).items():
        got.setdefault(f, set()).update(int(x) for x in d)
root = os.path.join(os.path.realpath(build.REPO), "mass")


def codes(c, qual=""):
    yield qual, c
    for k in c.co_consts:
        if hasattr(k, "co_code"):
            yield from codes(k, (qual + "." if qual else "") + k.co_name)


for f in sorted(got):
    src = open(os.path.join(root, f)).read()
    for q, c in codes(compile(src, f, "exec")):
        if not q:
            continue
        L = {ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno}
        miss = sorted(L - got[f])
        if miss:
            print(f, q, f"{len(miss)}/{len(L)}", miss if len(miss) < len(L) else "ALL")
