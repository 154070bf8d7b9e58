"""python tools/plant.py ID PROP SPEC.json: build seeded/ID from edits ({"file","old","new"}), a demo and a description.

Works on a scratch copy of /repo (never /repo itself) and runs the demo there with and without the change."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is broken.  Run with cwd /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/lib/env.sh
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
repo=$(pwd)
cd "$scratch" && MPLBACKEND=agg PYTHONPATH="$repo" PYTHONWARNINGS=ignore $PY "$here/demo.py"
'''


def main(spec):
    scratch = "/tmp/plant_repo"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", scratch], check=True)
    out = os.path.join(HERE, "seeded", spec["id"])
    os.makedirs(out, exist_ok=True)
    shutil.copy(spec["demo"], os.path.join(out, "demo.py"))
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)

    def demo():
        return subprocess.run(["bash", os.path.join(out, "demo.sh")], cwd=scratch, capture_output=True, text=True)
    before = demo()
    for e in spec["edits"]:
        p = os.path.join(scratch, e["file"])
        s = open(p).read()
        assert s.count(e["old"]) == 1, (e, s.count(e["old"]))
        open(p, "w").write(s.replace(e["old"], e["new"]))
    if any(e["file"].endswith("pyx") for e in spec["edits"]):
        subprocess.run(". /opt/vp/lib/env.sh; cd %s && $PY setup.py -q build_ext --inplace" % scratch, shell=True, check=True,
                       executable="/bin/bash", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    after = demo()
    diff = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True, text=True, check=True).stdout
    with open(os.path.join(out, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, f, indent=1)
        f.write("\n")
    print(spec["id"], "demo before", before.returncode, "after", after.returncode)
    if before.returncode or not after.returncode:
        print(before.stdout[-1500:], before.stderr[-1500:], "----", after.stdout[-1500:], after.stderr[-1500:])
    shutil.rmtree(scratch, ignore_errors=True)


main(json.load(open(sys.argv[1])))
