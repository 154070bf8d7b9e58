"""Find what the checks do not see: small random changes of covered lines, each judged by the worlds of the properties it concerns.

python tools/mutate.py gen FILE N SEED OUT.json     make N mutants of /repo/mass/FILE (only lines some world executes; COV=dir of coverage json)
python tools/mutate.py run OUT.json PROPS SECONDS   judge them, 6 at a time; the result is written into OUT.json
A survivor is not yet a gap: it may be equivalent, or break no property.
"""
import ast
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = ("LOG.", "print(", "plt.", "warnings.warn", "logger.")


def covered(f):
    out = set()
    for p in glob.glob(os.path.join(os.environ.get("COV", "/tmp/w"), "cov_*.json")):
        out |= {int(x) for x in json.load(open(p)).get(f, {})}
    return out


def gen(f, n, seed, out):
    path = os.path.join(REPO, "mass", f)
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()))
    data = src.encode()
    cov = covered(f)
    cand = []

    def pos(node):
        return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset

    def add(node, new, what):
        a, b = pos(node)
        if node.lineno in cov and data[a:b] != new.encode():
            cand.append((a, b, new, node.lineno, what))

    def seg(node):
        a, b = pos(node)
        return data[a:b].decode()
    tree = ast.parse(src)
    for node in ast.walk(tree):
        if not hasattr(node, "lineno") or any(s in lines[node.lineno - 1] for s in SKIP):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = type(node.ops[0])
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
                  ast.In: "not in", ast.NotIn: "in"}.get(op)
            if sw:
                add(node, f"({seg(node.left)} {sw} {seg(node.comparators[0])})", "compare")
        elif isinstance(node, ast.BinOp) and type(node.op) in {ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Div}:
            sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.FloorDiv: "/", ast.Div: "//"}[type(node.op)]
            add(node, f"({seg(node.left)} {sw} {seg(node.right)})", "binop")
        elif isinstance(node, ast.BoolOp):
            w = " or " if isinstance(node.op, ast.And) else " and "
            add(node, "(" + w.join(f"({seg(v)})" for v in node.values) + ")", "bool")
            add(node, f"({seg(node.values[0])})", "first-only")
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, bool)):
            add(node, str(not node.value) if isinstance(node.value, bool) else str(node.value + 1), "const")
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(node, "pass", "delete")
        elif isinstance(node, ast.If):
            add(node.test, "True", "if-true")
            add(node.test, "False", "if-false")
        elif isinstance(node, ast.Slice):
            if node.upper:
                add(node.upper, f"({seg(node.upper)}) + 1", "slice+1")
            if node.lower:
                add(node.lower, f"({seg(node.lower)}) + 1", "slice+1")
        elif isinstance(node, ast.Return) and node.value is not None:
            add(node, "return None", "return")
        elif isinstance(node, ast.Call) and node.keywords:
            k = node.keywords[-1]
            if k.arg and len(node.args) + len(node.keywords) > 1:
                a, b = pos(k)
                if k.lineno in cov:
                    c = a
                    while data[c - 1:c] in b" \n":
                        c -= 1
                    if data[c - 1:c] == b",":
                        cand.append((c - 1, b, "", k.lineno, "drop-kw"))
        elif isinstance(node, (ast.Break, ast.Continue)):
            add(node, "pass", "delete")
    rng = random.Random(int(seed))
    rng.shuffle(cand)
    got = []
    for a, b, new, ln, what in cand:
        mut = data[:a] + new.encode() + data[b:]
        try:
            if ast.dump(ast.parse(mut)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        got.append({"file": f, "a": a, "b": b, "new": new, "old": data[a:b].decode(), "line": ln, "what": what, "src": lines[ln - 1].strip()})
        if len(got) >= int(n):
            break
    json.dump(got, open(out, "w"), indent=1)
    print(len(cand), "candidates,", len(got), "mutants")


def judge(m, props, secs):
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp/w/mut")
    try:
        subprocess.run(["cp", "-a", os.path.join(REPO, "mass"), d], check=True)
        p = os.path.join(d, "mass", m["file"])
        data = open(p, "rb").read()
        open(p, "wb").write(data[:m["a"]] + m["new"].encode() + data[m["b"]:])
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD_CACHE=os.path.join(HERE, ".build"), TMPDIR=d)
        for prop in props:
            try:
                r = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "one", prop, str(secs)], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=secs + 120)
                o = r.stdout.strip().splitlines()[-1:] or ["?"]
            except subprocess.TimeoutExpired:
                return f"{prop} timeout"
            if not o[0].startswith("survived"):
                return f"{prop} {o[0][:200]}"
        return "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(prop, secs):
    sys.path.insert(0, HERE)
    from sim import loader
    try:
        loader.load_mass()
    except Exception as e:
        print("import fails", e)
        return
    from sim import engine
    from sim.registry import worlds_of
    t0, n = time.time(), 0
    ws = worlds_of(prop)
    while time.time() - t0 < secs:
        for w in ws:
            r = engine.run_plan(w, engine.make_plan(w, 5000 + n, "quick"))
            if r["viol"] or r["error"]:
                print(f"caught at {n} after {time.time() - t0:.0f} s:", (r["viol"] or {"kind": "error"})["kind"], flush=True)
                return
        n += 1
    print(f"survived {n} runs")


def run(out, props, secs):
    ms = json.load(open(out))

    def f(m):
        if "res" not in m:
            m["res"] = judge(m, props.split(","), int(secs))
            json.dump(ms, open(out, "w"), indent=1)
    with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        list(ex.map(f, ms))
    surv = [m for m in ms if m["res"] == "SURVIVED"]
    print(out, len(ms), "mutants", len(surv), "survive")


if __name__ == "__main__":
    {"gen": gen, "run": run, "one": lambda p, s: one(p, int(s))}[sys.argv[1]](*sys.argv[2:])
