"""Runner: seeded search over plans with worker processes, verdict, replay files, evidence.

  python -m sim.run P01                 decide property P01 (tier and seed from VERIF_TIER / VERIF_SEED)
  python -m sim.run P01 --replay FILE   re-execute one replay file: exit 1 if the violation reproduces exactly
  python -m sim.run P01 --seed-range A B --dump    print one line per run (determinism checks)
"""
import argparse
import errno
import json
import os
import re
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARD_STOP_S = 780.0          # never run into the 900 s cap of a check
RUN_WALL_S = 240.0           # one run that takes longer than this in wall time is killed


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------
# known findings
# ------------------------------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        d = json.load(f)
    return [k for k in d["findings"] if k["property"] == prop]


def match_known(known, viol, world_name):
    for k in known:
        if k["kind"] == viol["kind"] and k.get("world", world_name) == world_name \
                and re.search(k.get("detail", ""), viol["detail"], re.S):
            return k
    return None


# ------------------------------------------------------------------------------------------------
# worker
# ------------------------------------------------------------------------------------------------
def worker_main(wfd, jobs, tier, deadline, rundir):
    """jobs: iterable of (world, seed or plan).  Writes JSON lines to wfd."""
    from . import engine
    os.environ["VERIF_RUN_DIR"] = rundir
    import gc
    gc.collect()
    gc.freeze()      # the library collects garbage often; what was loaded before the run need not be scanned
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)

    def put(o):
        b = (json.dumps(o, default=str) + "\n").encode()
        while b:
            b = b[os.write(wfd, b):]
    try:
        for idx, world, what in jobs:
            if time.monotonic() > deadline:
                break
            put({"start": idx})
            if isinstance(what, dict):
                plan = what
            else:
                plan = engine.make_plan(world, what, tier)
            t0 = time.monotonic()
            r = engine.run_plan(world, plan)
            r["wall"] = time.monotonic() - t0
            r["idx"] = idx
            r["nops"] = len(plan["ops"])
            if r["viol"] or r["error"]:
                r["plan"] = plan
            elif idx < 3:
                r["sample"] = plan
            put(r)
        put({"bye": 1})
    except BaseException as e:  # noqa
        import traceback
        put({"fatal": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]})
    finally:
        os._exit(0)


class Pool:
    def __init__(self, nproc, tier, deadline, rundir):
        self.nproc, self.tier, self.deadline, self.rundir = nproc, tier, deadline, rundir
        self.sel = selectors.DefaultSelector()
        self.live = {}

    def spawn(self, jobs):
        jobs = list(jobs)
        if not jobs:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            worker_main(w, jobs, self.tier, self.deadline, self.rundir)
        os.close(w)
        st = {"pid": pid, "fd": r, "buf": b"", "cur": None, "t": time.monotonic(), "jobs": jobs, "bye": False}
        self.live[r] = st
        self.sel.register(r, selectors.EVENT_READ, st)

    def events(self):
        """Yield result dicts; {'died': idx, 'how': ...} for a worker that was killed during a run."""
        while self.live:
            for key, _ in self.sel.select(timeout=1.0):
                st = key.data
                data = os.read(st["fd"], 1 << 20)
                if data:
                    st["t"] = time.monotonic()
                    st["buf"] += data
                    *lines, st["buf"] = st["buf"].split(b"\n")
                    for ln in lines:
                        o = json.loads(ln)
                        if "start" in o:
                            st["cur"] = o["start"]
                        elif "bye" in o:
                            st["bye"] = True
                        elif "fatal" in o:
                            st["bye"] = True
                            yield o
                        else:
                            st["cur"] = None
                            yield o
                    continue
                # EOF
                self.sel.unregister(st["fd"])
                os.close(st["fd"])
                del self.live[st["fd"]]
                _, status = os.waitpid(st["pid"], 0)
                if st["bye"]:
                    continue
                how = f"signal {os.WTERMSIG(status)}" if os.WIFSIGNALED(status) else f"status {status}"
                if st.get("killed"):
                    how = "wall"
                died = st["cur"]
                rest = [j for j in st["jobs"] if died is not None and j[0] > died]
                if died is not None:
                    job = next(j for j in st["jobs"] if j[0] == died)
                    yield {"died": died, "how": how, "job": job}
                self.spawn(rest)
            now = time.monotonic()
            for st in list(self.live.values()):
                if st["cur"] is not None and now - st["t"] > RUN_WALL_S and not st.get("killed"):
                    st["killed"] = True
                    os.kill(st["pid"], signal.SIGKILL)

    def stop(self):
        for st in list(self.live.values()):
            try:
                os.kill(st["pid"], signal.SIGKILL)
            except OSError as e:
                if e.errno != errno.ESRCH:
                    raise
            self.sel.unregister(st["fd"])
            os.close(st["fd"])
            os.waitpid(st["pid"], 0)
        self.live.clear()


def run_in_child(world, plan, rundir, timeout=RUN_WALL_S):
    """Execute a plan in a forked child; a fatal signal becomes a violation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        worker_main(w, [(0, world, plan)], "quick", time.monotonic() + 1e6, rundir)
    os.close(w)
    buf = b""
    t0 = time.monotonic()
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    killed = False
    while True:
        if sel.select(timeout=1.0):
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
        if time.monotonic() - t0 > timeout and not killed:
            killed = True
            os.kill(pid, signal.SIGKILL)
    sel.close()
    os.close(r)
    _, status = os.waitpid(pid, 0)
    for ln in buf.split(b"\n"):
        if ln.strip():
            o = json.loads(ln)
            if "viol" in o:
                return o
    if killed:
        return {"viol": None, "error": f"run killed after {timeout} s of wall time", "digest": "?"}
    if os.WIFSIGNALED(status):
        s = signal.Signals(os.WTERMSIG(status)).name
        return {"viol": {"kind": "process-killed", "detail": f"the library brought the process down with {s}"},
                "error": None, "digest": "?"}
    return {"viol": None, "error": "child ended without a result: " + buf[-500:].decode(errors="replace"), "digest": "?"}


# ------------------------------------------------------------------------------------------------
def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    from . import loader
    loader.load_mass()
    from .registry import worlds_of
    world = {w.name: w for w in worlds_of(d["property"])}[d["world"]]
    rundir = make_rundir()
    try:
        r = run_in_child(world, d["plan"], rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    return d, r


def make_rundir():
    from .engine import scratch_base
    return tempfile.mkdtemp(prefix="verifsim_", dir=scratch_base())


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--world")
    ap.add_argument("--dump", action="store_true", help="print one line per run")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true", help="report every distinct violation kind")
    a = ap.parse_args(argv)
    if a.tier not in {"quick", "thorough"}:
        a.tier = "quick"
    if a.replay:
        d, r = replay_file(a.replay)
        same = r["viol"] is not None and r["viol"]["kind"] == d["violation"]["kind"]
        exact = same and r["viol"]["detail"] == d["violation"]["detail"] and r["digest"] == d["digest"]
        print(json.dumps({"reproduced": same, "exact": exact, "viol": r["viol"], "error": r["error"]}, indent=1))
        if same:
            print(f"VIOLATION property={d['property']} replay={a.replay}")
            return 1
        return 0 if r["error"] is None else 2
    rundir = make_rundir()
    try:
        return decide(a, rundir)
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def decide(a, rundir):
    t_start = time.monotonic()
    prop = a.property
    from . import loader
    loader.load_mass()
    from . import engine
    from .registry import worlds_of, BUDGET
    worlds = worlds_of(prop)
    if a.world:
        worlds = [w for w in worlds if w.name == a.world]
    known = load_known(prop)
    runs, cap = BUDGET[prop][a.tier]
    if a.runs:
        runs = a.runs
    cap = min(cap, HARD_STOP_S - 120)
    deadline = time.monotonic() + cap
    by_name = {w.name: w for w in worlds}

    # Job list: regression plans first, then seeds, interleaving the worlds.
    jobs, idx = [], 0
    cdir = os.path.join(HERE, "corpus", prop)
    ncorpus = 0
    if os.path.isdir(cdir):
        for fn in sorted(os.listdir(cdir)):
            with open(os.path.join(cdir, fn)) as f:
                d = json.load(f)
            if d["world"] in by_name:
                jobs.append((idx, by_name[d["world"]], d["plan"]))
                idx += 1
                ncorpus += 1
    wl = [w for w in worlds for _ in range(getattr(w, "weight", 1))]
    base = a.seed * 10_000_000
    for i in range(runs):
        jobs.append((idx, wl[i % len(wl)], base + i))
        idx += 1
    jobmap = {j[0]: j for j in jobs}

    pool = Pool(a.jobs, a.tier, deadline, rundir)
    for w in range(a.jobs):
        pool.spawn(jobs[w::a.jobs])
    stats = {"n": 0, "events": 0, "sim_ns": 0, "nops": 0}
    probes, armed, fired, digests, nontrivial = {}, {}, {}, set(), set()
    worlds_n, samples, errors, known_hits = {}, [], [], {}
    found = {}      # (world, kind) -> (plan, result)
    first_at = None
    for r in pool.events():
        if "fatal" in r:
            errors.append(r["fatal"])
            continue
        if "died" in r:
            _, world, what = r["job"]
            plan = what if isinstance(what, dict) else engine.make_plan(world, what, a.tier)
            if r["how"] == "wall":
                errors.append(f"run {r['died']} ({world.name}) killed after {RUN_WALL_S} s wall time")
                continue
            again = run_in_child(world, plan, rundir)
            if again["viol"] is None:
                errors.append(f"worker died ({r['how']}) in run {r['died']} of {world.name}, not reproduced: {again['error']}")
                continue
            r = dict(again, idx=r["died"], plan=plan, wall=0, nops=len(plan["ops"]), events=0, probes={}, armed={},
                     fired={}, sim_ns=0)
        world = jobmap[r["idx"]][1]
        worlds_n[world.name] = worlds_n.get(world.name, 0) + 1
        stats["n"] += 1
        stats["events"] += r["events"]
        stats["sim_ns"] += r["sim_ns"]
        stats["nops"] += r["nops"]
        for src, dst in ((r["probes"], probes), (r["armed"], armed), (r["fired"], fired)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        digests.add(r["digest"])
        if r["events"] >= 3:
            nontrivial.add(r["digest"])
        if r.get("sample") and len(samples) < 3:
            samples.append(r["sample"])
        if a.dump:
            print(r["idx"], world.name, r["seed"], r["digest"], r["viol"], flush=True)
        if r["error"]:
            errors.append(f"{world.name} seed {r['seed']}: {r['error']}")
            if len(errors) > 20 and not a.keep_going:
                break
        if r["viol"]:
            k = match_known(known, r["viol"], world.name)
            if k:
                known_hits[k["id"]] = known_hits.get(k["id"], 0) + 1
                continue
            key = (world.name, r["viol"]["kind"])
            if key not in found or r["nops"] < len(found[key][0]["ops"]):
                found[key] = (r["plan"], r)
            if not a.keep_going:
                if first_at is None:
                    first_at = time.monotonic()
                # a few more seconds often give a shorter plan to start from
                if time.monotonic() - first_at > 3:
                    break
    pool.stop()
    search_s = time.monotonic() - t_start

    # Known findings: re-execute each listed history.
    for k in known:
        with open(os.path.join(HERE, k["plan"])) as f:
            d = json.load(f)
        w = by_name.get(d["world"])
        if w is None:
            continue
        r = run_in_child(w, d["plan"], rundir)
        if r["viol"] and match_known([k], r["viol"], w.name):
            print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
        elif r["viol"]:
            found.setdefault((w.name, r["viol"]["kind"]), (d["plan"], dict(r, idx=-1)))

    verdicts = []
    rdir = os.path.join(HERE, "replays")
    todo = sorted(found.items(), key=lambda kv: len(kv[1][0]["ops"]))
    for (wname, kind), (plan, r) in todo:
        if verdicts and not a.keep_going:
            break
        world = by_name[wname]
        conf = run_in_child(world, plan, rundir)
        if not (conf["viol"] and conf["viol"]["kind"] == kind):
            errors.append(f"violation {kind} of {wname} seed {plan['seed']} did not reproduce in a fresh process: "
                          f"{conf['viol']} {conf['error']}")
            continue
        left = HARD_STOP_S - (time.monotonic() - t_start) - 60
        try:
            mini = engine.minimise(world, plan, kind, budget_s=max(5.0, min(45.0, left)),
                                   runner=lambda p: run_in_child(world, p, rundir, timeout=120))
        except Exception as e:  # a violation found is reported all the same, with its original history
            log(f"[{prop}] minimising failed: {e!r}")
            mini = plan
        final = run_in_child(world, mini, rundir)
        if not (final["viol"] and final["viol"]["kind"] == kind):
            mini, final = plan, conf
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}_{wname}_{kind}.json".replace("/", "-").replace(" ", "_"))
        with open(path, "w") as f:
            json.dump({"property": prop, "world": wname, "seed": plan["seed"], "violation": final["viol"],
                       "digest": final["digest"], "ops_before_minimising": len(plan["ops"]), "plan": mini}, f, indent=1)
        # exact replay in a fresh interpreter
        p = subprocess.run([sys.executable, "-m", "sim.run", prop, "--replay", path], cwd=HERE,
                           capture_output=True, text=True, env=dict(os.environ))
        exact = p.returncode == 1 and '"exact": true' in p.stdout
        log(f"[{prop}] {wname}: {kind}: {final['viol']['detail']}\n   ops {len(plan['ops'])} -> {len(mini['ops'])},"
            f" replay {'exact' if exact else 'NOT EXACT: ' + p.stdout[-600:] + p.stderr[-600:]}")
        verdicts.append((wname, kind, path, exact))

    wall = time.monotonic() - t_start
    if not a.no_evidence:
        ev = {
            "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
            "coverage": {
                "evaluations": stats["n"],
                "distinct_nontrivial": len(nontrivial),
                "rule": "; ".join(dict.fromkeys(w.rule for w in worlds)) +
                        " | non-trivial: at least 3 recorded events; distinct: by SHA-256 of the run's event trace "
                        "(operation kinds, sizes, fault outcomes, resulting states)",
                "samples": samples or ["(no run finished)"],
                "runs_per_hour": round(stats["n"] / max(search_s, 1e-9) * 3600),
                "seeds": [base, base + max(runs - 1, 0)],
                "regression_plans_run": ncorpus,
                "runs_by_world": worlds_n,
                "operations_executed": stats["nops"],
                "events_recorded": stats["events"],
                "simulated_seconds": round(stats["sim_ns"] / 1e9, 3),
                "distinct_event_traces": len(digests),
                "faults_armed": dict(sorted(armed.items())),
                "faults_injected": dict(sorted(fired.items())),
                "probes": dict(sorted(probes.items())),
                "real_components": sorted({c for w in worlds for c in w.real}),
                "stub_components": sorted({c for w in worlds for c in w.stub}),
                "violations_found": [{"kind": k, "world": w, "replay": p, "replay_exact": e} for w, k, p, e in verdicts],
                "harness_errors": len(errors),
                "known_findings_hit": known_hits,
                "workers": a.jobs,
                "search_wall_s": round(search_s, 2),
            },
            "wall_s": round(wall, 2),
            "assumptions": [x for w in worlds for x in getattr(w, "assumptions", ())],
            "violations": len(verdicts),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{prop}.{os.getpid()}")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
    log(f"[{prop}] {stats['n']} runs, {len(digests)} distinct traces, {len(errors)} harness errors, "
        f"{sum(fired.values())} faults fired, {wall:.1f} s; known {known_hits}")
    for w, k, path, _ in verdicts:
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    if verdicts:
        return 1
    if errors:
        log("HARNESS ERROR:\n" + "\n---\n".join(errors[:3]))
        return 2
    if stats["n"] == 0:
        log("no run finished")
        return 2
    missing = [p for w in worlds for p in getattr(w, "must_reach", ()) if not probes.get(p)]
    if missing and not a.runs and not a.world:
        log(f"coverage probes never reached: {missing}")
    return 0


if __name__ == "__main__":
    sys.exit(main())
