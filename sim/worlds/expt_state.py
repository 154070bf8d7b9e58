"""P03 and P04: experiment-state files, read while they are being written; attribution of records to states."""
import numpy as np

from ..daq import AUTO_EXCLUDE, T0_NS, FileWriter, StateStream, attribution, expected_labels
from ..engine import Violation, World

LABELS = ["A", "B", "C", "CO2", "W 1", "START", "STOP", "END", "IGNORE", "PAUSE", "Ne µ"]


def from_states_dict(sd, n, what):
    """Per-record attribution told by a states dictionary; every slice must be sane and none may overlap."""
    out = [None] * n
    for lab, v in sd.items():
        for s in (v if isinstance(v, list) else [v]):
            if not isinstance(s, slice) or s.step is not None or not (0 <= s.start <= s.stop <= n):
                raise Violation("bad-slice", f"{what}: state {lab!r} has slice {s} for {n} records")
            for i in range(s.start, s.stop):
                if out[i] is not None:
                    raise Violation("record-in-two-states", f"{what}: record {i} is in {out[i]!r} and {lab!r}")
                out[i] = lab
    return out


def compare_states(sd, times, entries, mode, aliases, what):
    want = attribution(times, entries, mode, aliases)
    got = from_states_dict(sd, len(times), what)
    for i, (g, w) in enumerate(zip(got, want)):
        if g != w:
            raise Violation("wrong-state", f"{what}: record {i} is attributed to {g!r}, the label active at its time is {w!r}")
    keys = expected_labels(entries, mode, aliases)
    if list(sd.keys()) != keys:
        raise Violation("wrong-labels", f"{what}: states {list(sd.keys())}, expected {keys}")


def gen_history(rng, n_labels, n_rec):
    """A common clock: labels and records in time order, some at exactly the same or adjacent nanoseconds."""
    t = T0_NS + rng.randrange(10**9)
    ev = []
    pool = rng.sample(LABELS, rng.randrange(1, len(LABELS) + 1))
    kinds = ["label"] * n_labels + ["rec"] * n_rec
    rng.shuffle(kinds)
    if rng.random() < .6:      # the usual shape: a label first
        kinds.sort(key=lambda k: k != "label") if rng.random() < .1 else kinds.insert(0, "label")
    for k in kinds:
        t += rng.choice([0, 1, 1, 7, 1000, 10**6, rng.randrange(1, 10**9), rng.randrange(1, 10**10)])
        ev.append([k, t] if k == "rec" else [k, t, rng.choice(pool)])
    return ev


class StateAttribution(World):
    name = "state_attribution"
    real = ("mass.off.experiment_state.ExperimentStateFile",)
    stub = ("DAQ program (label and record clock)",)
    rule = ("random label/record histories on one clock (repeats, ties, adjacent nanoseconds, excluded and aliased labels), "
            "cut into random refreshes; each refresh compared with the definition and, at the end, with a fresh load")
    must_reach = ("repeated-label-active-at-refresh", "excluded-active-at-refresh", "refresh-without-labels", "aliased",
                  "auto-exclude-changed")

    def generate(self, rng, tier):
        ev = gen_history(rng, rng.randrange(1, 12), rng.randrange(0, 40))
        ops = []
        for e in ev:
            ops.append({"op": e[0], "t": e[1], "label": e[2] if e[0] == "label" else None})
            if rng.random() < .25:
                ops.append({"op": "refresh"})
        ops.append({"op": "refresh"})
        aliases = {}
        if rng.random() < .3:
            for lab in rng.sample(LABELS, rng.randrange(1, 4)):
                aliases[lab] = rng.choice(["X", "Y", "A", "B"])
        mode = rng.choice(["auto", "auto", "auto", [], ["START", "END"], ["A"]])
        api = rng.choice(["increment", "increment", "whole"])
        if api == "increment" and mode == "auto":
            # An incremental update cannot take back records merged into an alias from a label "auto" excludes later.
            aliases = {k: v for k, v in aliases.items() if k not in AUTO_EXCLUDE}
        return {"ops": ops, "aliases": aliases, "mode": mode, "api": api}

    def execute(self, plan, ctx):
        import mass
        s = StateStream()
        path = ctx.path("run_experiment_state.txt")
        open(path, "wb").close()
        w = FileWriter(path, s)
        esf, sd = None, None
        entries, times = [], []
        n_lab = n_rec = 0
        mode = plan["mode"]
        aliases = plan["aliases"]
        for op in plan["ops"]:
            if op["op"] == "label":
                entries.append((op["t"], op["label"]))
                s.add(op["t"], op["label"])
                ctx.sim_ns = op["t"] - T0_NS
            elif op["op"] == "rec":
                times.append(op["t"])
                ctx.sim_ns = op["t"] - T0_NS
            else:
                now = max([t for t in times[-1:]] + [e[0] for e in entries[-1:]] + [0])
                # everything stamped `now` or earlier is on disk; skip a cut that falls between two events of one nanosecond
                w.flush(None)
                if not entries:
                    continue
                later = [o["t"] for o in self._after(plan["ops"], op) if o["op"] != "refresh"]
                if later and min(later) <= now:
                    continue
                if esf is None:
                    esf = mass.off.ExperimentStateFile(filename=path, excludeStates=mode)
                    for k, v in aliases.items():
                        esf.aliasState(k, v)
                else:
                    esf.parse()
                if aliases:
                    ctx.probe("aliased")
                if sd is not None and len(entries) == n_lab:
                    ctx.probe("refresh-without-labels")
                if sd is not None and n_lab:
                    prev = entries[n_lab - 1][1]
                    if [e[1] for e in entries[:n_lab]].count(prev) > 1:
                        ctx.probe("repeated-label-active-at-refresh")
                    if prev in ("START", "STOP", "END", "IGNORE"):
                        ctx.probe("excluded-active-at-refresh")
                    if mode == "auto" and expected_labels(entries[:n_lab], mode, {}) != \
                            [x for x in expected_labels(entries, mode, {}) if x in [e[1] for e in entries[:n_lab]]]:
                        ctx.probe("auto-exclude-changed")
                a = np.array(times, dtype=np.int64)
                if sd is None or plan["api"] == "whole":
                    sd = esf.calcStatesDict(a)
                else:
                    sd = esf.calcStatesDict(a[n_rec:], sd, n_lab, n_rec)
                n_lab, n_rec = len(entries), len(times)
                compare_states(sd, times, entries, mode, aliases, f"refresh at {n_rec} records, {n_lab} labels")
                if esf.labels != expected_labels(entries, mode, aliases):
                    raise Violation("wrong-labels", f"labels {esf.labels}, expected {expected_labels(entries, mode, aliases)}")
                ctx.event("refresh", n_rec, n_lab, len(sd))
        if sd is not None:
            fresh = mass.off.ExperimentStateFile(filename=path, excludeStates=mode)
            for k, v in aliases.items():
                fresh.aliasState(k, v)
            f = fresh.calcStatesDict(np.array(times[:n_rec], dtype=np.int64))
            if len(entries) == n_lab and (dict(f) != dict(sd) or list(f) != list(sd)):
                raise Violation("differs-from-fresh-load", f"refreshed {dict(sd)} but loading the finished file gives {dict(f)}")

    @staticmethod
    def _after(ops, op):
        for i, o in enumerate(ops):
            if o is op:
                return ops[i + 1:]
        return []


class StateFileTail(World):
    name = "state_file_tail"
    real = ("mass.off.experiment_state.ExperimentStateFile.parse", "file system (tmpfs)")
    stub = ("DAQ program (byte-granular appends)", "failing open()")
    rule = ("random state files (line ends, padding, non-ASCII labels) appended in byte pieces with parses, failing opens and "
            "new readers at random points")
    must_reach = ("parse-torn-line", "parse-torn-utf8", "parse-failed", "no-complete-line")

    def generate(self, rng, tier):
        ev = gen_history(rng, rng.randrange(1, 14), 0)
        eol = rng.choice(["\n", "\n", "\r\n"])
        ops = []
        for e in ev:
            ops.append({"op": "label", "t": e[1], "label": e[2]})
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                ops.append({"op": "flush", "n": rng.choice([1, 2, 5, 19, 20, 21, 22, 23, rng.randrange(1, 60), None])})
                if rng.random() < .7:
                    ops.append({"op": rng.choice(["parse", "parse", "parse", "open"]),
                                "fault": {"seam": "open", "k": 1, "kind": rng.choice(["EIO", "EMFILE", "ENOENT"])}
                                if rng.random() < .1 else None})
        ops += [{"op": "flush", "n": None}, {"op": "parse", "fault": None}, {"op": "open", "fault": None}]
        return {"ops": ops, "eol": eol, "pad": rng.choice([", ", ",", " , "]),
                "mode": rng.choice(["auto", [], ["START", "END"]])}

    def execute(self, plan, ctx):
        import mass
        s = StateStream(eol=plan["eol"], pad=plan["pad"])
        path = ctx.path("run_experiment_state.txt")
        open(path, "wb").close()
        w = FileWriter(path, s)
        esf, known = None, []
        mode = plan["mode"]
        for op in plan["ops"]:
            k = op["op"]
            if k == "label":
                s.add(op["t"], op["label"])
                ctx.sim_ns = op["t"] - T0_NS
                continue
            if k == "flush":
                w.flush(op["n"])
                ctx.event(k, w.written)
                continue
            done = s.complete(w.written)
            tail = bytes(s.bytes[:w.written])
            if not tail.endswith(b"\n"):
                ctx.fault_fired("daq:torn-line")
                ctx.probe("parse-torn-line")
                try:
                    tail.decode()
                except UnicodeDecodeError:
                    ctx.probe("parse-torn-utf8")
            try:
                with ctx.armed(op["fault"]) as armed:
                    if k == "open" or esf is None:
                        e2 = mass.off.ExperimentStateFile(filename=path, excludeStates=mode)
                    else:
                        esf.parse()
                        e2 = esf
            except Exception as e:
                if armed.fired and isinstance(e, OSError):
                    ctx.event("open-failed")
                    ctx.probe("parse-failed")
                    if esf is not None:
                        self.check(esf, known, mode, "after a failed parse")
                    continue
                if not done and (k == "open" or esf is None):
                    ctx.probe("no-complete-line")
                    ctx.event("refused-empty", type(e).__name__)
                    continue
                raise Violation("parse-raised", f"{type(e).__name__}: {e} with {len(done)} complete lines on disk and "
                                f"{tail[-12:]!r} at the end")
            if armed.fired:
                raise Violation("error-swallowed", "open() failed but the parse returned normally")
            esf, known = e2, done
            self.check(esf, done, mode, f"after {k}")
            ctx.event(k, len(done))

    def check(self, esf, done, mode, what):
        got = list(esf.allLabels)
        want = [lab for _, lab in done]
        if got != want:
            raise Violation("wrong-labels", f"{what}: labels {got}, the complete lines say {want}")
        if len(esf.unixnanos) != len(done) or any(int(a) != t for a, (t, _) in zip(esf.unixnanos, done)):
            raise Violation("wrong-times", f"{what}: {[int(a) for a in esf.unixnanos][:6]}, the complete lines say "
                            f"{[t for t, _ in done][:6]}")
        if done and list(esf.labels) != expected_labels(done, mode, {}):
            raise Violation("wrong-labels", f"{what}: labels {esf.labels}, expected {expected_labels(done, mode, {})}")
