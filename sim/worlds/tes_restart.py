"""P09: closing and reopening an analysis anywhere changes none of its results.
P10: an analysis step stopped at any point and redone gives the undisturbed result."""
import gc
import json

import numpy as np

from ..engine import Violation, World
from ..faults import SimKill
from ..tes import TesSetup, tes_cfg, tree_diff
from ..tespipe import Pipe, compare, gen_setup, gen_steps

REAL = ("mass.core.channel", "mass.core.channel_group", "mass.core.channel_group_hdf5_only", "mass.core.cut", "mass.core.filters",
        "mass.core.optimal_filtering", "mass.core.phase_correct", "mass.core.files", "mass.calibration.algorithms, energy_calibration",
        "compiled extension modules", "h5py/HDF5")
STUB = ("DAQ program (pulse, noise, state and trigger files)",)


def prepare(plan, ctx):
    import mass
    mass.line_models.VALIDATE_BIN_SIZE = False
    setup = TesSetup(plan["cfg"], ctx)
    if plan["cfg"].get("trigs"):
        s = next(iter(setup.streams.values()))
        r = np.random.default_rng(plan["cfg"]["seed"])
        sub = np.array([x.get("sub", 1000 * i) for i, x in enumerate(s.records)], dtype=np.int64)
        t = np.sort(r.integers(sub.min() - 500, sub.max() + 500, plan["cfg"]["trigs"]))
        setup.put_triggers(f"# external trigger arrival times (nrow={plan['cfg']['subdiv']})\n", t.astype("<i8").tobytes())
    return mass, setup


class TesRestart(World):
    name = "tes_restart"
    real, stub = REAL, STUB
    rule = ("random analyses (steps in and out of their usual order, repeated, forced, on the group or one channel, odd arguments, "
            "failing steps, cuts, marks) run once without interruption and twice with the program ended and the data reopened at random "
            "points, partly also viewed read-only from the cache alone; every outcome, stored value and visible object compared")
    must_reach = ("restart", "read-only-view", "filter-reopened", "5lag-reopened", "calibration-reopened", "phase-reopened",
                  "bad-channel-reopened", "states", "drift", "model")

    def generate(self, rng, tier):
        cfg = gen_setup(rng, tes_cfg, nchan=rng.choice([1, 2, 2]))
        cfg["trigs"] = rng.choice([0, 0, 5, 20])
        steps = gen_steps(rng)
        p = rng.choice([.15, .4, 1.0])
        for s in steps:
            s["re"] = [rng.random() < p, rng.random() < .25]
        return {"cfg": cfg, "invert": rng.random() < .04, "ro": rng.random() < .5, "variants": rng.choice([1, 2]), "ops": steps}

    def execute(self, plan, ctx):
        mass, setup = prepare(plan, ctx)
        kw = {"invert_data": plan["invert"]}
        ref = Pipe(ctx, mass, setup, "ref", **kw)
        ref.open()
        outcomes = []
        try:
            for i, s in enumerate(plan["ops"]):
                out = ref.run(i, s)
                if out is None:
                    ref.finished(s)
                outcomes.append((out, ref.bad()))
                ctx.event(s["op"], out, len(outcomes[-1][1]), tuple(s["re"]))
                ctx.probe("ok:" + s["op"] if out is None and len(outcomes[-1][1]) < plan["cfg"]["nchan"] else "failed:" + s["op"])
            want, want_view = ref.stored(), ref.view()
        finally:
            ref.close()
        self.notes(ctx, want_view, plan)
        for v in range(plan["variants"]):
            p = Pipe(ctx, mass, setup, f"v{v}", **kw)
            p.open()
            try:
                for i, s in enumerate(plan["ops"]):
                    if s["re"][v]:
                        self.reopen(p, f"before step {i} ({s['op']})", plan, ctx)
                    out = p.run(i, s)
                    if (out, p.bad()) != outcomes[i]:
                        raise Violation("outcome-differs", f"step {i} {json.dumps(s)[:200]}: with restarts {out} and bad channels {p.bad()}, "
                                        f"without {outcomes[i][0]} and {outcomes[i][1]}"[:900])
                self.reopen(p, "at the end", plan, ctx)
                compare("stored-differs", f"stored results after {[s['op'] for s in plan['ops']]}", want, p.stored())
            finally:
                p.close()

    def reopen(self, p, when, plan, ctx):
        before = p.view()
        before_stored = p.stored()
        p.close()
        if plan["ro"]:
            h = p.mass.core.channel_group_hdf5_only.TESGroupHDF5(p.hdf5, read_only=True)
            try:
                compare("read-only-differs", f"read-only view {when}", before, p.view(h))
            finally:
                h.hdf5_file.close()
            ctx.probe("read-only-view")
        p.open()
        compare("reopening-changed-cache", f"the cache {when}", before_stored, p.stored())
        compare("view-differs", f"reopened {when}", before, p.view())
        ctx.probe("restart")

    def notes(self, ctx, view, plan):
        for k, v in view.items():
            if k.endswith(".filter") and v is not None:
                ctx.probe("filter-reopened" if v == "ats" else "5lag-reopened")
            if k.endswith(".curve") and v is not None:
                ctx.probe("calibration-reopened")
            if k.endswith("phase corrector") and v is not None:
                ctx.probe("phase-reopened")
            if k.endswith("p_filt_value_dc") and np.any(v):
                ctx.probe("drift")
        if view["n good"] < plan["cfg"]["nchan"]:
            ctx.probe("bad-channel-reopened")
        if plan["cfg"]["states"]:
            ctx.probe("states")
        if ctx.probes.get("ok:model"):
            ctx.probe("model")

    def shrink_op(self, op):
        for k, dflt in (("re", [False, False]), ("only", None), ("force", False), ("fmax", None), ("f_3db", None), ("cut_pre", 0),
                        ("cut_post", 0), ("peak", None), ("ign", None), ("fit", False)):
            if k in op and op[k] != dflt:
                yield dict(op, **{k: dflt})

    def shrink_config(self, plan):
        c = plan["cfg"]
        if plan["variants"] > 1:
            yield dict(plan, variants=1)
            yield dict(plan, variants=1, ops=[dict(o, re=o["re"][::-1]) for o in plan["ops"]])
        if plan["ro"]:
            yield dict(plan, ro=False)
        for key, v in (("nchan", 1), ("states", False), ("trigs", 0), ("tail", 0)):
            if c[key] != v:
                yield dict(plan, cfg=dict(c, **{key: v}))


class TesRedo(World):
    name = "tes_redo"
    real, stub = REAL, STUB
    rule = ("random analyses in which steps (and openings) are stopped at a random cache write by Ctrl-C, an exception or a failing "
            "write, then repeated in the same session or after reopening; the results of the step and of the whole analysis compared "
            "with an undisturbed run")
    must_reach = ("interrupted", "redone-unforced", "redone-in-session", "redone-after-reopen", "interrupted-open", "marked-bad-by-fault",
                  "lasting-failure")

    def generate(self, rng, tier):
        cfg = gen_setup(rng, tes_cfg, nchan=rng.choice([1, 2, 2]))
        cfg["trigs"] = rng.choice([0, 5])
        steps = gen_steps(rng, costly=.3)
        p = rng.choice([.15, .4, .8])
        for s in steps:
            if rng.random() < p:
                s["fault"] = {"seam": "h5", "frac": rng.random(), "kind": rng.choice(["kbi", "kbi", "EIO", "MEM", "ENOSPC"]),
                              "when": rng.choice(["before", "after"])}
                if s["op"] == "setbad":
                    s["fault"]["when"] = "before"     # a mark repeated after it was stored is a second mark
                s["fault"]["sticky"] = s["fault"]["kind"] in {"EIO", "ENOSPC"} and rng.random() < .5
                s["reopen"] = rng.random() < .5
                s["soft"] = bool(s.get("force")) and rng.random() < .5
                s["open_fault"] = dict(s["fault"], frac=rng.random()) if s["reopen"] and rng.random() < .3 else None
        first = {"seam": "h5", "frac": rng.random(), "kind": rng.choice(["kbi", "EIO"]), "when": "before"} if rng.random() < .3 else None
        return {"cfg": cfg, "first_open_fault": first, "ops": steps}

    def execute(self, plan, ctx):
        mass, setup = prepare(plan, ctx)
        self.debris = False
        self.visits, self.snaps, self.befores, self.bads, self.outs = [], [], [], [], []
        ref = Pipe(ctx, mass, setup, "ref")
        with ctx.armed({"seam": "h5", "k": 0, "kind": "count"}) as a:
            ref.open()
        self.open_visits = a.visits
        try:
            for i, s in enumerate(plan["ops"]):
                self.befores.append((ref.stored(), ref.view()) if s.get("soft") else None)
                with ctx.armed({"seam": "h5", "k": 0, "kind": "count"}) as a:
                    self.outs.append(ref.run(i, s))
                if self.outs[-1] is None:
                    ref.finished(s)
                self.visits.append(a.visits)
                self.bads.append(ref.bad())
                self.snaps.append((ref.stored(), ref.view()) if s.get("fault") else None)
            want, want_view = ref.stored(), ref.view()
        finally:
            ref.close()
        p = Pipe(ctx, mass, setup, "p")
        self.open(p, plan["first_open_fault"], ctx)
        try:
            for i, s in enumerate(plan["ops"]):
                self.step(p, i, s, ctx)
            p.close()
            p.open()
            compare("result-differs", f"after {[s['op'] for s in plan['ops']]}", want, self.tidy(p.stored(), want))
            compare("result-differs", f"view after {[s['op'] for s in plan['ops']]}", want_view, p.view())
        finally:
            p.close()

    @staticmethod
    def at(fault, visits):
        return {"seam": "h5", "k": 1 + min(int(fault["frac"] * visits), visits - 1), "kind": fault["kind"], "when": fault["when"],
                "sticky": fault.get("sticky", False)}

    def open(self, p, fault, ctx):
        if fault:
            with ctx.armed(self.at(fault, max(self.open_visits, 1))) as a:
                try:
                    p.open()
                except (Exception, KeyboardInterrupt, SimKill):
                    if not a.fired:
                        raise
                    p.g = None
            if a.fired:
                ctx.probe("interrupted-open")
            if p.g is not None:
                p.close()
            gc.collect()
        p.open()

    def step(self, p, i, s, ctx):
        f, n = s.get("fault"), self.visits[i]
        if not f or not n:
            out = p.run(i, s)
            self.same_outcome(p, i, s, out)
            return
        before = p.bad()
        raised = None
        with ctx.armed(self.at(f, n)) as a:
            try:
                out = p.run(i, s)
            except (KeyboardInterrupt, OSError, MemoryError) as e:
                if not a.fired:
                    raise
                raised = type(e).__name__
        ctx.event(s["op"], f["kind"], f["when"], round(f["frac"], 1), a.fired, raised)
        if not a.fired:
            self.same_outcome(p, i, s, out)
            return
        ctx.probe("interrupted")
        if f.get("sticky") and a.visits > self.at(f, n)["k"]:
            ctx.probe("lasting-failure")
            self.debris = True              # the library could not clean up either; what it never reads may stay in the file
        newly = [c for c in p.bad() if p.bad()[c] != before.get(c)]
        # repair what the failure marked: the user sets the channel good again and repeats the step
        if s["op"] not in {"setbad", "setgood"}:
            for c in newly:
                ctx.probe("marked-bad-by-fault")
                if c in before:
                    raise Violation("bad-channel-touched", f"step {s['op']} added a reason to the bad channel {c}: {p.bad()[c]}"[:500])
                p.g.set_chan_good(c)
        if s.get("reopen"):
            p.close()
            self.open(p, s.get("open_fault"), ctx)
            ctx.probe("redone-after-reopen")
        else:
            ctx.probe("redone-in-session")
        if s.get("soft"):
            self.soft(p, i, s, ctx)
        out = p.run(i, s)
        what = f"step {i} {json.dumps(s)[:260]}, interrupted at cache write {self.at(f, n)['k']} of {n} and redone"
        if p.bad() != self.bads[i] or out != self.outs[i]:
            raise Violation("redo-outcome", f"{what}: outcome {out}, bad channels {p.bad()}; undisturbed {self.outs[i]}, {self.bads[i]}"[:1200])
        stored, view = self.snaps[i]
        compare("redo-differs", what, stored, self.tidy(p.stored(), stored))
        compare("redo-differs", "view after " + what, view, p.view())

    def tidy(self, stored, *references):
        """After a lasting failure, whatever has a name that no undisturbed session uses does not count."""
        if not self.debris:
            return stored
        return {k: v for k, v in stored.items() if any(k in r for r in references)}

    def soft(self, p, i, s, ctx):
        """An interrupted forced step repeated without force: every channel has the old results or the new ones."""
        bad = p.bad()
        p.run(i, dict(s, force=False))
        ctx.probe("redone-unforced")
        stored, view = p.stored(), p.view()
        stored = self.tidy(stored, self.befores[i][0], self.snaps[i][0])
        for ds in p.g.datasets:
            if p.bad().get(ds.channum) != bad.get(ds.channum):      # this channel fails also undisturbed
                p.g.set_chan_good(ds.channum)
                continue
            mine = [f"pulse:chan{ds.channum}/", f"chan{ds.channum}."]
            diffs = []
            for old in (self.befores[i], self.snaps[i]):
                diffs.append([d for a, b in zip(old, (stored, view)) for d in tree_diff(
                    {k: v for k, v in a.items() if k.startswith(tuple(mine))}, {k: v for k, v in b.items() if k.startswith(tuple(mine))})])
            if all(diffs):
                raise Violation("partial-taken-for-finished", f"step {i} {json.dumps(s)[:260]}, interrupted and repeated without force: "
                                f"chan {ds.channum} has neither the old results ({'; '.join(diffs[0][:3])}) nor the new ones "
                                f"({'; '.join(diffs[1][:3])})"[:1200])

    def same_outcome(self, p, i, s, out):
        if p.bad() != self.bads[i] or out != self.outs[i]:
            raise Violation("outcome-differs", f"step {i} {json.dumps(s)[:200]}: outcome {out}, bad channels {p.bad()}; "
                            f"undisturbed {self.outs[i]}, {self.bads[i]}"[:1000])

    def shrink_op(self, op):
        if op.get("fault"):
            yield dict(op, fault=None)
            if op.get("reopen"):
                yield dict(op, reopen=False)
            if op.get("soft"):
                yield dict(op, soft=False)
        for k, dflt in (("only", None), ("force", False), ("fmax", None), ("f_3db", None), ("cut_pre", 0),
                        ("cut_post", 0), ("peak", None), ("ign", None), ("fit", False)):
            if k in op and op[k] != dflt:
                yield dict(op, **{k: dflt})

    def shrink_config(self, plan):
        c = plan["cfg"]
        if plan["first_open_fault"]:
            yield dict(plan, first_open_fault=None)
        for key, v in (("nchan", 1), ("states", False), ("trigs", 0), ("tail", 0)):
            if c[key] != v:
                yield dict(plan, cfg=dict(c, **{key: v}))
