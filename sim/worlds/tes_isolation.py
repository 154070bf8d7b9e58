"""P13: one failing channel never stops or alters the others (LJH groups)."""
import contextlib
import json
import os
import re

import numpy as np

from ..engine import Violation, World
from ..loader import reseed_randomness
from ..tes import TesSetup, close, tes_cfg
from ..tespipe import Pipe, compare, gen_setup, gen_steps
from .tes_restart import REAL, STUB, prepare

KINDS = ["EIO", "ENOSPC", "MEM", "VAL", "KEY", "RT", "DIV", "STOP", "EXC", "IDX", "ATTR", "ASSERT", "text"]
DATA_FAULTS = ["flat", "zeros", "saturated", "onepulse", "flatnoise", "upside", "noise"]
PER_CHANNEL = {"setbad", "setgood"}


class IsoPipe(Pipe):
    """Channels are named by their number, so that a group with fewer channels runs the same steps."""

    def chan(self, i):
        c = self.setup.chans[i % len(self.setup.chans)]
        for ds in self.g.datasets:
            if ds.channum == c:
                return ds
        return None

    def runs(self, s):
        """Does this step apply to this group?"""
        if s["op"] in PER_CHANNEL:
            return self.chan(s["chan"]) is not None
        return s.get("only") is None or self.chan(s["only"]) is not None

    def do_model(self, s):
        """The model is found with random numbers: each channel gets its own."""
        for ds in self.g.datasets:
            def seeded(*a, real=type(ds).get_pulse_model, ds=ds, **kw):
                reseed_randomness(self.seed + ds.channum)
                return real(ds, *a, **kw)
            ds.get_pulse_model = seeded
        super().do_model(s)

    def do_flux(self, s):
        self.g.correct_flux_jumps(s["quant"])

    def do_avgmask(self, s):
        masks = [np.arange(ds.nPulses) % s["every"] == 0 for ds in self.g.datasets]
        self.g.compute_average_pulse(masks, subtract_mean=s["subtract"], forceNew=s["force"])

    def do_spectra(self, s):
        self.g.compute_noise_spectra(forceNew=s["force"])

    def do_sanitize(self, s):
        self.g.sanitize_p_filt_phase()


class TesIsolation(World):
    name = "tes_isolation"
    real, stub = REAL, STUB
    rule = ("random analyses of 2-4 channels in which some channels fail at random steps (injected exceptions of many types at a random "
            "write of that channel's results, or bad data), are marked, repaired and reopened; the other channels' stored and visible "
            "results and marks compared with a group opened without the failing ones")
    must_reach = ("failed-by-fault", "failed-by-data", "several-failed", "ctrl-c", "restart", "bad-stays-out", "set-good-again")

    def generate(self, rng, tier):
        cfg = gen_setup(rng, tes_cfg, nchan=rng.choice([2, 2, 3, 4]), npulses=rng.choice([40, 60]), nsamp=64)
        cfg["trigs"] = rng.choice([0, 5])
        n = cfg["nchan"]
        sick = sorted(rng.sample(range(n), rng.choice([1, 1, 2]) if n > 2 else 1))
        steps = gen_steps(rng, costly=.25)
        extra = [{"op": "flux", "quant": 4096}, {"op": "avgmask", "every": 2, "subtract": True, "force": rng.random() < .5},
                 {"op": "spectra", "force": rng.random() < .5}, {"op": "sanitize"}]
        for e in extra:
            if rng.random() < .2:
                steps.insert(rng.randrange(len(steps) + 1), e)
        data = {}
        for i in sick:
            if rng.random() < .4:
                data[str(i)] = rng.choice(DATA_FAULTS)
        p = rng.choice([.1, .3, .6])
        for s in steps:
            if s.get("only") is not None and s["only"] % n in sick:
                del s["only"]
            if rng.random() < p and s["op"] not in PER_CHANNEL:
                s["fault"] = {"who": rng.choice(sick), "frac": rng.random(), "when": rng.choice(["before", "after"]),
                              "kind": "kbi" if rng.random() < .12 else rng.choice(KINDS)}
            if rng.random() < .1:
                s["re"] = True
            if rng.random() < .15:
                s["repair"] = rng.choice(sick)
        return {"cfg": cfg, "sick": sick, "data": data, "ops": steps}

    # ---------------------------------------------------------------------------------------------
    def spoil(self, setup, chan, how):
        path = setup.files[setup.chans.index(chan)]
        if how == "flatnoise":
            path = setup.noise_files[setup.chans.index(chan)]
        raw = open(path, "rb").read()
        stream = (setup.noise_streams if how == "flatnoise" else setup.streams)[chan]
        ns = setup.cfg["nsamp"]
        size = (6 if stream.v21 else 16) + 2 * ns
        head = len(bytes(stream.bytes)) - size * len(stream.records)
        n = len(stream.records)
        rec = np.frombuffer(raw[head:head + n * size], dtype=np.uint8).reshape(n, size).copy()
        words = rec[:, -2 * ns:].copy().view("<u2")
        r = np.random.default_rng(setup.cfg["seed"])
        if how in {"flat", "flatnoise"}:
            words[:] = 1000
        elif how == "zeros":
            words[:] = 0
        elif how == "saturated":
            words[:, setup.cfg["npre"]:] = 65535
        elif how == "upside":
            words[:] = 12000 - np.minimum(words, 12000)
        elif how == "noise":
            words[:] = r.integers(0, 65536, words.shape)
        rec[:, -2 * ns:] = words.view(np.uint8)
        if how == "onepulse":
            rec = rec[:1]
        with open(path, "wb") as f:
            f.write(raw[:head] + rec.tobytes())

    def execute(self, plan, ctx):
        mass, setup = prepare(plan, ctx)
        sick = {setup.chans[i] for i in plan["sick"]}
        for i, how in plan["data"].items():
            self.spoil(setup, setup.chans[int(i)], how)
        well = [i for i, c in enumerate(setup.chans) if c not in sick]
        ref = IsoPipe(ctx, mass, setup, "ref")
        ref.open(order=well)
        outs, bads = [], []
        try:
            for i, s in enumerate(plan["ops"]):
                if s.get("re"):
                    ref.close()
                    ref.open(order=well)
                outs.append(ref.run(i, s) if ref.runs(s) else None)
                bads.append(ref.bad())
            want, want_view = ref.stored(), ref.view()
        finally:
            ref.close()
        p = IsoPipe(ctx, mass, setup, "p")
        p.not_for_peaks = sick
        p.open()
        marks = {}
        try:
            for i, s in enumerate(plan["ops"]):
                marks = self.step(p, i, s, outs[i], bads[i], sick, marks, ctx)
            names = [s["op"] for s in plan["ops"]]
            mine = tuple(x for i in well for x in (f"pulse:chan{setup.chans[i]}/", f"noise:chan{setup.chans[i]}/", f"bad:{setup.chans[i]}",
                                                   f"model:{setup.chans[i]}/", f"chan{setup.chans[i]}."))
            pick = lambda d: {k: v for k, v in d.items() if k.startswith(mine)}   # noqa: E731
            compare("other-channel-altered", f"after {names}", pick(want), pick(p.stored()))
            compare("other-channel-altered", f"view after {names}", pick(want_view), pick(p.view()))
        finally:
            p.close()

    def step(self, p, i, s, out_ref, bad_ref, sick, marks, ctx):
        if s.get("re"):
            p.close()
            p.open()
            ctx.probe("restart")
            if p.bad() != marks:
                raise Violation("marks-lost", f"before step {i}: reopened, bad channels {p.bad()}, before {marks}"[:900])
        if s.get("repair") is not None:
            c = p.setup.chans[s["repair"]]
            if c in marks:
                ctx.probe("set-good-again")
            p.g.set_chan_good(c)
            marks = {k: v for k, v in marks.items() if k != c}
        what = f"step {i} {json.dumps(s)[:300]}"
        good_before = list(p.g.good_channels)
        f, fired, interrupted = s.get("fault"), False, False
        if f:
            c = p.setup.chans[f["who"]]
            spec = {"seam": "h5", "k": 0, "kind": f["kind"], "when": f["when"], "under": f"/chan{c}"}
            # how many writes a channel's share of a step takes does not depend on the channel: guess, then take what comes
            spec["k"] = 1 + int(f["frac"] ** 2 * 12)
            with ctx.armed(spec) as a:
                try:
                    out = p.run(i, s)
                except (KeyboardInterrupt, OSError, MemoryError, StopIteration) as e:
                    if not a.fired:
                        raise
                    if isinstance(e, KeyboardInterrupt):
                        interrupted = True
                        out = None
                    else:
                        out = type(e).__name__
            fired = a.fired
        else:
            out = p.run(i, s)
        now = p.bad()
        group_step = s.get("only") is None and s["op"] not in {"cut", "assign", "peakcut", "smart"}
        if fired and f["kind"] == "kbi":
            ctx.probe("ctrl-c")
            if not interrupted:
                raise Violation("ctrl-c-swallowed", f"{what}: Ctrl-C did not reach the user; bad channels {now}"[:900])
            if now.get(c) != marks.get(c):
                raise Violation("ctrl-c-marks", f"{what}: Ctrl-C changed the bad channels from {marks} to {now}"[:900])
            out = p.run(i, s)
            now = p.bad()
            fired = False
        if fired and not group_step:
            # the user's own loop over the channels: the user sees the error and repeats the step
            if out is None:
                raise Violation("error-swallowed", f"{what}: the failure of channel {c} vanished"[:900])
            if now != marks:
                raise Violation("wrong-marks", f"{what}: bad channels changed from {marks} to {now}"[:900])
            out = p.run(i, s)
            now = p.bad()
            fired = False
        if group_step and s["op"] not in PER_CHANNEL and out is not None and (good_before or out != "IndexError"):
            raise Violation("group-stopped", f"{what}: raised {out}; bad channels {now}"[:900])
        # marks of the healthy channels: as without the others
        mine = {k: v for k, v in now.items() if k not in sick}
        if mine != bad_ref:
            raise Violation("other-channel-marked", f"{what}: bad channels {now}; without channels {sorted(sick)}: {bad_ref}"[:1200])
        # marks of the failing ones
        for c2 in sick:
            was, is_ = marks.get(c2), now.get(c2)
            if s["op"] in PER_CHANNEL or s["op"] == "allgood":
                continue
            if was is not None:
                ctx.probe("bad-stays-out")
                if is_ != was:
                    raise Violation("bad-channel-touched", f"{what}: reasons of channel {c2} went from {was} to {is_}"[:900])
            elif is_ is not None:
                if len(is_) != 1 or not is_[0].strip():
                    raise Violation("wrong-reason", f"{what}: channel {c2} is bad because {is_}"[:900])
                ctx.probe("failed-by-fault" if fired and c2 == c else "failed-by-data")
                if sum(x in now for x in sick) > 1:
                    ctx.probe("several-failed")
            if fired and c2 == c and is_ is None:
                raise Violation("failure-not-marked", f"{what}: channel {c} failed and is still good"[:900])
            if fired and c2 == c and f["kind"] in {"EIO", "ENOSPC", "MEM"} and s["op"] not in {"trig", "flux"} and "simulated" not in " ".join(is_):
                raise Violation("wrong-reason", f"{what}: channel {c} failed and is bad because {is_}"[:900])
        check_views(p.g, now, what)
        ctx.event(s["op"], out, sorted(now), fired)
        return now

    def shrink_op(self, op):
        for k, dflt in (("fault", None), ("re", False), ("repair", None), ("only", None), ("force", False), ("fmax", None), ("f_3db", None),
                        ("cut_pre", 0), ("cut_post", 0), ("peak", None), ("ign", None), ("fit", False)):
            if k in op and op[k] != dflt:
                yield dict(op, **{k: dflt})

    def shrink_config(self, plan):
        c = plan["cfg"]
        for key, v in (("states", False), ("trigs", 0), ("tail", 0)):
            if c[key] != v:
                yield dict(plan, cfg=dict(c, **{key: v}))
        for k in plan["data"]:
            yield dict(plan, data={x: y for x, y in plan["data"].items() if x != k})


def check_views(g, marks, what, stored=True):
    """Every view of which channels are good agrees with `marks` ({channel: reasons})."""
    chans = [int(ds.channum) for ds in g.datasets]
    good = [c for c in chans if c not in marks]

    def need(name, got, want):
        if got != want:
            raise Violation("views-disagree", f"{what}: {name} is {got!r}, expected {want!r}"[:900])
    need("why_chan_bad", sorted(int(c) for c in g.why_chan_bad), sorted(marks))
    need("good_channels", [int(c) for c in g.good_channels], good)
    need("num_good_channels", int(g.num_good_channels), len(good))
    need("n_good_channels()", int(g.n_good_channels()), len(good))
    need("iteration", [int(ds.channum) for ds in g], good)
    need("iter_channel_numbers()", [int(c) for c in g.iter_channel_numbers()], good)
    need("iter_channels(include_badchan=True)", [int(ds.channum) for ds in g.iter_channels(include_badchan=True)], chans)
    need("iter_channel_numbers(include_badchan=True)", [int(c) for c in g.iter_channel_numbers(include_badchan=True)], chans)
    need("channel", sorted(int(c) for c in g.channel), sorted(chans))
    try:
        first = int(g.first_good_dataset.channum)
    except IndexError:
        first = None
    need("first_good_dataset", first, good[0] if good else None)
    if stored:
        for c in chans:
            a = g.hdf5_file[f"chan{c}"].attrs
            w = [re.split(r"\ntraceback", x if isinstance(x, str) else x.decode())[0] for x in a["why_bad"]] if "why_bad" in a else None
            need(f"the stored reasons of channel {c}", w, marks.get(c))


class TesMarks(World):
    name = "tes_marks"
    real = ("mass.core.channel_group (marks, views, loops)", "mass.core.channel_group_hdf5_only", "h5py/HDF5")
    stub = STUB
    rule = ("random histories of marking channels bad and good (single, lists, several reasons, odd texts), failing and interrupted group "
            "steps, loops that mark while iterating, restarts (all channels, some, noise only, from the cache alone); every view of the "
            "good and bad channels compared with a model after every step")
    must_reach = ("restart", "subset", "cache-only", "noise-only", "failed-by-fault", "ctrl-c", "refused", "empty-channel", "all-bad",
                  "marked-while-iterating", "mark-interrupted", "several-failed", "ctrl-c-after-failure")
    TEXTS = ["noisy", "", "too few pulses", "Ti Kα µ", "x" * 3000, "a\nb", "  spaces ", "\"quoted\"", "b'bytes'", "ümlaut \U0001f600"]

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, npulses=8, nsamp=16, npre=4, nnoise=4, nchan=rng.choice([1, 2, 3, 5]), noise=True, states=False, tail=0,
                      uneven=False)
        ops = []
        for _ in range(rng.randrange(4, 30)):
            q = rng.random()
            o = {"r": rng.randrange(2**31)}
            if q < .3:
                o.update(op="bad", which=rng.sample(range(5), rng.choice([1, 1, 1, 2, 3])), why=rng.sample(self.TEXTS, rng.choice([0, 1, 1, 2])),
                         form=rng.choice(["args", "list", "array", "tuple"]))
                if rng.random() < .15:
                    o["fault"] = rng.choice(["kbi", "EIO", "MEM", "ENOSPC"])
            elif q < .5:
                o.update(op="good", which=rng.sample(range(5), rng.choice([1, 1, 2, 3])), form=rng.choice(["args", "list", "array", "tuple"]))
                if rng.random() < .15:
                    o["fault"] = rng.choice(["kbi", "EIO", "MEM", "ENOSPC"])
            elif q < .56:
                o.update(op="allgood")
            elif q < .76:
                o.update(op="fail", who=rng.randrange(5), k=rng.choice([1, 1, 2, 3]), kind=rng.choice(KINDS + ["kbi", "kbi"]),
                         what=rng.choice(["white", "white", "clear", "summarize"]))
                if rng.random() < .5:
                    o["more"] = [{"who": rng.randrange(5), "k": rng.choice([1, 1, 2]), "kind": rng.choice(KINDS + ["kbi"] * 4)}
                                 for _ in range(rng.choice([1, 1, 2, 3]))]
            elif q < .82:
                o.update(op="loop", every=rng.choice([1, 2, 3]), why=rng.choice(self.TEXTS))
            elif q < .87:
                o.update(op="refuse", chan=rng.choice([0, 2, 99, -1]))
            else:
                o.update(op="restart", how=rng.choice(["all", "all", "subset", "cache", "cache-ro"]))
            ops.append(o)
        return {"cfg": cfg, "noise_only": rng.random() < .2, "empty": rng.choice([None, None, 0, 1]), "ops": ops}

    def execute(self, plan, ctx):
        import mass
        self.mass, self.plan, self.ctx = mass, plan, ctx
        self.setup = TesSetup(plan["cfg"], ctx)
        self.chans = list(self.setup.chans)
        self.noise_only = plan["noise_only"]
        if plan["empty"] is not None and not self.noise_only and len(self.chans) > 1:
            c = self.chans.pop(plan["empty"])
            s = self.setup.streams[c]
            size = (6 if s.v21 else 16) + 2 * plan["cfg"]["nsamp"]
            path = self.setup.files[self.setup.chans.index(c)]
            os.truncate(path, os.path.getsize(path) - size * len(s.records))
            ctx.probe("empty-channel")
        self.marks, self.open_chans, self.cache = {}, list(self.chans), False
        self.reopen("all")
        try:
            self.verify("after opening")
            for i, op in enumerate(plan["ops"]):
                getattr(self, "do_" + op["op"])(op)
                self.verify(f"after step {i} {json.dumps(op)[:300]}")
                ctx.event(op["op"], sorted(self.marks))
        finally:
            close(self.g)

    def reopen(self, how, r=0):
        if how in {"cache", "cache-ro"} and self.noise_only:
            how = "all"
        if how == "subset":
            keep = np.random.default_rng(r).random(len(self.setup.chans)) < .6
            order = [i for i in range(len(keep)) if keep[i]]
            if not any(self.setup.chans[i] in self.chans for i in order):
                how = "all"
        self.cache = False
        if how in {"cache", "cache-ro"}:
            self.g = self.mass.core.channel_group_hdf5_only.TESGroupHDF5(self.setup.hdf5, read_only=how == "cache-ro")
            self.open_chans, self.cache = list(self.chans), how
            self.ctx.probe("cache-only")
            return
        if how == "all":
            order = None
            self.open_chans = list(self.chans)
        else:
            self.open_chans = [self.setup.chans[i] for i in order if self.setup.chans[i] in self.chans]
            self.ctx.probe("subset")
        if self.noise_only:
            files = self.setup.noise_files if order is None else [self.setup.noise_files[i] for i in order]
            self.g = self.mass.TESGroup(list(files), noise_only=True, hdf5_noisefilename=self.setup.hdf5_noise)
            self.ctx.probe("noise-only")
        else:
            self.g = self.setup.open(self.mass, order=order)

    def verify(self, when):
        now = {c: w for c, w in self.marks.items() if c in self.open_chans}
        check_views(self.g, now, when)
        got = {int(c): [re.split(r"\ntraceback", x)[0] for x in w] for c, w in self.g.why_chan_bad.items()}
        if got != now:
            raise Violation("wrong-reasons", f"{when}: reasons {got}, expected {now}"[:1200])
        if [int(ds.channum) for ds in self.g.datasets] != self.open_chans:
            raise Violation("wrong-channels", f"{when}: channels {[ds.channum for ds in self.g.datasets]}, expected {self.open_chans}")
        if not [c for c in self.open_chans if c not in now]:
            self.ctx.probe("all-bad")

    def pick(self, op):
        return [self.open_chans[i % len(self.open_chans)] for i in op["which"]]

    @staticmethod
    def args(form, chans):
        if form == "args":
            return list(chans)
        if form == "array":
            return [np.array(chans)]
        return [list(chans) if form == "list" else tuple(chans)]

    def marking(self, op, f, chans, after):
        """Run a marking request; when the cache cannot be written, each channel has its old mark or its new one, and stored and
        presented marks agree."""
        if self.cache == "cache-ro":
            return
        if not op.get("fault"):
            f()
            self.marks.update({c: after[c] for c in after if after[c] is not None})
            for c in after:
                if after[c] is None:
                    self.marks.pop(c, None)
            return
        with self.ctx.armed({"seam": "h5", "k": 1 + op["r"] % 2, "kind": op["fault"], "when": "before"}) as a:
            try:
                f()
            except (KeyboardInterrupt, OSError, MemoryError):
                if not a.fired:
                    raise
        if a.fired:
            self.ctx.probe("mark-interrupted")
        got = {int(c): list(w) for c, w in self.g.why_chan_bad.items()}
        for c in after:
            new, old, is_ = after[c], self.marks.get(c), got.get(c)
            if is_ is not None:
                is_ = [re.split(r"\ntraceback", x)[0] for x in is_]
            if is_ not in ((new, old) if a.fired else (new,)):
                raise Violation("wrong-reasons", f"{json.dumps(op)[:200]}: channel {c} has {is_}, before {old}, asked for {new}"[:900])
            if is_ is None:
                self.marks.pop(c, None)
            else:
                self.marks[c] = is_

    def do_bad(self, op):
        chans = self.pick(op)
        args = self.args(op["form"], chans) + list(op["why"])
        why = op["why"][-1] if op["why"] else ""
        self.marking(op, lambda: self.g.set_chan_bad(*args), chans, {c: self.marks.get(c, []) + [why] for c in chans})

    def do_good(self, op):
        chans = self.pick(op)
        args = self.args(op["form"], chans)
        self.marking(op, lambda: self.g.set_chan_good(*args), chans, {c: None for c in chans})

    def do_allgood(self, op):
        self.marking({"r": 0}, self.g.set_all_chan_good, self.open_chans, {c: None for c in self.open_chans})

    def do_fail(self, op):
        """A group step in which one or more channels fail, or Ctrl-C arrives."""
        if self.cache or (self.noise_only and op["what"] != "white"):
            return
        good = [x for x in self.open_chans if x not in self.marks]
        run = {"white": lambda: self.g.assume_white_noise(2.0, forceNew=True), "clear": lambda: self.g.clear_cuts(),
               "summarize": lambda: self.g.summarize_data(forceNew=True)}[op["what"]]
        kinds, armed = {}, {}
        interrupted = False
        with contextlib.ExitStack() as stack:
            for f in [op, *op.get("more", [])]:
                c = self.open_chans[f["who"] % len(self.open_chans)]
                if c not in kinds:
                    kinds[c] = f["kind"]
                    armed[c] = stack.enter_context(self.ctx.armed(
                        {"seam": "h5", "k": f["k"], "kind": f["kind"], "when": "before", "under": f"/chan{c}"}))
            try:
                run()
            except KeyboardInterrupt:
                if not any(a.fired and kinds[c] == "kbi" for c, a in armed.items()):
                    raise
                interrupted = True
        fired = [c for c in self.open_chans if c in armed and armed[c].fired]
        if not fired:
            return
        what = f"{op['what']} in which {({c: kinds[c] for c in fired})} failed"
        if set(fired) - set(good):
            raise Violation("bad-channel-touched", f"{what}: the good channels were {good}")
        failed = [c for c in fired if kinds[c] != "kbi"]
        if len(failed) < len(fired):
            self.ctx.probe("ctrl-c")
            if not interrupted:
                raise Violation("ctrl-c-swallowed", f"{what}: Ctrl-C did not reach the user; bad channels {list(self.g.why_chan_bad)}")
            if len(fired) > len(failed) + 1 or kinds[fired[-1]] != "kbi":
                raise Violation("ctrl-c-swallowed", f"{what}: more channels were processed after Ctrl-C")
            if failed:
                self.ctx.probe("ctrl-c-after-failure")
        if len(failed) > 1:
            self.ctx.probe("several-failed")
        for c in failed:
            self.ctx.probe("failed-by-fault")
            why = [re.split(r"\ntraceback", x)[0] for x in self.g.why_chan_bad.get(c, [])]
            if not why:
                raise Violation("failure-not-marked", f"{what}: channel {c} is still good")
            if len(why) != 1 or (kinds[c] in {"EIO", "ENOSPC", "MEM"} and "simulated" not in why[0]):
                raise Violation("wrong-reason", f"{what}: channel {c} is bad because {why}"[:900])
            self.marks[c] = why

    def do_loop(self, op):
        if self.cache == "cache-ro":
            return
        self.ctx.probe("marked-while-iterating")
        seen = []
        for i, ds in enumerate(self.g):
            seen.append(ds.channum)
            if i % op["every"] == 0:
                self.g.set_chan_bad(ds.channum, op["why"])
        want = [c for c in self.open_chans if c not in self.marks]
        if seen != want:
            raise Violation("wrong-iteration", f"a loop that marks channels saw {seen}, expected {want}")
        for i, c in enumerate(want):
            if i % op["every"] == 0:
                self.marks[c] = [op["why"]]

    def do_refuse(self, op):
        """A channel this group does not have."""
        if self.cache == "cache-ro":
            return
        try:
            self.g.set_chan_bad(op["chan"], "no such channel")
        except KeyError:
            self.ctx.probe("refused")
        self.g.set_chan_good(op["chan"])

    def do_restart(self, op):
        close(self.g)
        self.reopen(op["how"], op["r"])
        self.ctx.probe("restart")
