"""P21: which files a group takes in: found by list or pattern, paired, named and attributed by run and channel."""
import fnmatch
import gc
import glob
import os
import re

import numpy as np

from ..daq import LJHStream, OffStream, StateStream, off_cfg
from ..engine import Violation, World
from ..tes import close

RUNS = ["run", "run_b", "run2", "a_chan7_run", "a_chan7_two", "a", "r[0-9]", "my run", "noise_chan", "µ-x", "run_noise"]
CHANS = [1, 2, 3, 9, 10, 11, 21, 100, 7]
PLACES = ["data", "da ta", "x_chan7_dir", "d[1]", "µ", "data.ljh"]


def split(name):
    """(basename, channel): by the last _chan<number> of the file's own name."""
    d, f = os.path.split(name)
    m = list(re.finditer(r"_chan(\d+)", f))
    return (os.path.join(d, f[:m[-1].start()]), int(m[-1].group(1))) if m else (os.path.splitext(name)[0], None)


class FileNames(World):
    name = "file_names"
    real = ("mass.core.channel_group.TESGroup (choice, order and pairing of files)", "mass.core.ljh_util", "mass.off.channels (getOffFileListFromOneFile, "
            "ChannelGroup)", "file system (tmpfs)")
    stub = ("DAQ program (files of several runs, appearing in any order)", "failing open()")
    rule = ("directories of several runs (names sharing beginnings, with _chan, spaces, brackets), pulse and noise files of different channels, empty files, "
            "other files, files appearing between steps; groups opened by pattern, list or tuple in any order, absolute or relative, with channels chosen, "
            "left out or limited, noise only; failing opens")
    must_reach = ("pattern", "shuffled", "paired", "unpaired", "never", "only", "limited", "noise-only", "relative", "duplicate-refused", "nothing-left", "skipped-empty",
                  "open-failed", "off", "grown", "several-runs-match")

    def generate(self, rng, tier):
        runs = []
        for name in rng.sample(RUNS, rng.randrange(2, 5)):
            runs.append({"name": name, "chans": rng.sample(CHANS, rng.randrange(1, 6)), "kind": rng.choice(["ljh", "ljh", "off"]),
                         "state": rng.random() < .6, "trig": rng.random() < .6, "ext": rng.choice(["ljh", "ljh", "noi"])})
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < .15:
                ops.append({"op": "add", "run": rng.randrange(4), "ch": rng.choice(CHANS), "n": rng.choice([0, 2, 4])})
            elif r < .7:
                sel = rng.random()
                ops.append({"op": "open", "run": rng.randrange(4), "noise": rng.choice([None, 0, 1, 2, 3]), "form": rng.choice(["pattern", "pattern", "list", "tuple"]),
                            "nform": rng.choice(["pattern", "list", "tuple"]), "seed": rng.randrange(2**31), "wide": rng.random() < .1,
                            "never": rng.sample(CHANS, 2) if rng.random() < .25 else None, "only": rng.sample(CHANS, 4) if rng.random() < .25 else None,
                            "max": rng.choice([1, 2, 3, 99]) if rng.random() < .25 else None, "noise_only": rng.random() < .2, "subset": sel < .3,
                            "fault": {"seam": "open", "k": rng.randrange(1, 14), "kind": rng.choice(["EIO", "EMFILE", "EACCES"])} if rng.random() < .2 else None})
            elif r < .85:
                ops.append({"op": "off", "run": rng.randrange(4), "i": rng.randrange(6), "max": rng.choice([None, None, 1, 2, 9])})
            else:
                ops.append({"op": "util", "run": rng.randrange(4), "other": rng.randrange(4), "i": rng.randrange(6), "seed": rng.randrange(2**31)})
        return {"place": rng.choice(PLACES), "runs": runs, "ops": ops, "relative": rng.choice([None, None, "", "./"]), "off": off_cfg(rng),
                "empty": rng.random() < .2, "junk": rng.random() < .6}

    def shrink_config(self, plan):
        for k, v in (("place", "data"), ("relative", None), ("empty", False), ("junk", False)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        for i, r in enumerate(plan["runs"]):
            for c in r["chans"]:
                if len(r["chans"]) > 1:
                    yield dict(plan, runs=[dict(x, chans=[y for y in x["chans"] if y != c]) if j == i else x for j, x in enumerate(plan["runs"])])

    # -- the directory ---------------------------------------------------------------------------
    def put(self, st, run, ch, n):
        """The DAQ program writes the file of one channel."""
        seed = 1000 * st["runs"].index(run) + ch
        name = f"{run['name']}_chan{ch}.{'off' if run['kind'] == 'off' else run['ext']}"
        if name in st["files"]:
            return
        if run["kind"] == "off":
            s = OffStream(dict(st["plan"]["off"], seed=seed, row=0))
            for _ in range(max(1, n)):
                s.add(dt_ns=1000)
        else:
            s = LJHStream({"version": "2.2.0", "client": None, "source": None, "nsamp": 16, "npre": 6, "timebase": 1e-5, "rows": 1, "cols": 1, "row": 0, "col": 0,
                           "subdiv": 4, "suboff": 0, "eol": "lf", "seed": seed, "noise": False})
            for _ in range(n):
                s.add()
        with open(os.path.join(st["dir"], name), "wb") as f:
            f.write(bytes(s.bytes))
        st["files"][name] = s

    def execute(self, plan, ctx):
        import mass
        st = {"plan": plan, "ctx": ctx, "runs": plan["runs"], "files": {}, "dir": ctx.path(plan["place"]), "aux": {}}
        os.makedirs(st["dir"])
        for i, run in enumerate(plan["runs"]):
            for j, ch in enumerate(run["chans"]):
                self.put(st, run, ch, 0 if plan["empty"] and j == 0 and run["kind"] == "ljh" else 3 + i)
            b = os.path.join(st["dir"], run["name"])
            if run["state"] or run["kind"] == "off":
                s = StateStream()
                s.add(0, f"L{i}")
                with open(b + "_experiment_state.txt", "wb") as f:
                    f.write(bytes(s.bytes))
            if run["trig"]:
                with open(b + "_external_trigger.bin", "wb") as f:
                    f.write(b"# external trigger\n" + np.array([100 + i, 200 + i], dtype=np.int64).tobytes())
        if plan["junk"]:
            for name in ("notes.txt", plan["runs"][0]["name"] + "_chan5.txt", plan["runs"][0]["name"] + "_chan5.ljh.bak", plan["runs"][0]["name"] + "_chan6.offset"):
                with open(os.path.join(st["dir"], name), "wb") as f:
                    f.write(b"nothing of interest\n")
            os.makedirs(os.path.join(st["dir"], plan["runs"][0]["name"] + "_chan55.d"))
        home = os.getcwd()
        rel = plan["relative"]
        st["prefix"] = rel if rel is not None else st["dir"] + "/"
        if rel is not None:
            ctx.probe("relative")
        os.chdir(st["dir"] if rel is not None else home)
        try:
            for op in plan["ops"]:
                run = plan["runs"][op["run"] % len(plan["runs"])]
                if op["op"] == "add":
                    self.put(st, run, op["ch"], op["n"])
                    ctx.probe("grown")
                else:
                    getattr(self, "do_" + op["op"])(op, run, st, mass)
                ctx.event(op["op"], run["name"])
        finally:
            os.chdir(home)

    def names(self, st, run, kinds=("ljh", "noi", "off")):
        """The run's files, by channel."""
        own = [n for n in st["files"] if split(n)[0] == run["name"] and n.rpartition(".")[2] in kinds]
        return [st["prefix"] + n for n in sorted(own, key=lambda n: split(n)[1])]

    def matching(self, st, pattern):
        """What a pattern means, without the library: the matching files of the directory, by channel number."""
        found = [n for n in os.listdir(st["dir"]) if fnmatch.fnmatchcase(n, pattern)]
        return [st["prefix"] + n for n in sorted(sorted(found), key=lambda n: split(n)[1])]

    def source(self, st, run, form, op, random):
        """(argument, its meaning as a list)"""
        ext = run["ext"]
        if form == "pattern":
            st["ctx"].probe("pattern")
            pattern = ("*" if op["wide"] else glob.escape(run["name"])) + "_chan*." + ext
            means = self.matching(st, pattern)
            if len({split(n)[0] for n in means}) > 1:
                st["ctx"].probe("several-runs-match")
            pre = st["prefix"]
            return (glob.escape(pre) if pre.startswith("/") else pre) + pattern, means
        names = self.names(st, run, ("ljh", "noi"))
        if op["subset"]:
            names = [n for n in names if random.random() < .6]
        random.shuffle(names)
        if names != sorted(names, key=lambda n: split(n)[1]):
            st["ctx"].probe("shuffled")
        return (tuple(names) if form == "tuple" else list(names)), list(names)

    def do_open(self, op, run, st, mass):
        import random
        rng, ctx, plan = random.Random(op["seed"]), st["ctx"], st["plan"]
        nrun = None if op["noise"] is None else plan["runs"][op["noise"] % len(plan["runs"])]
        if run["kind"] == "off" or nrun is not None and (nrun["kind"] == "off" or nrun is run):
            return
        arg, means = self.source(st, run, op["form"], op, rng)
        narg, nmeans = (None, None) if nrun is None or op["noise_only"] else self.source(st, nrun, op["nform"], op, rng)
        if narg is not None and op["wide"] and op["form"] == op["nform"] == "pattern":
            return      # the same files twice
        before = (list(arg) if isinstance(arg, list) else None, list(narg) if isinstance(narg, list) else None)
        # -- the definition
        refuse = not means or (nmeans is not None and isinstance(narg, str) and not nmeans)
        chosen, noise = list(means), list(nmeans) if nmeans else None
        keep = {split(n)[1] for n in chosen}
        if noise is not None:
            both = keep & {split(n)[1] for n in noise}
            ctx.probe("paired" if both else "unpaired")
            if both != keep:
                ctx.probe("unpaired")
            keep = both
        if op["never"] is not None:
            keep -= set(op["never"])
            ctx.probe("never")
        if op["only"] is not None:
            keep &= set(op["only"])
            ctx.probe("only")
        chosen = [n for n in chosen if split(n)[1] in keep]
        if noise is not None:
            noise = [n for n in noise if split(n)[1] in keep]
        for x in (chosen, noise or []):
            if len({split(n)[1] for n in x}) < len(x):
                refuse = True
                ctx.probe("duplicate-refused")
        if not refuse and noise is not None:
            d = {split(n)[1]: n for n in noise}
            noise = [d[split(n)[1]] for n in chosen]
        if op["max"] is not None:
            if op["max"] < len(chosen):
                ctx.probe("limited")
            chosen = chosen[:op["max"]]
            noise = noise[:op["max"]] if noise is not None else None
        if not chosen:
            refuse = True
            ctx.probe("nothing-left")
        kw = {k: v for k, v in (("never_use", op["never"]), ("use_only", op["only"]), ("max_chans", op["max"])) if v is not None}
        if op["noise_only"]:
            kw["noise_only"] = True
            ctx.probe("noise-only")
        listing = sorted(os.listdir(st["dir"]))
        fault = op["fault"] if plan["relative"] is None else None
        what = f"TESGroup({arg}, {narg}, {kw}) in {listing}"
        g = None
        try:
            try:
                with ctx.armed(fault) as a:
                    g = mass.TESGroup(arg, narg, **kw)
            except OSError:
                if fault is None or not a.fired:
                    raise
                ctx.probe("open-failed")
                return
            except ValueError as e:
                if not refuse:
                    raise Violation("wrongly-refused", f"{what}: {e}")
                if sorted(os.listdir(st["dir"])) != listing:
                    raise Violation("refused-but-changed", f"{what} was refused, and left {set(os.listdir(st['dir'])) - set(listing)}")
                return
            finally:
                now = (list(arg) if isinstance(arg, list) else None, list(narg) if isinstance(narg, list) else None)
                if now != before:
                    raise Violation("input-changed", f"{what}: the list given is now {now}")
            if refuse:
                raise Violation("not-refused", what)
            if fault and a.fired:
                raise Violation("error-swallowed", f"{what}: an open failed ({fault['kind']}), and the group was opened without it")
            self.check_group(g, chosen, noise, op, st, what)
        finally:
            if g is not None:
                close(g)
            g = None
            gc.collect()
            for n in os.listdir(st["dir"]):
                if n.endswith("_mass.hdf5"):
                    os.remove(os.path.join(st["dir"], n))

    def stream(self, st, name):
        return st["files"][os.path.basename(name)]

    def same_path(self, a, b):
        return os.path.abspath(a) == os.path.abspath(b)

    def check_group(self, g, chosen, noise, op, st, what):
        ctx = st["ctx"]
        full = chosen if op["noise_only"] else [n for n in chosen if self.stream(st, n).records]
        if full != chosen:
            ctx.probe("skipped-empty")
        chans = [split(n)[1] for n in full]
        if [ds.channum for ds in g.datasets] != chans:
            raise Violation("wrong-channels", f"{what}: channels {[ds.channum for ds in g.datasets]}, expected {chans}")
        for ds, name in zip(g.datasets, full):
            f = ds.noise_records.filename if op["noise_only"] else ds.filename
            if f != name:
                raise Violation("wrong-file", f"{what}: channel {ds.channum} reads {f}, expected {name}")
            s = self.stream(st, name)
            if not op["noise_only"]:
                if ds.nPulses != len(s.records) or not np.array_equal(ds.read_trace(0), s.records[0]["data"]):
                    raise Violation("wrong-file", f"{what}: channel {ds.channum} presents other pulses than those of {name}")
            if noise is not None:
                nn = noise[chosen.index(name)]
                if ds.noise_records.filename != nn or ds.noise_records.channum != ds.channum:
                    raise Violation("wrong-pairing", f"{what}: channel {ds.channum} has the noise {ds.noise_records.filename}, expected {nn}")
                if len(self.stream(st, nn).records) and not np.array_equal(ds.noise_records.datafile.alldata[0], self.stream(st, nn).records[0]["data"]):
                    raise Violation("wrong-pairing", f"{what}: channel {ds.channum} presents other noise than that of {nn}")
        base = split(chosen[0])[0] if not (op["noise_only"]) else None
        for attr, names in (("hdf5_file", None if op["noise_only"] else chosen), ("hdf5_noisefile", chosen if op["noise_only"] else noise)):
            if names:
                want = split(names[0])[0] + ("_noise" if names[0].endswith("noi") else "") + "_mass.hdf5"
                if not self.same_path(getattr(g, attr).filename, want):
                    raise Violation("wrong-cache", f"{what}: results are kept in {getattr(g, attr).filename}, expected {want}")
        if op["noise_only"]:
            return
        run = next(r for r in st["runs"] if r["name"] == os.path.basename(base))
        i = st["runs"].index(run)
        labels = [f"L{i}"] if run["state"] else None
        got = None if g.experimentStateFile is None else list(g.experimentStateFile.allLabels)
        if got != labels:
            raise Violation("wrong-states", f"{what}: labels {got}, expected {labels}")
        if run["trig"] and full and split(full[0])[0] == split(chosen[0])[0]:      # (several runs in one group)
            t = [int(x) for x in g.external_trigger_subframe_count]
            if t != [100 + i, 200 + i]:
                raise Violation("wrong-triggers", f"{what}: triggers {t} of another run")

    def do_off(self, op, run, st, mass):
        names = self.names(st, run, ("off",))
        if not names:
            return
        st["ctx"].probe("off")
        one = names[op["i"] % len(names)]
        got = mass.off.getOffFileListFromOneFile(one, **({"maxChans": op["max"]} if op["max"] else {}))
        want = names[:op["max"]] if op["max"] else names
        if list(got) != want:
            raise Violation("wrong-list", f"getOffFileListFromOneFile({one}) gives {got}, expected {want}, in {sorted(os.listdir(st['dir']))}")
        g = mass.off.ChannelGroup(got, verbose=False)
        if list(g.keys()) != [split(n)[1] for n in want]:
            raise Violation("wrong-channels", f"group of {want} has channels {list(g.keys())}")
        for n in want:
            s, ds = self.stream(st, n), g[split(n)[1]]
            if len(ds) != len(s.records) or int(ds.unixnano[0]) != s.records[0]["unixnano"] or ds.filtValue[0] != np.float32(s.records[0]["coefs"][2]):
                raise Violation("wrong-file", f"channel {ds.channum} of {want} presents other records than those of {n}")
        if list(g.stateLabels) != [f"L{st['runs'].index(run)}"]:
            raise Violation("wrong-states", f"group of {want} has states {g.stateLabels}")

    def do_util(self, op, run, st, mass):
        import random
        from mass.core import ljh_util as U
        rng = random.Random(op["seed"])
        names = self.names(st, run)
        if not names:
            return
        one = names[op["i"] % len(names)]
        chans = sorted({split(n)[1] for n in names} | ({5, 6} if st["plan"]["junk"] and run is st["runs"][0] else set()))
        self.equal("ljh_get_channels", U.ljh_get_channels(one), chans, st)
        other = st["runs"][op["other"] % len(st["runs"])]
        on = self.names(st, other)
        if on:
            both = set(chans) & ({split(n)[1] for n in on} | ({5, 6} if st["plan"]["junk"] and other is st["runs"][0] else set()))
            self.equal("ljh_get_channels_both", U.ljh_get_channels_both(one, on[0]), sorted(both), st)
        self.equal("ljh_basename_channum", U.ljh_basename_channum(one), split(one), st)
        self.equal("ljh_chan_names", U.ljh_chan_names(one, [4, 17]), [f"{split(one)[0]}_chan{c}{os.path.splitext(one)[1]}" for c in (4, 17)], st)
        every = [st["prefix"] + n for n in st["files"]]
        rng.shuffle(every)
        given = rng.choice([list, tuple])(every)
        inc = rng.choice([None, rng.sample(CHANS, 3)])
        want = [n for n in sorted(every) if inc is None or split(n)[1] in inc]
        self.equal("ljh_sort_filenames_numerically", U.ljh_sort_filenames_numerically(given, inc), sorted(want, key=lambda n: split(n)[1]), st)
        self.equal("the list given to ljh_sort_filenames_numerically", list(given), every, st)
        d = os.path.dirname(one)
        self.equal("mass_folder_from_ljh_fname", U.mass_folder_from_ljh_fname(one, "x.pkl"), os.path.join(d, "mass", "x.pkl"), st)
        self.equal("output_basename_from_ljh_fname", U.output_basename_from_ljh_fname(one), os.path.join(d, "mass_output", os.path.basename(split(one)[0])), st)
        for sub in ("mass", "mass_output"):
            if not os.path.isdir(os.path.join(st["dir"], sub)):
                raise Violation("no-folder", f"{sub} for {one}")

    @staticmethod
    def equal(what, got, want, st):
        if got != want:
            raise Violation("wrong-names", f"{what}: {got}, expected {want}, in {sorted(os.listdir(st['dir']))}")
