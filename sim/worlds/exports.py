"""P20: histograms, coadded histograms and exported files hold exactly the selected pulses of exactly the good channels."""
import os

import h5py
import numpy as np

from ..daq import T0_NS, attribution, expected_labels, off_cfg
from ..engine import Violation, World
from ..faults import SimKill
from ..tes import TesSetup, close, tes_cfg
from .off_group import OffSetup
from .off_reader import off_truth, same
from .triggers import nearest

LABELS = ["A", "B", "A", "C", "START", "PAUSE", "IGNORE", "µ beam"]
CUT = {"cutFV": (lambda filtValue: filtValue < 2000), "cutRSD": (lambda residualStdDev: residualStdDev < 10),
       "cutPM": (lambda pulseMean: pulseMean > 100)}
TIMINGS = (("after_last", 1), ("until_next", 2), ("from_nearest", 4))


def count(values, edges):
    """The definition of a histogram: [a, b) for each bin, the last one closed; no other value counts."""
    v = np.asarray(values, dtype=np.float64)
    return np.array([int(np.sum((v >= a) & ((v < b) if i < len(edges) - 2 else (v <= b)))) for i, (a, b) in enumerate(zip(edges[:-1], edges[1:]))],
                    dtype=int)


def pick_edges(rng):
    q = rng.random()
    if q < .5:
        lo = rng.choice([-50, 0, 500, 990])
        return [float(lo + i * rng.choice([1, 50, 333])) for i in range(1)] + [float(lo + (i + 1) * 250) for i in range(rng.randrange(1, 12))]
    return sorted({float(rng.randrange(-10, 4000)) for _ in range(rng.randrange(2, 10))} | {0., 5000.})


class OffExports(World):
    name = "off_exports"
    real = ("mass.off.channels (Channel.hist, ChannelGroup.hist/hists, histsToHDF5, energyTimestampLabelToHDF5, cuts, states, external triggers)",
            "h5py/HDF5 output files")
    stub = ("DAQ program (growing OFF, state and trigger files)", "failing, interrupting or last writes of the exported file")
    rule = ("an OFF group over growing files with repeated and excluded states, cuts, differing default cuts, an energy recipe, channels marked bad and "
            "good, trigger timing; histograms and exports at random points, exports hit by a failing or interrupting write and repeated")
    must_reach = ("repeated-state", "no-states", "empty-state", "default-cuts-differ", "bad-left-out", "export-failed", "export-interrupted", "triggers-exported",
                  "inverted-cut", "grown")

    def generate(self, rng, tier):
        nch = rng.choice([1, 2, 2, 3])
        base = off_cfg(rng, rows=rng.choice([1, 4, 30]), period=rng.choice([1e-5, 9.6e-6]))
        base["has_subdiv"] = True
        chans = [dict(base, seed=rng.randrange(2**31), row=i) for i in range(nch)]
        chs = [2 * i + 1 for i in range(nch)]
        labels = rng.sample(LABELS, rng.randrange(1, 6)) if rng.random() < .85 else [rng.choice(["START", "IGNORE"])]

        def fault():
            if rng.random() > .35:
                return None
            return {"seam": "h5", "k": rng.randrange(1, 12 * nch), "kind": rng.choice(["kbi", "EIO", "ENOSPC", "kill"]), "when": rng.choice(["before", "after"]),
                    "sticky": rng.random() < .3}

        def cut():
            return rng.choice([None, None, None, "cutNone", *CUT, *("!" + c for c in CUT)])
        ops = [{"op": "label", "label": rng.choice(labels)}]
        for ch in chs:
            ops.append({"op": "rec", "ch": ch, "n": rng.randrange(1, 6), "dt": rng.choice([1000, 10**6])})
        ops.append({"op": "start", "mode": rng.choice(["auto", "auto", "auto", [], ["START"], ["A"]])})
        for _ in range(rng.randrange(5, 26)):
            r = rng.random()
            if r < .2:
                ops.append({"op": "label", "label": rng.choice(labels)})
            elif r < .4:
                ops.append({"op": "rec", "ch": rng.choice(chs), "n": rng.choice([1, 2, 5, 9]), "dt": rng.choice([1000, 10**6])})
            elif r < .5:
                ops.append({"op": "refresh"})
            elif r < .57:
                ops.append({"op": rng.choice(["bad", "good"]), "ch": rng.choice(chs)})
            elif r < .64:
                ops.append({"op": "default", "ch": rng.choice([*chs, None]), "cut": rng.choice(["cutNone", *CUT])})
            elif r < .7:
                ops.append({"op": "trig", "n": rng.choice([0, 1, 2, 10]), "which": rng.randrange(1, 8)})
            elif r < .86:
                ops.append({"op": rng.choice(["hist", "ghist", "ghists"]), "ch": rng.choice(chs), "attr": rng.choice(["filtValue", "energy", "pulseMean", "gap"]),
                            "edges": pick_edges(rng), "states": [rng.randrange(8) for _ in range(rng.choice([0, 0, 1, 1, 2]))], "cut": cut(),
                            "scale": rng.choice([None, None, 1.5]), "sel": rng.random() < .3})
            else:
                ops.append({"op": rng.choice(["xhist", "xhist", "xtime"]), "attr": rng.choice(["filtValue", "energy", "gap"]), "edges": pick_edges(rng),
                            "cut": cut(), "fault": fault()})
        ops += [{"op": "good", "ch": ch} for ch in chs if rng.random() < .5]
        ops += [{"op": "refresh"}, {"op": "xhist", "attr": "energy", "edges": pick_edges(rng), "cut": cut(), "fault": fault()},
                {"op": "xtime", "cut": cut(), "fault": fault()}]
        return {"chans": chans, "ops": ops}

    def shrink_config(self, plan):
        return [dict(plan, chans=plan["chans"][:-1])] if len(plan["chans"]) > 1 else []

    # -- the model -----------------------------------------------------------------------------------
    @staticmethod
    def energy(filtValue):
        return filtValue * np.float32(1.25) + np.float32(3)

    @staticmethod
    def gap(filtValue, pulseMean):
        """An indicator that is not a number for some pulses."""
        with np.errstate(invalid="ignore"):
            return np.sqrt(filtValue - pulseMean)

    def raw(self, st, ch):
        return off_truth(st["env"].streams[ch], st["n"][ch])[0]

    def values(self, raw, attr):
        if attr == "energy":
            return self.energy(raw["filtValue"])
        if attr == "gap":
            return self.gap(raw["filtValue"], raw["pulseMean"])
        return raw[attr]

    @staticmethod
    def mask(raw, cut):
        base = cut.lstrip("!")
        if base == "cutNone":
            m = np.ones(len(raw["filtValue"]), dtype=bool)
        else:
            f = CUT[base]
            m = np.asarray(f(raw[f.__code__.co_varnames[0]]), dtype=bool)
        return ~m if (len(cut) - len(base)) % 2 else m

    def labels(self, st):
        return expected_labels(st["entries"], st["mode"], {})

    def rows(self, st, ch, states):
        n = st["n"][ch]
        if states is None:
            return np.arange(n)
        who = attribution(st["env"].times(ch, n), st["entries"], st["mode"], {})
        return np.array([i for s in states for i in range(n) if who[i] == s], dtype=int)

    def select(self, st, ch, attr, states, cut):
        raw, r = self.raw(st, ch), self.rows(st, ch, states)
        m = self.mask(raw, cut or st["default"][ch])
        return np.asarray(self.values(raw, attr))[r[m[r]]]

    def good(self, st):
        return [ch for ch in st["env"].streams if ch not in st["bad"]]

    # -- steps ---------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        env = OffSetup(plan, ctx)
        st = {"env": env, "bad": set(), "default": {ch: "cutNone" for ch in env.streams}, "g": None, "files": 0, "trig": [], "which": 0, "timed": {},
              "div": plan["chans"][0]["subdiv"], "period": plan["chans"][0]["period"]}
        st["tpath"] = ctx.path("run_external_trigger.bin")
        st["tnext"] = 100 * st["div"]
        for op in plan["ops"]:
            k = op["op"]
            if k == "label":
                env.tick(7)
                env.label(op["label"])
                env.tick(7)
            elif k == "rec":
                env.records(op["ch"], op["n"], op["dt"])
            elif k == "start":
                if st["g"] is None and all(s.records for s in env.streams.values()) and env.state.entries:
                    self.start(op, st, mass)
            elif st["g"] is not None:
                getattr(self, "do_" + k)(op, st, ctx)
                ctx.event(k, len(st["bad"]))

    def start(self, op, st, mass):
        env = st["env"]
        env.flush_all()
        esf = mass.off.ExperimentStateFile(filename=env.state_path, excludeStates=op["mode"])
        st["g"] = mass.off.ChannelGroup(list(env.names), verbose=False, experimentStateFile=esf)
        st["mode"] = op["mode"]
        self.taken(st)
        for ds in st["g"].values():
            ds.recipes.add("energy", self.energy)
            ds.recipes.add("gap", self.gap)
            for name, f in CUT.items():
                ds.cutAdd(name, f)

    def taken(self, st):
        env = st["env"]
        st["entries"] = list(env.labels_on_disk())
        st["n"] = {ch: st["n"][ch] if ch in st["bad"] else w.complete_records for ch, w in env.writers.items()}  # noqa: B020

    def do_refresh(self, op, st, ctx):
        if not self.good(st):
            return
        st["env"].flush_all()
        old = dict(st["n"])
        st["g"].refreshFromFiles()
        self.taken(st)
        if st["n"] != old:
            ctx.probe("grown")

    def do_bad(self, op, st, ctx):
        st["g"][op["ch"]].markBad("test")
        st["bad"].add(op["ch"])

    def do_good(self, op, st, ctx):
        st["g"][op["ch"]].markGood()
        if op["ch"] in st["bad"]:
            st["bad"].discard(op["ch"])
            self.do_refresh(op, st, ctx)

    def do_default(self, op, st, ctx):
        for ch in self.good(st):
            if op["ch"] in {None, ch}:
                st["g"][ch].cutSetDefault(op["cut"])
                st["default"][ch] = op["cut"]

    def do_trig(self, op, st, ctx):
        new = not st["which"]
        for i in range(op["n"]):
            st["tnext"] += st["div"] * (17 + 13 * i)
            st["trig"].append(st["tnext"])
        with open(st["tpath"], "wb") as f:
            f.write(b"# external trigger frame counts\n" + np.array(st["trig"], dtype=np.int64).tobytes())
        st["which"] |= op["which"]
        self.time_triggers(st)
        ctx.event("trig", new)

    def time_triggers(self, st):
        if not self.good(st):
            return
        w = st["which"]
        st["g"].calcExternalTriggerTiming(after_last=bool(w & 1), until_next=bool(w & 2), from_nearest=bool(w & 4))
        for ch in self.good(st):
            frames = [r["framecount"] * st["div"] for r in st["env"].streams[ch].records[:st["n"][ch]]]
            last, until = nearest(frames, st["trig"])
            st["timed"][ch] = {n: v * st["period"] / st["div"] for (n, b), v in zip(TIMINGS, (last, until, np.minimum(last, until))) if w & b}

    def pick_states(self, op, st):
        labels = self.labels(st)
        if not labels or not op["states"]:
            return None
        return list(dict.fromkeys(labels[i % len(labels)] for i in op["states"]))

    def probes(self, st, ctx, states, cut, ch):
        for s in states or []:
            if sum(lab == s for _, lab in st["entries"]) > 1:
                ctx.probe("repeated-state")
            if not len(self.rows(st, ch, [s])):
                ctx.probe("empty-state")
        if cut and cut.startswith("!"):
            ctx.probe("inverted-cut")
        if len({st["default"][c] for c in self.good(st)}) > 1:
            ctx.probe("default-cuts-differ")
        if not self.labels(st):
            ctx.probe("no-states")
        if st["bad"]:
            ctx.probe("bad-left-out")

    @staticmethod
    def centers(edges):
        e = np.array(edges)
        return (e[1:] + e[:-1]) * .5

    def compare(self, got, values, edges, what):
        x, c = got
        want = count(values, edges)
        if not same(np.asarray(x), self.centers(edges)):
            raise Violation("wrong-bins", f"{what}: bin centers {x}")
        if not np.array_equal(np.asarray(c), want):
            raise Violation("wrong-histogram", f"{what}: counts {list(c)}, expected {list(want)} of {len(values)} selected pulses")

    def do_hist(self, op, st, ctx):
        ch = op["ch"]
        if ch in st["bad"]:
            return
        states = self.pick_states(op, st)
        self.probes(st, ctx, states, op["cut"], ch)
        arg = states[0] if states and len(states) == 1 else states
        k = op["scale"]
        v = self.select(st, ch, op["attr"], states, op["cut"])
        got = st["g"][ch].hist(op["edges"], op["attr"], arg, op["cut"], **({"calibration": lambda x: x * k} if k else {}))
        self.compare(got, v * k if k else v, op["edges"], f"channel {ch} {op['attr']} in {states} with cut {op['cut']}")

    def do_ghist(self, op, st, ctx):
        good = self.good(st)
        if not good:
            return
        states = self.pick_states(op, st)
        self.probes(st, ctx, states, op["cut"], good[0])
        v = np.concatenate([self.select(st, ch, op["attr"], states, op["cut"]) for ch in good])
        self.compare(st["g"].hist(op["edges"], op["attr"], states, op["cut"]), v, op["edges"], f"sum of channels {good} {op['attr']} in {states}, cut {op['cut']}")

    def do_ghists(self, op, st, ctx):
        good = self.good(st)
        if not good:
            return
        states = self.pick_states(op, st)
        self.probes(st, ctx, states, op["cut"], good[0])
        chans = good[:1] if op["sel"] else good
        x, d = st["g"].hists(op["edges"], op["attr"], states, op["cut"], **({"channums": chans} if op["sel"] else {}))
        if list(d) != chans:
            raise Violation("wrong-channels", f"histograms of channels {list(d)}, expected {chans}")
        for ch in chans:
            self.compare((x, d[ch]), self.select(st, ch, op["attr"], states, op["cut"]), op["edges"], f"channel {ch} {op['attr']} in {states}, cut {op['cut']}")

    # -- exports -------------------------------------------------------------------------------------
    def export(self, op, st, ctx, call, check):
        """Export, perhaps disturbed; what is left good and reported done is checked, then the export is repeated undisturbed."""
        if not self.good(st):
            return
        if st["timed"]:
            self.time_triggers(st)      # after the files have grown, timing has to be computed again
        g = st["g"]
        for fault in [op["fault"], None] if op["fault"] else [None]:
            path = ctx.path(f"export{st['files']}.hdf5")
            st["files"] += 1
            failed = done = False
            with h5py.File(path, "w") as h:
                try:
                    with ctx.armed(fault) as a:
                        call(h)
                    done = True
                except (KeyboardInterrupt, SimKill):
                    ctx.probe("export-interrupted")
                except OSError:
                    if fault is None:
                        raise
                    failed = True
            lost = [ch for ch in self.good(st) if g[ch].markedBadBool]
            if lost and fault is None or any(ch in lost for ch in st["bad"]):
                raise Violation("channel-failed", f"{dict(g.whyChanBad)}")
            if fault and a.fired and fault["kind"] in {"EIO", "ENOSPC"}:
                ctx.probe("export-failed")
                if done and not failed and not lost:
                    raise Violation("error-swallowed", "a write of the export failed, and neither an error nor a bad channel tells")
            if done and len(lost) < len(self.good(st)):
                was = set(st["bad"])
                st["bad"] |= set(lost)
                with h5py.File(path, "r") as h:
                    check(h)
                st["bad"] = was
            for ch in lost:
                g[ch].markGood()
            os.remove(path)

    def read_hist(self, grp, values, edges, what, prefix="", centers="bin_centers"):
        for k in (centers, "counts"):
            if prefix + k not in grp:
                raise Violation("export-incomplete", f"{what}: {prefix + k} is missing")
        self.compare((grp[prefix + centers][()], grp[prefix + "counts"][()]), values, edges, what)

    def do_xhist(self, op, st, ctx):
        edges = np.array(op["edges"])
        labels = self.labels(st)

        def check(h):
            good = self.good(st)
            for ch in good:
                self.probes(st, ctx, labels, op["cut"], ch)
            for ch in [*st["bad"]]:
                if str(ch) in h and "counts" in h[str(ch)] and ch in before:
                    raise Violation("bad-channel-exported", f"channel {ch}")
            cut = op["cut"] or st["default"][good[0]]
            if op["cut"] is None and st["default"][good[0]] != cut0:
                return      # the channel whose default cut was to be used has failed
            groups = [(str(ch), [ch]) for ch in good] + [("all_channels", good)]
            for name, chans in groups:
                if name not in h:
                    raise Violation("export-incomplete", f"group {name} is missing")
                for states in [None, *([s] for s in labels)]:
                    v = np.concatenate([self.select(st, ch, op["attr"], states, cut) for ch in chans])
                    what = f"exported {name} {op['attr']} in {states} with cut {cut}"
                    if states is None:
                        self.read_hist(h[name], v, edges, what, centers="bin_centers_ev")
                    else:
                        self.read_hist(h[name], v, edges, what, prefix=states[0] + "/")
        before = set(st["bad"])
        if not self.good(st):
            return
        cut0 = st["default"][self.good(st)[0]]
        self.export(op, st, ctx, lambda h: st["g"].histsToHDF5(h, edges, op["attr"], op["cut"]), check)

    def do_xtime(self, op, st, ctx):
        labels = self.labels(st)

        def check(h):
            for ch in self.good(st):
                self.probes(st, ctx, labels, op["cut"], ch)
                raw, cut = self.raw(st, ch), op["cut"] or st["default"][ch]
                if str(ch) not in h:
                    raise Violation("export-incomplete", f"channel {ch} is missing")
                grp = h[str(ch)]
                for states in [[s] for s in labels] or [None]:
                    r = self.rows(st, ch, states)
                    r = r[self.mask(raw, cut)[r]]
                    p = states[0] + "/" if states else ""
                    want = {"energy": self.values(raw, "energy")[r], "unixnano": raw["unixnano"][r]}
                    if states and ch in st["timed"]:
                        want.update({f"seconds_{n}_external_trigger": v[r] for n, v in st["timed"][ch].items()})
                        ctx.probe("triggers-exported")
                    for k, v in want.items():
                        if p + k not in grp:
                            raise Violation("export-incomplete", f"channel {ch}: {p + k} is missing")
                        x = grp[p + k][()]
                        if x.shape != v.shape or not (np.allclose(x, v, rtol=1e-12, atol=0) if k.startswith("seconds") else same(x, v)):
                            raise Violation("wrong-export", f"channel {ch} {p + k} with cut {cut}: {x[:5]} ({x.shape}), expected {v[:5]} ({v.shape})")
                for k, v in (("off_filename", st["env"].names[list(st["env"].streams).index(ch)]), ("used_cut_recipe_name", cut)):
                    x = grp[k][()]
                    if (x.decode() if isinstance(x, bytes) else x) != v:
                        raise Violation("wrong-export", f"channel {ch} {k}: {x}, expected {v}")
        self.export(op, st, ctx, lambda h: st["g"].energyTimestampLabelToHDF5(h, op["cut"]), check)


class TesExports(World):
    name = "tes_exports"
    real = ("mass.core.channel.MicrocalDataSet.hist, count_rate", "mass.core.channel_group.TESGroup (hist, hists, save_pulse_energies_ascii)", "mass.core.cut",
            "h5py/HDF5 cache files")
    stub = ("DAQ program (LJH and state files)", "full disk while the energies are written")
    rule = ("a TESGroup with random energies (some not numbers), cuts, categories, states, bad channels, reopening; histograms by time range, category and user "
            "function, and energies as text, the disk filling up at a random byte")
    must_reach = ("nan", "time-range", "category", "state", "user-function", "bad-left-out", "disk-full", "reopened", "no-good-channel")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, nchan=rng.choice([1, 2, 3]), npulses=rng.choice([12, 30]), nsamp=16, noise=False, states=rng.random() < .7, version="2.2.0", tail=0)
        cfg["npre"] = 6
        ops = [{"op": "energy", "i": i, "seed": rng.randrange(2**31), "nan": rng.choice([0, 0, .2, 1])} for i in range(cfg["nchan"])]
        ops += [{"op": "category"}]
        for _ in range(rng.randrange(3, 16)):
            r = rng.random()
            if r < .12:
                ops.append({"op": "energy", "i": rng.randrange(3), "seed": rng.randrange(2**31), "nan": rng.choice([0, 0, .2, 1])})
            elif r < .3:
                ops.append({"op": "cut", "i": rng.randrange(3), "seed": rng.randrange(2**31), "p": rng.choice([0, .1, .5, 1]),
                            "name": rng.choice(["user1", "user2"])})
            elif r < .36:
                ops.append({"op": rng.choice(["bad", "bad", "good"]), "i": rng.randrange(3)})
            elif r < .42:
                ops.append({"op": "reopen"})
            elif r < .8:
                ops.append({"op": rng.choice(["hist", "ghist", "ghists"]), "i": rng.randrange(3), "edges": pick_edges(rng),
                            "attr": rng.choice(["p_energy", "p_energy", "p_filt_value"]), "t": rng.choice([None, None, [rng.random(), rng.random()]]),
                            "cat": rng.choice([None, None, "kind:one", "kind:two", "kind:uncategorized", "state:A", "state:B", "state:C",
                                               "state:uncategorized"]), "func": rng.choice([None, None, 2, 3])})
            else:
                ops.append({"op": "ascii", "fault": {"seam": "disk", "k": rng.randrange(0, 400), "kind": "ENOSPC"} if rng.random() < .5 else None})
        ops.append({"op": "ascii", "fault": None})
        return {"cfg": cfg, "ops": ops}

    def shrink_config(self, plan):
        for k, v in (("npulses", 12), ("nchan", 1), ("subdiv", 1), ("states", False)):
            if plan["cfg"][k] != v:
                yield dict(plan, cfg=dict(plan["cfg"], **{k: v}))

    def execute(self, plan, ctx):
        import mass
        S = TesSetup(plan["cfg"], ctx)
        n = {ch: len(s.records) for ch, s in S.streams.items()}
        st = {"bad": set(), "v": {(a, ch): np.zeros(n[ch], np.float32) for ch in n for a in ("p_energy", "p_filt_value")},
              "cut": {ch: {} for ch in n}, "kind": {}, "n": n, "S": S, "ctx": ctx, "held": []}
        g = S.open(mass)
        try:
            g.summarize_data()
            for op in plan["ops"]:
                k, ch = op["op"], S.chans[op.get("i", 0) % len(S.chans)]
                ds = g.channel[ch]
                if k == "reopen":
                    close(g)
                    g = S.open(mass)
                    ctx.probe("reopened")
                elif k == "energy":
                    rng = np.random.default_rng(op["seed"])
                    for a in ("p_energy", "p_filt_value"):
                        v = np.round(rng.uniform(-100, 4000, n[ch]) * rng.choice([1, 4])) / 4
                        v[rng.random(n[ch]) < op["nan"]] = np.nan
                        getattr(ds, a)[:] = v
                        st["v"][a, ch] = v.astype(np.float32)
                elif k == "category":
                    g.register_categorical_cut_field("kind", ["one", "two"])
                    for c in S.chans:
                        m = np.arange(n[c]) % 5
                        g.channel[c].cuts.cut_categorical("kind", {"one": m == 1, "two": (m == 2) | (m == 4)})
                        st["kind"][c] = np.where(m == 1, "one", np.where((m == 2) | (m == 4), "two", "uncategorized"))
                elif k == "cut":
                    f = op["name"]
                    if f not in st.setdefault("fields", set()):
                        g.register_boolean_cut_fields(f)
                        st["fields"].add(f)
                    m = np.random.default_rng(op["seed"]).random(n[ch]) < op["p"]
                    ds.cuts.cut(f, m)
                    st["cut"][ch].setdefault(f, np.zeros(n[ch], bool))
                    st["cut"][ch][f] |= m
                elif k == "bad":
                    g.set_chan_bad(ch, "test")
                    st["bad"].add(ch)
                elif k == "good":
                    g.set_chan_good(ch)
                    st["bad"].discard(ch)
                else:
                    getattr(self, "do_" + k)(op, st, ch, g)
                    self.untouched(st)
                ctx.event(k, len(st["bad"]))
        finally:
            close(g)

    def chosen(self, op, st, ch):
        """Which pulses of a channel are selected; None where the harness cannot tell."""
        S, ctx, n = st["S"], st["ctx"], st["n"][ch]
        m = ~np.any([*st["cut"][ch].values(), np.zeros(n, bool)], axis=0)
        us = np.array([r["usec"] for r in S.streams[ch].records], dtype=np.int64)
        if op.get("t"):
            lo, hi = self.limits(op, st)
            m &= (us / 1e6 > lo) & (us / 1e6 < hi)
            ctx.probe("time-range")
        if op.get("cat"):
            field, name = op["cat"].split(":")
            if field == "kind":
                m &= st["kind"][ch] == name
                ctx.probe("category")
            else:
                who = attribution([int(u) * 1000 for u in us], [e[:2] for e in S.state.entries], "auto", {})
                m &= np.array([(w or "uncategorized") == name for w in who])
                ctx.probe("state")
        if op.get("func"):
            m &= np.arange(n) % op["func"] == 0
            ctx.probe("user-function")
        return m

    def limits(self, op, st):
        """A time range whose ends fall between the microseconds of the pulses."""
        span = (T0_NS // 1000, T0_NS // 1000 + st["ctx"].sim_ns // 1000)
        a, b = sorted(int(span[0] + x * (span[1] - span[0])) for x in op["t"])
        return (a + .5) / 1e6, (b + .5) / 1e6

    def kwargs(self, op, st):
        kw = {"attr": op["attr"]}
        if op["t"]:
            kw["t0"], kw["tlast"] = self.limits(op, st)
        if op["cat"]:
            kw["category"] = dict([op["cat"].split(":")])
        if op["func"]:
            # a user's function may keep its vectors and give them out again
            held = {ch: np.arange(n) % op["func"] == 0 for ch, n in st["n"].items()}
            st["held"].append((op["func"], held))
            kw["g_func"] = lambda ds: held[ds.channum]
        return kw

    @staticmethod
    def untouched(st):
        for func, held in st["held"]:
            for ch, v in held.items():
                if not np.array_equal(v, np.arange(st["n"][ch]) % func == 0):
                    raise Violation("input-changed", f"a histogram of channel {ch} has changed the vector that the user's function returned")
        st["held"].clear()

    def usable(self, op, st, chans):
        """States are known only with a state file; the border of a state within a microsecond of a pulse is left to P04."""
        if op["cat"] and op["cat"].startswith("state"):
            if st["S"].state is None:
                return False
            for ch in chans:
                for r in st["S"].streams[ch].records:
                    t = 1000 * int(r["usec"])
                    if any(abs(t - et) < 2000 for et, *_ in st["S"].state.entries):
                        return False
            labels = expected_labels([e[:2] for e in st["S"].state.entries], "auto", {})
            return op["cat"].split(":")[1] in [*labels, "uncategorized"]
        return not op["cat"] or bool(st["kind"])

    def compare(self, x, c, op, values, what):
        e = np.array(op["edges"])
        if not same(np.asarray(x), (e[1:] + e[:-1]) * .5):
            raise Violation("wrong-bins", f"{what}: bin centers {x}")
        want = count(values, op["edges"])
        if not np.array_equal(np.asarray(c), want):
            raise Violation("wrong-histogram", f"{what}: counts {list(c)}, expected {list(want)}")

    def do_hist(self, op, st, ch, g):
        if not self.usable(op, st, [ch]):
            return
        v = st["v"][op["attr"], ch]
        if np.isnan(v).any():
            st["ctx"].probe("nan")
        x, c = g.channel[ch].hist(op["edges"], **self.kwargs(op, st))
        self.compare(x, c, op, v[self.chosen(op, st, ch)], f"channel {ch} {op}")

    def do_ghist(self, op, st, ch, g):
        good = self.good(st)
        if not self.usable(op, st, st["n"]):
            return
        x, c = g.hist(op["edges"], **self.kwargs(op, st))
        v = np.concatenate([np.zeros(0), *[st["v"][op["attr"], k][self.chosen(op, st, k)] for k in good]])
        self.compare(x, c, op, v, f"sum of channels {good} {op}")

    def do_ghists(self, op, st, ch, g):
        good = self.good(st)
        if not self.usable(op, st, st["n"]):
            return
        x, d = g.hists(op["edges"], **self.kwargs(op, st))
        if sorted(d) != sorted(good):
            raise Violation("wrong-channels", f"histograms of {sorted(d)}, good channels are {good}")
        for k in good:
            self.compare(x, d[k], op, st["v"][op["attr"], k][self.chosen(op, st, k)], f"channel {k} of hists {op}")

    def good(self, st):
        good = [ch for ch in st["n"] if ch not in st["bad"]]
        if st["bad"]:
            st["ctx"].probe("bad-left-out" if good else "no-good-channel")
        return good

    def do_ascii(self, op, st, ch, g):
        ctx, good = st["ctx"], self.good(st)
        path = ctx.path("out")
        want = np.concatenate([np.zeros(0), *[st["v"]["p_energy", k][self.chosen({}, st, k)] for k in good]]).astype(np.float64)
        for fault in [op["fault"], None] if op["fault"] else [None]:
            try:
                with ctx.armed(fault) as a:
                    g.save_pulse_energies_ascii(path)
            except OSError:
                if fault is None:
                    raise
                ctx.probe("disk-full")
                continue
            with open(path + ".energies") as f:
                got = np.array([float(x) for x in f.read().split()])
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=0, equal_nan=True):
                kind = "error-swallowed" if fault and a.fired else "wrong-export"
                raise Violation(kind, f"{len(got)} energies written, {len(want)} selected: {got[:5]}, expected {want[:5]}")
