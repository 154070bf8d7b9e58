"""P17: whatever is opened, analysed, converted or interrupted, the raw files stay as the DAQ program wrote them."""
import contextlib
import fcntl
import gc
import io
import os
import types

import numpy as np

from ..daq import off_cfg
from ..engine import Violation, World
from ..faults import SimKill
from ..tes import TesSetup, close, tes_cfg
from ..tespipe import Pipe, gen_setup, gen_steps
from .off_group import OffSetup
from .off_reader import off_truth, same

TOOLS = ["truncate", "copy", "append", "modify", "ljh2off", "multi", "records", "loop"]
RAW = ["pulse", "noise", "off", "state", "trig"]


def gen_fault(rng, disk=False):
    q = rng.random()
    if q < .6:
        return None
    if q < .72:
        return {"seam": "line", "k": rng.choice([rng.randrange(1, 60), rng.randrange(1, 600), rng.randrange(1, 6000)]),
                "kind": rng.choice(["kbi", "kbi", "kill", "MEM"])}
    if q < .84:
        return {"seam": "open", "k": rng.randrange(1, 12), "kind": rng.choice(["EIO", "EMFILE", "EACCES"])}
    if disk and q < .95:
        return {"seam": "disk", "k": rng.choice([0, rng.randrange(3000), rng.randrange(30000)])}
    return {"seam": "h5", "k": rng.choice([rng.randrange(1, 20), rng.randrange(1, 200)]), "kind": rng.choice(["EIO", "ENOSPC", "kbi"])}


class RawFiles(World):
    name = "raw_files"
    real = ("mass.core (TESGroup, MicrocalDataSet, files, ljh_modify, ljh2off, projectors_script, pulse_model)", "mass.off (ChannelGroup, "
            "OffFile, experiment_state)", "h5py", "file system (tmpfs), mmap, flock")
    stub = ("DAQ program (LJH, OFF, state and trigger files, some growing)", "another session holding the noise cache",
            "failing open()", "full disk", "HDF5 write errors", "Ctrl-C and process death at library lines")
    rule = ("a scratch acquisition directory (also one whose path looks like a channel name) and random sequences of opening, analysis "
            "steps, off-style views, conversions, exports, attempts to write to presented data and misdirected outputs, many of them "
            "failing or interrupted; after each one every raw byte and the directory listings are compared")
    must_reach = ("misdirected-refused", "write-refused", "tes-open", "off-open", "converted", "grown", "interrupted", "locked-open",
                  "model", "step-done", "analysed-after-fault", "onto-itself")

    def generate(self, rng, tier):
        cfg = gen_setup(rng, tes_cfg, nchan=rng.choice([1, 2]), npulses=rng.choice([24, 40]), nnoise=rng.choice([16, 24]),
                        dir=rng.choice(["data", "data", "old_chan3", "chan_dir"]))
        cfg["tail"] = 0
        cfg["trigs"] = rng.choice([None, "bin", "hdf5"])
        off = [dict(off_cfg(rng), seed=rng.randrange(2**31), row=i) for i in range(rng.choice([1, 2]))]
        for c in off[1:]:
            c.update(version=off[0]["version"], nbasis=off[0]["nbasis"])
        steps = gen_steps(rng, costly=.1)
        ops = []

        def tes_open():
            o = {"op": "tes_open", "where": rng.choice(["default", "out", "out"]), "over": rng.random() < .25, "glob": rng.random() < .2,
                 "noise_only": rng.random() < .1, "bad": None, "fault": gen_fault(rng)}
            if rng.random() < .3:
                o["bad"] = [rng.choice(["hdf5", "noise"]), rng.choice(RAW), rng.randrange(2)]
            return o
        ops.append(tes_open())
        for _ in range(rng.randrange(6, 22)):
            r = rng.random()
            if r < .1:
                ops.append(tes_open())
            elif r < .4 and steps:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if steps:
                        ops.append({"op": "step", "s": steps.pop(0), "fault": gen_fault(rng)})
            elif r < .45:
                ops.append({"op": "tes_close"})
            elif r < .5:
                ops.append({"op": "lock", "which": rng.choice(["noise", "noise", "pulse"]), "where": rng.choice(["default", "out"]),
                            "over": rng.random() < .3})
            elif r < .54:
                ops.append({"op": "model", "replace": rng.random() < .6, "fault": gen_fault(rng)})
            elif r < .56:
                ops.append({"op": "script", "replace": rng.random() < .6, "fault": gen_fault(rng)})
            elif r < .6:
                ops.append({"op": "offstyle", "fault": gen_fault(rng)})
            elif r < .74:
                ops.append({"op": "tool", "kind": rng.choice(TOOLS), "src": rng.choice(["pulse", "pulse", "noise"]), "i": rng.randrange(2),
                            "dst": rng.choice(["out", "out", "out", "self", "self", "link", "exists"]), "n": rng.randrange(0, 30),
                            "over": rng.random() < .5, "fault": gen_fault(rng, disk=True)})
            elif r < .8:
                ops.append({"op": "off_open", "bad": rng.random() < .1, "fault": gen_fault(rng)})
            elif r < .88:
                w = rng.choice(["refresh", "values", "learn", "export", "book", "trig", "states", "hist"])
                ops.append({"op": "off_use", "what": w, "i": rng.randrange(2), "fault": gen_fault(rng, disk=w != "export")})
            elif r < .97:
                ops.append({"op": "scribble", "i": rng.randrange(64), "who": rng.choice(["tes", "ljh", "off", "off"]), "c": rng.randrange(2)})
            else:
                ops.append({"op": "grow", "which": rng.choice(["ljh", "off", "state"]), "i": rng.randrange(2), "n": rng.randrange(1, 4),
                            "torn": rng.choice([None, None, 5])})
        ops.append({"op": "tes_close"})
        return {"cfg": cfg, "off": off, "ops": ops}

    def shrink_config(self, plan):
        out = []
        if plan["cfg"]["nchan"] > 1:
            out.append(dict(plan, cfg=dict(plan["cfg"], nchan=1)))
        if plan["cfg"]["dir"] != "data":
            out.append(dict(plan, cfg=dict(plan["cfg"], dir="data")))
        return out

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        st = types.SimpleNamespace(mass=mass, ctx=ctx, plan=plan, raw={}, allowed=set(), out_allowed=set(), pipe=None, group=None,
                                   offg=None, model=None, faulted=False)
        cfg = plan["cfg"]
        st.dir = ctx.path(cfg["dir"])
        st.tes = TesSetup(cfg, ctx)
        st.out = ctx.path("out")
        os.makedirs(st.out)
        with open(os.path.join(st.dir, "notes.txt"), "wb") as f:
            f.write(b"do not touch")
        st.env = OffSetup({"chans": plan["off"]}, ctx, base=cfg["dir"] + "/off")
        st.env.label("A")
        for ch in st.env.streams:
            st.env.records(ch, 5, 10**6)
        st.env.label("B")
        for ch in st.env.streams:
            st.env.records(ch, 4, 10**6)
        st.env.flush_all()
        self.triggers(st)
        for n in sorted(os.listdir(st.dir)):
            with open(os.path.join(st.dir, n), "rb") as f:
                st.raw[n] = f.read()
        st.pick = {"pulse": st.tes.files, "noise": st.tes.noise_files, "off": st.env.names, "state": [st.env.state_path],
                   "trig": [os.path.join(st.dir, n) for n in sorted(st.raw) if "external_trig" in n] or st.tes.files}
        try:
            for op in plan["ops"]:
                f = op.get("fault")
                if f and f["seam"] == "disk":
                    # HDF5 itself (not this library) does not survive a full disk under an open cache
                    self.drop(st)
                    gc.collect()
                try:
                    with contextlib.redirect_stdout(io.StringIO()), ctx.armed(f) as armed:
                        getattr(self, "do_" + op["op"])(op, st)
                    ended = "ok"
                except Violation:
                    raise
                except (SimKill, KeyboardInterrupt) as e:
                    ended = type(e).__name__
                    ctx.probe("interrupted")
                except (Exception, SystemExit) as e:
                    ended = type(e).__name__
                if f and armed.fired:
                    st.faulted = True
                ctx.event(op["op"], op.get("what") or op.get("kind") or (op.get("s") or {}).get("op"), ended)
                if ended == "SimKill":
                    self.drop(st)
                if op["op"] == "step" and ended == "ok":
                    ctx.probe("step-done")
                    if st.faulted:
                        ctx.probe("analysed-after-fault")
                self.check(st, f"after {op['op']} {op.get('what') or op.get('kind') or op.get('bad') or ''}, which ended with {ended}")
        finally:
            self.drop(st)
        self.check(st, "when everything is closed")

    def triggers(self, st):
        c = st.plan["cfg"]
        if not c["trigs"]:
            return
        t = np.cumsum(np.random.default_rng(c["seed"]).integers(100, 100000, 20)).astype(np.int64)
        if c["trigs"] == "bin":
            st.tes.put_triggers("# external trigger subframecounts (nrow=1)\n", t.tobytes())
        else:
            import h5py
            with h5py.File(os.path.join(st.dir, "run_external_trig.hdf5"), "w") as h:
                h["trig_times"] = t
        with open(os.path.join(st.dir, "off_external_trigger.bin"), "wb") as f:
            f.write(b"# external trigger subframecounts\n" + t.tobytes())

    def drop(self, st):
        """The session ends."""
        if st.group is not None:
            close(st.group)
        st.group = st.offg = st.pipe = st.style = None

    # -- the invariant -----------------------------------------------------------------------------
    def check(self, st, what):
        for n, b in st.raw.items():
            p = os.path.join(st.dir, n)
            try:
                with open(p, "rb") as f:
                    now = f.read()
            except OSError as e:
                raise Violation("raw-file-lost", f"{n} {what}: {type(e).__name__}")
            if now != b:
                i = next((i for i in range(min(len(b), len(now))) if b[i] != now[i]), min(len(b), len(now)))
                raise Violation("raw-file-changed", f"{n} {what}: {len(b)} bytes before, {len(now)} now, first difference at {i}")
        extra = set(os.listdir(st.dir)) - set(st.raw) - st.allowed
        if extra:
            raise Violation("unexpected-file", f"{sorted(extra)} in the data directory {what}")
        top = set(os.listdir(st.ctx.root)) - {st.plan["cfg"]["dir"], "out"}
        if top:
            raise Violation("unexpected-file", f"{sorted(top)} outside the data and output directories {what}")
        extra = {n for n in set(os.listdir(st.out)) - st.out_allowed if not any(n.startswith(a) for a in st.out_allowed)}
        if extra:
            raise Violation("unexpected-file", f"{sorted(extra)} in the output directory {what}")

    # -- TES ---------------------------------------------------------------------------------------
    def do_tes_open(self, op, st):
        if st.group is not None:
            close(st.group)
            st.group = st.pipe = None
        kw = {"overwrite_hdf5_file": op["over"]}
        h5 = noise = None
        if op["where"] == "out":
            h5, noise = os.path.join(st.out, "a_mass.hdf5"), os.path.join(st.out, "a_noise.hdf5")
            st.out_allowed |= {"a_mass.hdf5", "a_noise.hdf5"}
        else:
            st.allowed |= {"run_mass.hdf5", "noise_mass.hdf5"}
        files, nfiles = list(st.tes.files), list(st.tes.noise_files)
        if op["glob"]:
            files, nfiles = os.path.join(st.dir, "run_chan*.ljh"), os.path.join(st.dir, "noise_chan*.ljh")
        bad = op["bad"]
        if bad:
            which, kind, i = bad
            p = st.pick[kind][i % len(st.pick[kind])]
            if kind == "trig" and p.endswith("hdf5") and op["noise_only"]:
                bad = None          # nothing says that this one belongs to the noise files
            elif which == "hdf5" and not op["noise_only"]:
                h5 = p
            else:
                noise = p
        try:
            self.open_group(op, st, files, nfiles, h5, noise, kw)
        except Exception:
            if bad:
                st.ctx.probe("misdirected-refused")
            raise
        if bad:
            raise Violation("misdirected-accepted", f"a group was opened with its {bad[0]} cache in the raw file {os.path.basename(p)}")
        st.ctx.probe("tes-open")

    def open_group(self, op, st, files, nfiles, h5, noise, kw):
        if op["noise_only"]:
            st.group = st.mass.TESGroup(nfiles, noise_only=True, hdf5_noisefilename=noise, **kw)
        else:
            st.group = st.mass.TESGroup(files, nfiles, hdf5_filename=h5, hdf5_noisefilename=noise, **kw)
            st.pipe = Pipe(st.ctx, st.mass, st.tes, "out/p")
            st.pipe.g = st.group

    def do_tes_close(self, op, st):
        if st.group is not None:
            close(st.group)
        st.group = st.pipe = None

    def do_step(self, op, st):
        if st.pipe is None or st.pipe.g is None:
            return
        st.out_allowed |= {"p_model.hdf5"}
        if op["s"]["op"] == "trig" and not st.plan["cfg"]["trigs"]:
            return
        r = st.pipe.run(0, op["s"])
        if r is not None:
            raise ValueError(r)

    def do_lock(self, op, st):
        """Another session has the cache open when this one starts; its cache has to stay whole."""
        from ..tes import tree, tree_diff
        import h5py
        self.do_tes_close(op, st)
        if op["where"] == "out":
            names = {"pulse": os.path.join(st.out, "a_mass.hdf5"), "noise": os.path.join(st.out, "a_noise.hdf5")}
            kw = {"hdf5_filename": names["pulse"], "hdf5_noisefilename": names["noise"]}
            st.out_allowed |= {"a_mass.hdf5", "a_noise.hdf5"}
        else:
            names = {"pulse": os.path.join(st.dir, "run_mass.hdf5"), "noise": os.path.join(st.dir, "noise_mass.hdf5")}
            kw = {}
        p = names[op["which"]]
        if not os.path.exists(p) or not h5py.is_hdf5(p):
            return
        try:
            with h5py.File(p, "r") as h:
                before = tree(h)
        except OSError:
            return
        with open(p, "rb") as held:
            gc.collect()
            try:
                fcntl.flock(held, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except BlockingIOError:
                return      # what is left of an interrupted step of this session still holds it
            try:
                g = st.mass.TESGroup(list(st.tes.files), list(st.tes.noise_files), overwrite_hdf5_file=op["over"], **kw)
                close(g)
                opened = True
            except OSError:
                opened = False
            finally:
                g = None
                fcntl.flock(held, fcntl.LOCK_UN)
        st.ctx.probe("locked-open")
        if opened:
            raise Violation("shared-cache", f"a cache file held by another session was opened for writing ({op['which']})")
        try:
            with h5py.File(p, "r") as h:
                d = tree_diff(before, tree(h))
        except OSError as e:
            raise Violation("cache-destroyed", f"opening a group while another session holds the {op['which']} cache destroyed it: {e}")
        if d:
            raise Violation("cache-destroyed", f"opening a group while another session holds the {op['which']} cache changed it: {d[:4]}")

    def do_model(self, op, st):
        if st.pipe is None or st.pipe.g is None:
            return
        st.allowed |= {"run_model.hdf5"}
        st.group.pulse_model_to_hdf5(n_basis=4, replace_output=op["replace"])
        st.model = os.path.join(st.dir, "run_model.hdf5")
        st.ctx.probe("model")

    def do_script(self, op, st):
        from mass.core import projectors_script
        self.do_tes_close(op, st)
        st.allowed |= {"run_model.hdf5", "run_mass.hdf5", "noise_mass.hdf5"}
        args = types.SimpleNamespace(
            pulse_path=st.tes.files[0], noise_path=st.tes.noise_files[0], output_path=None, replace_output=op["replace"], max_channels=4,
            f_3db_ats=None, f_3db_5lag=None, n_sigma_pt_rms=10000, n_sigma_max_deriv=8, n_basis=4, maximum_n_pulses=100, silent=True,
            mass_hdf5_path=None, mass_hdf5_noise_path=None, invert_data=False, dont_optimize_dp_dt=False, extra_n_basis_5lag=0,
            noise_weight_basis=True)
        projectors_script.main(args)
        st.ctx.probe("script")

    def do_offstyle(self, op, st):
        if st.pipe is None or st.pipe.g is None:
            return
        g = st.group.toOffStyle()
        for ds in g.values():
            ds.getAttr("p_pulse_average", slice(None))[...] = 0
            ds.hist(np.arange(0, 100, 10), "p_pulse_average")
        st.style = g

    # -- tools -------------------------------------------------------------------------------------
    def do_tool(self, op, st):
        from mass.core import ljh2off, ljh_modify
        files = st.tes.files if op["src"] == "pulse" else st.tes.noise_files
        src = files[op["i"] % len(files)]
        k, dst = op["kind"], op["dst"]
        ext = ".off" if k in {"ljh2off", "multi", "records", "loop"} else ".ljh"
        out = os.path.join(st.out, f"t_chan{1 + 2 * (op['i'] % len(files))}{ext}")
        refuse = False
        if dst == "self":
            out, refuse = src, True
        elif dst == "link":         # another name of the source
            out = os.path.join(st.out, "link_chan1.ljh")
            st.out_allowed |= {"link_chan1.ljh"}
            if os.path.lexists(out):
                os.unlink(out)
            os.symlink(src, out)
            refuse = True
        elif dst == "exists":
            if k in {"copy", "modify"}:
                out, refuse = files[(op["i"] + 1) % len(files)], True
                if out == src:
                    out = st.tes.noise_files[0] if op["src"] == "pulse" else st.tes.files[0]
            else:
                out = os.path.join(st.out, "t_chan1" + ext)
        if out.startswith(st.out):
            st.out_allowed.add(os.path.basename(out))
        over = op["over"] and not (dst == "exists" and k in {"copy", "modify"})
        if k in {"ljh2off", "multi", "records", "loop"}:
            rng = np.random.default_rng(7)
            ns = st.plan["cfg"]["nsamp"]
            proj, basis = rng.normal(0, 1, (3, ns)), rng.normal(0, 1, (ns, 3))
        if refuse and k in {"truncate", "copy", "append", "modify", "ljh2off", "multi", "records"}:
            st.ctx.probe("onto-itself")
        if k == "truncate":
            ljh_modify.ljh_truncate(src, out, n_pulses=min(op["n"], 10))
        elif k == "copy":
            ljh_modify.ljh_copy_traces(src, out, range(min(op["n"], 10)), overwrite=over)
        elif k == "append":
            if not refuse:
                if not os.path.exists(out):
                    ljh_modify.ljh_copy_traces(src, out, [0])
            ljh_modify.ljh_append_traces(src, out, range(min(op["n"], 10)))
        elif k == "modify":
            ljh_modify.LJHModify(src, out, lambda r: r + 1, overwrite=over)
        elif k == "ljh2off":
            ljh2off.ljh2off(src, out, proj, basis, 1, "model.hdf5")
        elif k == "multi":
            first = files[(op["i"] + 1) % len(files)]
            ljh2off.multi_ljh2off([first, src], out, proj, basis, 1, "model.hdf5")
        elif k == "records":
            f = st.mass.LJHFile.open(src)
            from mass.off.off import recordDtype
            ljh2off.ljh_records_to_off(f, out, proj, basis, 1, recordDtype("0.3.0", 3, descriptive_coefs_names=False))
        else:
            if st.model is None or not os.path.exists(st.model):
                return
            where = st.out if op["over"] else st.dir
            names = {os.path.basename(f).replace(".ljh", ".off") for f in files}
            base = "run" if op["src"] == "pulse" else "noise"
            if where == st.out:
                st.out_allowed |= names | {f"{base}_experiment_state.txt"}
            else:
                st.allowed |= names
            ljh2off.ljh2off_loop(src, st.model, where, 4, 1, require_experiment_state=op["n"] < 8, show_progress=False)
            st.ctx.probe("converted")
            return
        if refuse:
            raise Violation("misdirected-accepted", f"{k} onto its own source or an existing file (destination {dst}, overwrite {over}) "
                            "was not refused")
        st.ctx.probe("converted")

    # -- OFF ---------------------------------------------------------------------------------------
    def do_off_open(self, op, st):
        st.offg = None
        if op["bad"]:
            st.mass.off.ChannelGroup([*st.env.names, st.tes.files[0]], verbose=False)
            return
        st.offg = st.mass.off.ChannelGroup(list(st.env.names), verbose=False)
        st.ctx.probe("off-open")

    def do_off_use(self, op, st):
        if st.offg is None:
            self.do_off_open({"bad": False}, st)
        g = st.offg
        ds = g[list(st.env.streams)[op["i"] % len(st.env.streams)]]
        w = op["what"]
        if w == "refresh":
            g.refreshFromFiles()
        elif w == "values":
            ds.getAttr(["filtValue", "relTimeSec", "coefs"], None)
            ds.offFile.recordXY(0)
            ds.offFile.modeledPulse(0)
        elif w == "learn":
            g.learnDriftCorrection(overwriteRecipe=True, _rethrow=False)
            g.learnResidualStdDevCut(overwriteRecipe=True, _rethrow=False)
        elif w == "export":
            import h5py
            st.out_allowed.add("export.hdf5")
            p = os.path.join(st.out, "export.hdf5")
            with h5py.File(p, "w") as h:
                g.histsToHDF5(h, np.arange(0, 4000, 500.), attr="filtValue")
        elif w == "book":
            st.out_allowed.add("book.pkl")
            g.saveRecipeBooks(os.path.join(st.out, "book.pkl"))
            g.loadRecipeBooks(os.path.join(st.out, "book.pkl"))
        elif w == "trig":
            g.calcExternalTriggerTiming(after_last=True, until_next=True, from_nearest=True)
        elif w == "states":
            ds.getAttr("filtValue", g.stateLabels)
        else:
            g.hist(np.arange(0, 4000, 500.), "filtValue", states=g.stateLabels[:1])

    def do_grow(self, op, st):
        """The DAQ program writes on."""
        if op["which"] == "ljh":
            ch = st.tes.chans[op["i"] % len(st.tes.chans)]
            n = f"run_chan{ch}.ljh"
            s = st.tes.streams[ch]
            for _ in range(op["n"]):
                s.add()
            add = bytes(s.bytes[len(st.raw[n]):])
            if op["torn"]:
                add = add[:-op["torn"]]      # the rest of the last record comes with the next ones
            with open(os.path.join(st.dir, n), "ab") as f:
                f.write(add)
            st.raw[n] += add
        else:
            if op["which"] == "state":
                st.env.tick(1000)
                st.env.label("C")
            else:
                st.env.records(list(st.env.streams)[op["i"] % len(st.env.streams)], op["n"], 10**6)
            st.env.flush_all()
            for w in [st.env.sw, *st.env.writers.values()]:
                st.raw[os.path.basename(w.path)] = bytes(w.stream.bytes[:w.written])
        st.ctx.probe("grown")

    # -- attempts to write to what is presented -----------------------------------------------------
    def presented(self, op, st):
        """[(name, function giving the array as presented, what it has to be)]"""
        if op["who"] == "off":
            if st.offg is None:
                self.do_off_open({"bad": False}, st)
            from mass.off.util import NoCutInds
            ch = list(st.env.streams)[op["c"] % len(st.env.streams)]
            ds = st.offg[ch]
            of = ds.offFile
            t, c = off_truth(st.env.streams[ch], len(of))
            s = st.env.streams[ch]
            return [("offFile['filtValue']", lambda: of["filtValue"], t["filtValue"]),
                    ("offFile[0:3]['unixnano']", lambda: of[0:3]["unixnano"], t["unixnano"][:3]),
                    ("filtValue", lambda: ds.filtValue, t["filtValue"]),
                    ("unixnano", lambda: ds.unixnano, t["unixnano"]),
                    ("getAttr('framecount')", lambda: ds.getAttr("framecount", slice(None), "cutNone"), t["framecount"]),
                    ("getAttr('framecount', NoCutInds)", lambda: ds.getAttr("framecount", NoCutInds()), t["framecount"]),
                    ("getAttr('coefs', NoCutInds)", lambda: ds.getAttr("coefs", NoCutInds()), c),
                    ("coefs view", lambda: of.view(of._dtype_non_descriptive)["coefs"], c),
                    ("residualStdDev", lambda: ds.residualStdDev, t["residualStdDev"]),
                    ("projectors", lambda: of.projectors, np.asarray(s.projectors)),
                    ("basis", lambda: of.basis, np.asarray(s.basis)),
                    ("getAttr list", lambda: ds.getAttr(["pretriggerMean"], None, "cutNone")[0], t["pretriggerMean"])]
        ch = st.tes.chans[op["c"] % len(st.tes.chans)]
        s = st.tes.streams[ch]
        if op["who"] == "tes":
            if st.pipe is None or st.pipe.g is None:
                return []
            ds = next((d for d in st.group.datasets if d.channum == ch), None)
            if ds is None:
                return []
            f = ds.pulse_records.datafile
            z = st.tes.noise_streams[ch]
            zz = np.array([r["data"] for r in z.records])
            extra = [("noise alldata", lambda: ds.noise_records.datafile.alldata, zz), ("noise data", lambda: ds.noise_records.data[:], zz)]
        else:
            f = st.mass.LJHFile.open(os.path.join(st.dir, f"run_chan{ch}.ljh"))
            ds, extra = None, []
        n = f.nPulses
        data = np.array([r["data"] for r in s.records[:n]])
        out = [("alldata", lambda: f.alldata, data), ("datafile[0:3]", lambda: f[0:3], data[:3]), ("read_trace(0)", lambda: f.read_trace(0), data[0]),
               ("read_trace_with_timing(1)[2]", lambda: f.read_trace_with_timing(1)[2], data[1]),
               ("subframecount", lambda: f.subframecount, np.array(f.subframecount)), ("datatimes_raw", lambda: f.datatimes_raw, np.array(f.datatimes_raw)),
               ("datatimes_float", lambda: f.datatimes_float, np.array(f.datatimes_float))]
        if ds is not None:
            out += [("ds.data", lambda: ds.data[:], data), ("ds.read_trace(0)", lambda: ds.read_trace(0), data[0])]
        return out + extra

    def do_scribble(self, op, st):
        todo = self.presented(op, st)
        if not todo:
            return
        name, get, want = todo[op["i"] % len(todo)]
        a = get()
        if not same(a, want):
            raise Violation("wrong-values", f"{op['who']} {name} before any attempt to write: {np.ravel(a)[:4]}, expected {np.ravel(want)[:4]}")
        refused = False
        try:
            a[...] = 1
        except (ValueError, TypeError, RuntimeError):
            refused = True
        st.ctx.probe("write-refused" if refused else "write-to-copy")
        for nm, g2, w2 in todo:
            if not same(g2(), w2):
                raise Violation("write-took-effect", f"after an attempt to write to {op['who']} {name}, {nm} reads {np.ravel(g2())[:4]}, "
                                f"on disk is {np.ravel(w2)[:4]}")
