"""P18: files and groups give back what they open, also when opening fails or is interrupted half-way."""
import contextlib
import gc
import io
import os
import shutil
import types

import numpy as np

from ..daq import off_cfg
from ..engine import Violation, World
from ..tes import TesSetup, tes_cfg
from ..tespipe import Pipe, gen_steps
from .off_group import OffSetup
from .off_reader import off_truth, same


def held(root):
    """{file inside root: (descriptors, mapped regions)} that this process has open."""
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            continue
        if t.startswith(root + "/"):
            t = t[len(root) + 1:].removesuffix(" (deleted)")
            a, b = out.get(t, (0, 0))
            out[t] = (a + 1, b)
    with open("/proc/self/maps", "rb", buffering=1 << 20) as f:
        maps = f.read()
    r = os.fsencode(root) + b"/"
    i = maps.find(r)
    while i >= 0:
        j = maps.index(b"\n", i)
        t = os.fsdecode(maps[i + len(r):j]).removesuffix(" (deleted)")
        a, b = out.get(t, (0, 0))
        out[t] = (a, b + 1)
        i = maps.find(r, j)
    return out


def gen_fault(rng, most=12):
    q = rng.random()
    if q < .4:
        return None
    if q < .72:
        return {"seam": "fds", "k": rng.randrange(0, most), "kind": "EMFILE"}
    if q < .82:
        return {"seam": "open", "k": rng.randrange(1, 10), "kind": rng.choice(["EIO", "EMFILE", "EACCES"])}
    if q < .94:
        return {"seam": "line", "k": rng.choice([rng.randrange(1, 60), rng.randrange(1, 400), rng.randrange(1, 3000)]),
                "kind": rng.choice(["kbi", "kbi", "MEM"])}
    return {"seam": "h5", "k": rng.choice([rng.randrange(1, 12), rng.randrange(1, 120)]), "kind": rng.choice(["EIO", "ENOSPC", "kbi"])}


class Resources(World):
    name = "resources"
    real = ("mass.core (TESGroup, MicrocalDataSet, files, ljh_modify, ljh2off)", "mass.off (OffFile, Channel, ChannelGroup, experiment_state)",
            "h5py", "file system (tmpfs), mmap, descriptor table of the process (RLIMIT_NOFILE)")
    stub = ("DAQ program (LJH, OFF, state and trigger files)", "failing open()", "HDF5 write errors", "Ctrl-C and lack of memory at library lines")
    rule = ("random sequences of opening, refreshing, using, closing and dropping files and groups, many of them with only k descriptors left, "
            "failing opens or interruptions; after each one every descriptor and map of the process inside the scratch directory is counted, "
            "and failed steps are repeated without the fault")
    must_reach = ("failed-open:offg", "failed-open:tes", "failed-open:off", "failed-open:ljh", "failed-refresh", "retried", "retried-over",
                  "many", "closed", "dropped", "failed-tool", "interrupted", "emfile")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, nchan=rng.choice([1, 2, 3]), npulses=20, nnoise=8, nsamp=48, tail=0)
        cfg["npre"] = 12
        cfg["trigs"] = rng.choice([None, "bin", "hdf5"])
        off = [dict(off_cfg(rng), seed=rng.randrange(2**31), row=i) for i in range(rng.choice([1, 2, 3]))]
        for c in off[1:]:
            c.update(version=off[0]["version"], nbasis=off[0]["nbasis"])
        steps = gen_steps(rng, costly=.05)
        ops = []
        for _ in range(rng.randrange(6, 26)):
            r = rng.random()
            h = rng.randrange(3)
            again = rng.random() < .6
            if r < .1:
                ops.append({"op": "off", "h": h, "i": rng.randrange(3), "fault": gen_fault(rng, 5), "again": again})
            elif r < .25:
                ops.append({"op": "offg", "h": h, "n": rng.randrange(1, 4), "fault": gen_fault(rng), "again": again})
            elif r < .31:
                ops.append({"op": "ljh", "h": h, "i": rng.randrange(3), "fault": gen_fault(rng, 3), "again": again})
            elif r < .46:
                ops.append({"op": "tes", "h": h, "over": rng.random() < .4, "noise_only": rng.random() < .1, "fault": gen_fault(rng, 14),
                            "again": again})
            elif r < .56:
                ops.append({"op": "refresh", "h": h, "grow": rng.random() < .7, "fault": gen_fault(rng, 6), "again": again})
            elif r < .66:
                ops.append({"op": "use", "h": h, "what": rng.choice(["values", "trig", "states", "book", "copy"]), "fault": gen_fault(rng, 5),
                            "again": False})
            elif r < .74 and steps:
                ops.append({"op": "step", "h": h, "s": steps.pop(0), "fault": gen_fault(rng, 6), "again": False})
            elif r < .8:
                ops.append({"op": "close", "h": h, "twice": rng.random() < .3})
            elif r < .88:
                ops.append({"op": "drop", "h": h})
            elif r < .94:
                ops.append({"op": "tool", "what": rng.choice(["copy", "append", "modify", "ljh2off", "truncate", "statefile"]), "i": rng.randrange(3),
                            "fault": gen_fault(rng, 4), "again": again})
            else:
                ops.append({"op": "many", "what": rng.choice(["off", "offg", "ljh", "tes", "refresh"]), "h": h, "n": rng.choice([3, 6]),
                            "slack": rng.choice([0, 2])})
        return {"cfg": cfg, "off": off, "ops": ops}

    def shrink_config(self, plan):
        out = []
        if plan["cfg"]["nchan"] > 1:
            out.append(dict(plan, cfg=dict(plan["cfg"], nchan=1)))
        if len(plan["off"]) > 1:
            out.append(dict(plan, off=plan["off"][:1]))
        return out

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        self.warm()
        st = types.SimpleNamespace(mass=mass, ctx=ctx, plan=plan, hs={}, root=os.path.realpath(ctx.root))
        st.tes = TesSetup(plan["cfg"], ctx)
        self.triggers(st)
        st.env = OffSetup({"chans": plan["off"]}, ctx)
        for lab in "AB":
            st.env.label(lab)
            for ch in st.env.streams:
                st.env.records(ch, 4, 10**6)
        st.env.flush_all()
        gc.collect()
        self.check(st, "before anything is opened")
        try:
            for op in plan["ops"]:
                self.one(op, st)
        finally:
            for h in list(st.hs):
                self.do_drop({"h": h}, st)
        gc.collect()
        self.check(st, "after everything was dropped")

    _warm = False

    def warm(self):
        """Import what the library imports only when it needs it: a lack of descriptors is to hit the data, not Python."""
        if not Resources._warm:
            import encodings.idna, h5py._hl.filters, numpy.ma, scipy.optimize, scipy.signal, scipy.stats, sklearn.covariance  # noqa: F401, E401
            import pandas, statsmodels.api, dill, mass.core.ljh2off, mass.core.ljh_modify  # noqa: F401, E401
            Resources._warm = True
            gc.collect()
            gc.freeze()

    def triggers(self, st):
        c = st.plan["cfg"]
        if not c["trigs"]:
            return
        t = np.cumsum(np.random.default_rng(c["seed"]).integers(100, 100000, 20)).astype(np.int64)
        if c["trigs"] == "bin":
            st.tes.put_triggers("# external trigger subframecounts (nrow=1)\n", t.tobytes())
        else:
            import h5py
            with h5py.File(os.path.join(st.tes.dir, "run_external_trig.hdf5"), "w") as h:
                h["trig_times"] = t

    def one(self, op, st):
        ctx = st.ctx
        f = op.get("fault")
        before = held(st.root) if f else None
        try:
            with contextlib.redirect_stdout(io.StringIO()), ctx.armed(f) as armed:
                getattr(self, "do_" + op["op"])(op, st)
            ended = "ok"
        except Violation:
            raise
        except KeyboardInterrupt:
            ended = "KeyboardInterrupt"
            ctx.probe("interrupted")
        except Exception as e:
            ended = type(e).__name__
            if f is None:
                raise
            if f["seam"] == "fds":
                if "Too many open files" in str(e) or getattr(e, "errno", None) == 24:
                    ctx.fault_fired("fds-hit:EMFILE")
                    ctx.probe("emfile")
            elif not armed.fired:
                raise
        except SystemExit as e:
            ended = "SystemExit"
            del e
        what = f"{op['op']} {op.get('what') or ''}{(op.get('s') or {}).get('op') or ''}"
        ctx.event(op["op"], op.get("what"), ended)
        if ended != "ok" and op["op"] in {"off", "offg", "ljh", "tes"}:
            ctx.probe("failed-open:" + op["op"])
        if ended != "ok" and op["op"] == "refresh":
            ctx.probe("failed-refresh")
        if ended != "ok" and op["op"] == "tool":
            ctx.probe("failed-tool")
        if ended != "ok" and op.get("again"):
            # the fault is over: the same thing works at once, in this very session (an interrupt between two
            # statements may leave a cycle of objects, which only the garbage collector takes apart)
            if f["seam"] == "line":
                gc.collect()
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    getattr(self, "do_" + op["op"])(dict(op, fault=None), st)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("cannot-repeat", f"{what} failed with {ended} ({f}); repeated without the fault it fails with "
                                    f"{type(e).__name__}: {str(e)[:300]}")
            ctx.probe("retried")
            if op.get("over"):
                ctx.probe("retried-over")
            self.values(op["h"] if "h" in op else None, st)
        elif ended != "ok" and op["op"] in {"off", "offg", "ljh", "tes"}:
            gc.collect()
            now = held(st.root)
            more = {k: (before.get(k, (0, 0)), v) for k, v in now.items() if v[0] > before.get(k, (0, 0))[0] or v[1] > before.get(k, (0, 0))[1]}
            if more:
                raise Violation("failed-open-holds", f"after {what} ended with {ended} ({f}), (descriptors, maps) grew: {more}")
        gc.collect()
        self.check(st, f"after {what}, which ended with {ended}")

    # -- what may be held ----------------------------------------------------------------------
    def check(self, st, what):
        allowed = {}

        def allow(path, fds, maps):
            k = os.path.realpath(path)[len(st.root) + 1:]
            a, b = allowed.get(k, (0, 0))
            allowed[k] = (a + fds, b + maps)
        for h in st.hs.values():
            for p in h.files:
                allow(p, 3, 3)
            for p in h.caches:
                allow(p, 1, 0)
        for k, (a, b) in held(st.root).items():
            x, y = allowed.get(k, (0, 0))
            if a > x or b > y:
                live = [h.kind + (" (closed)" if h.closed else "") for h in st.hs.values()]
                raise Violation("held-too-much", f"{what}: {k} has {a} descriptors and {b} maps, at most {x} and {y} expected with {live} alive")

    def values(self, h, st):
        x = st.hs.get(h)
        if x is None or x.closed:
            return
        if x.kind == "off":
            n = len(x.obj)
            t, _ = off_truth(x.stream, n)
            if n != x.n or not same(x.obj["filtValue"], t["filtValue"]):
                raise Violation("wrong-values", f"OFF file after a repeated step: {n} records, expected {x.n}")
        elif x.kind == "offg":
            for ch, n in x.n.items():
                t, _ = off_truth(st.env.streams[ch], n)
                if ch not in x.obj or not same(x.obj[ch].getAttr("filtValue", slice(None), "cutNone"), t["filtValue"]):
                    raise Violation("wrong-values", f"channel {ch} of an OFF group after a repeated step")
        elif x.kind == "ljh":
            if not same(x.obj.alldata, np.array([r["data"] for r in x.stream.records])):
                raise Violation("wrong-values", "LJH file after a repeated step")
        elif x.kind == "tes":
            for ds in x.obj.datasets:
                if not x.noise_only and not same(ds.data[:], np.array([r["data"] for r in st.tes.streams[ds.channum].records])):
                    raise Violation("wrong-values", f"channel {ds.channum} of a TESGroup after a repeated step")
            if len(x.obj.datasets) != len(st.tes.chans):
                raise Violation("wrong-values", f"a TESGroup opened again has {len(x.obj.datasets)} of {len(st.tes.chans)} channels")

    def put(self, st, h, **kw):
        kw = dict({"files": [], "caches": [], "closed": False}, **kw)
        st.hs[h] = types.SimpleNamespace(**kw)

    # -- operations ------------------------------------------------------------------------------
    def do_off(self, op, st):
        self.do_drop(op, st)
        ch = list(st.env.streams)[op["i"] % len(st.env.streams)]
        p = st.env.writers[ch].path
        o = st.mass.off.OffFile(p)
        self.put(st, op["h"], kind="off", obj=o, files=[p], stream=st.env.streams[ch], n=st.env.writers[ch].complete_records)

    def do_offg(self, op, st):
        self.do_drop(op, st)
        names = st.env.names[:op["n"]]
        g = st.mass.off.ChannelGroup(names, verbose=False)
        chs = list(st.env.streams)[:op["n"]]
        self.put(st, op["h"], kind="offg", obj=g, files=names, n={c: st.env.writers[c].complete_records for c in chs})

    def do_ljh(self, op, st):
        self.do_drop(op, st)
        ch = st.tes.chans[op["i"] % len(st.tes.chans)]
        p = os.path.join(st.tes.dir, f"run_chan{ch}.ljh")
        o = st.mass.LJHFile.open(p)
        self.put(st, op["h"], kind="ljh", obj=o, files=[p], stream=st.tes.streams[ch])

    def do_tes(self, op, st):
        self.do_drop(op, st)
        h5, h5n = (st.ctx.path(f"c{op['h']}_{n}.hdf5") for n in ("mass", "noise"))
        no = op["noise_only"]
        if no:
            g = st.mass.TESGroup(list(st.tes.noise_files), noise_only=True, hdf5_noisefilename=h5n, overwrite_hdf5_file=op["over"])
        else:
            g = st.mass.TESGroup(list(st.tes.files), list(st.tes.noise_files), hdf5_filename=h5, hdf5_noisefilename=h5n,
                                 overwrite_hdf5_file=op["over"])
        self.put(st, op["h"], kind="tes", obj=g, files=st.tes.files + st.tes.noise_files, caches=[h5, h5n], noise_only=no)

    def do_drop(self, op, st):
        x = st.hs.pop(op["h"], None)
        if x is None:
            return
        if x.kind == "tes" and not x.closed:
            self.close_tes(x)
        x.obj = None
        del x
        gc.collect()
        st.ctx.probe("dropped")

    @staticmethod
    def close_tes(x):
        for f in (x.obj.hdf5_file, x.obj.hdf5_noisefile):
            if f is not None and f:
                f.close()

    def do_close(self, op, st):
        x = st.hs.get(op["h"])
        if x is None or x.closed:
            return
        if x.kind == "off":
            x.obj.close()
            if op["twice"]:
                x.obj.close()
            x.files = []
        elif x.kind == "tes":
            self.close_tes(x)
            x.caches = []
        else:
            return
        x.closed = True
        st.ctx.probe("closed")

    def do_refresh(self, op, st):
        x = st.hs.get(op["h"])
        if x is None or x.closed or x.kind not in {"off", "offg"}:
            return
        if op["grow"] and op.get("fault") is not None or op["grow"] and not op.get("again"):
            for ch in st.env.streams:
                st.env.records(ch, 2, 10**6)
            st.env.flush_all()
        if x.kind == "off":
            x.obj._updateMmap()
            x.n = next(w for w in st.env.writers.values() if w.path == x.files[0]).complete_records
        else:
            x.obj.refreshFromFiles()
            x.n = {c: st.env.writers[c].complete_records for c in x.n}

    def do_use(self, op, st):
        x = st.hs.get(op["h"])
        if x is None or x.closed:
            return
        w = op["what"]
        if x.kind == "offg":
            if not len(x.obj):          # every channel was marked bad
                return
            if w == "values":
                for ds in x.obj.values():
                    ds.getAttr(["filtValue", "relTimeSec", "coefs"], slice(None))
            elif w == "states":
                for ds in x.obj.values():
                    ds.getAttr("filtValue", x.obj.stateLabels)
            elif w == "book":
                p = st.ctx.path("book.pkl")
                x.obj.saveRecipeBooks(p)
                x.obj.loadRecipeBooks(p)
            elif w == "copy":
                x.obj.firstGoodChannel().offFile.modeledPulse(0)
        elif x.kind == "off":
            x.obj.recordXY(0)
            x.obj.view(x.obj._dtype_non_descriptive)["coefs"][0:2].sum()
        elif x.kind == "ljh":
            x.obj.read_trace_with_timing(0)
            if w == "copy":
                x.obj.copy().read_trace(1)
        elif x.kind == "tes" and not x.noise_only:
            if w == "trig" and x.obj.good_channels and st.plan["cfg"]["trigs"]:
                x.obj.calc_external_trigger_timing(forceNew=True)
            elif w == "values":
                x.obj.read_trace(0)
            elif w == "copy" and x.obj.good_channels:
                x.obj.toOffStyle()

    def do_step(self, op, st):
        x = st.hs.get(op["h"])
        if x is None or x.closed or x.kind != "tes" or x.noise_only:
            return
        if op["s"]["op"] == "trig" and not st.plan["cfg"]["trigs"]:
            return
        p = Pipe(st.ctx, st.mass, st.tes, "p")
        p.g = x.obj
        p.run(0, op["s"])

    def do_tool(self, op, st):
        from mass.core import ljh2off, ljh_modify
        src = st.tes.files[op["i"] % len(st.tes.files)]
        out = st.ctx.path("t_chan1.ljh")
        w = op["what"]
        if w == "copy":
            ljh_modify.ljh_copy_traces(src, out, range(3), overwrite=True)
        elif w == "append":
            shutil.copyfile(src, out)
            if st.plan["cfg"]["version"] >= "2.2":
                ljh_modify.ljh_append_traces(src, out, range(2))
        elif w == "modify":
            ljh_modify.LJHModify(src, out, lambda r: r, overwrite=True)
        elif w == "truncate":
            if st.plan["cfg"]["version"] >= "2.2":      # the only version it handles
                ljh_modify.ljh_truncate(src, out, n_pulses=3)
        elif w == "statefile":
            st.mass.off.ExperimentStateFile(filename=st.env.state_path)
        else:
            rng = np.random.default_rng(1)
            ns = st.plan["cfg"]["nsamp"]
            ljh2off.ljh2off(src, st.ctx.path("t_chan1.off"), rng.normal(0, .1, (3, ns)), rng.normal(0, 1, (ns, 3)), 1, "m")

    def do_many(self, op, st):
        """Again and again with no more descriptors than one needs (while the last one is still there)."""
        need = {"off": 3, "offg": 3 * len(st.env.names), "ljh": 1, "tes": 2 * len(st.tes.files) + 2, "refresh": 3 * len(st.env.names)}[op["what"]]
        st.ctx.probe("many")
        h = op["h"]
        if op["what"] == "refresh":
            x = st.hs.get(h)
            if x is None or x.closed or x.kind not in {"off", "offg"}:
                return
            need = 3 * len(x.files)
        else:
            self.do_drop(op, st)
        k = (need if op["what"] in {"tes", "refresh"} else 2 * need) + 2 + op["slack"]
        try:
            with st.ctx.armed({"seam": "fds", "k": k, "kind": "EMFILE"}):
                for i in range(op["n"]):
                    if op["what"] == "refresh":
                        self.do_refresh({"h": h, "grow": False, "again": True}, st)
                    elif op["what"] == "tes":
                        self.do_tes({"h": h, "over": i % 2 == 1, "noise_only": False}, st)
                    elif op["what"] == "off":
                        o = st.mass.off.OffFile(st.env.names[0])
                        o.filename
                    elif op["what"] == "ljh":
                        o = st.mass.LJHFile.open(st.tes.files[0])
                        o.filename
                    else:
                        o = st.mass.off.ChannelGroup(st.env.names, verbose=False)
                        o.keys()
        except OSError as e:
            raise Violation("cannot-repeat", f"{op['what']} number {i + 1} of {op['n']} with room for {k} descriptors: {str(e)[:300]}")
