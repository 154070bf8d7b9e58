"""P08: converting LJH files to OFF files, with full disks, failing opens and repeated conversions."""
import contextlib
import io
import json
import os
import struct

import numpy as np

from ..daq import T0_NS, LJHStream, ljh_cfg
from ..engine import Violation, World


def decode_off(path, what):
    """Independent reader of the OFF 0.3.0 layout."""
    with open(path, "rb") as f:
        raw = f.read()
    end = raw.find(b"\n}\n")
    if end < 0:
        raise Violation("bad-output", f"{what}: no complete OFF header in {len(raw)} bytes")
    h = json.loads(raw[:end + 2].decode("utf-8"))
    pos = end + 3
    P, B = h["ModelInfo"]["Projectors"], h["ModelInfo"]["Basis"]
    if len(raw) < pos + 8 * (P["Rows"] * P["Cols"] + B["Rows"] * B["Cols"]):
        raise Violation("bad-output", f"{what}: {len(raw)} bytes do not even hold the projectors and basis")
    proj = np.frombuffer(raw, "<f8", P["Rows"] * P["Cols"], pos).reshape(P["Rows"], P["Cols"])
    pos += proj.nbytes
    basis = np.frombuffer(raw, "<f8", B["Rows"] * B["Cols"], pos).reshape(B["Rows"], B["Cols"])
    pos += basis.nbytes
    fmt = f"<iiqqfff{h['NumberOfBases']}f"
    size = struct.calcsize(fmt)
    body = raw[pos:]
    if len(body) % size:
        raise Violation("bad-output", f"{what}: {len(body)} bytes after the header are not a whole number of {size}-byte records")
    return h, proj, basis, [struct.unpack_from(fmt, body, i) for i in range(0, len(body), size)]


class LJH2OFF(World):
    name = "ljh2off"
    real = ("mass.core.ljh2off (ljh2off, multi_ljh2off, ljh2off_loop, multi_ljh2off_loop)", "mass.core.pulse_model (storage)",
            "mass.core.files", "mass.off.off (reading back)", "h5py (model file)", "file system (tmpfs)")
    stub = ("DAQ program (source files with torn tails, experiment-state file)", "full disk (kernel file-size limit)", "failing open()")
    rule = ("1-3 acquisitions of 1-3 channels (random versions, record counts from none to several conversion chunks, torn tails), "
            "random projectors and a random history of single, multi-file, looped and multi-base conversions over and next to earlier "
            "output, with the disk filling at a random byte or an open failing, then the conversion repeated")
    must_reach = ("several-chunks", "empty-input", "torn-input", "disk-full", "open-failed", "repeat-after-fault", "overwrote",
                  "state-copied", "state-missing-refused", "same-directory")

    def generate(self, rng, tier):
        nsamp = rng.choice([12, 16, 30, 100])
        nchan = rng.randrange(1, 4)
        chans = sorted(rng.sample([1, 2, 3, 10, 11, 300], nchan))
        proto = ljh_cfg(rng, nsamp=nsamp)
        proto["npre"] = rng.randrange(6, nsamp - 3)
        bases = []
        big = {12: 420, 16: 360, 30: 260, 100: 160}[nsamp]
        for b in range(rng.randrange(1, 4)):
            files = {}
            for c in chans:
                cfg = dict(proto, seed=rng.randrange(2**31), raw=rng.random() < .3)
                if rng.random() < .3:
                    cfg["version"] = rng.choice(["2.1.0", "2.2.0"])
                files[str(c)] = {"cfg": cfg, "n": rng.choice([0, 1, 2, 7, 40, big, big + rng.randrange(80)]),
                                 "tail": rng.choice([0, 0, 1, 15, 20])}
            bases.append({"files": files, "state": rng.random() < .7, "eol": rng.choice(["\n", "\r\n"])})
        missing = rng.choice(chans) if nchan > 1 and rng.random() < .2 else None
        ops = []
        for _ in range(rng.randrange(1, 5)):
            k = rng.choice(["single", "single", "multi", "loop", "loop", "mloop"])
            o = {"op": k, "base": rng.randrange(len(bases)), "chan": rng.choice(chans), "out": rng.choice(["o0", "o1"]),
                 "nign": rng.choice([0, 0, 1, 3]), "model": rng.randrange(2),
                 "bases": [rng.randrange(len(bases)) for _ in range(rng.randrange(1, 4))],
                 "max": rng.choice([1, 2, 1000]), "require": rng.random() < .5,
                 "dir": rng.choice(["outdir", "outdir", "same", "dotted"]), "f32": rng.random() < .15}
            q = rng.random()
            if q < .35:
                o["fault"] = {"seam": "disk", "kind": "full", "k": rng.choice([rng.randrange(0, 1500), rng.randrange(0, 30000)])}
            elif q < .5:
                o["fault"] = {"seam": "open", "kind": rng.choice(["EIO", "EMFILE", "EACCES"]), "k": rng.randrange(1, 16)}
            else:
                o["fault"] = None
            ops.append(o)
        return {"nsamp": nsamp, "nbasis": rng.choice([3, 3, 4, 6]), "chans": chans, "bases": bases, "missing": missing,
                "mseed": rng.randrange(2**31), "ops": ops}

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import h5py
        import mass
        import mass.core.ljh2off as tool
        self.plan, self.ctx, self.mass, self.tool = plan, ctx, mass, tool
        for d in ("in", "outdir", "ref"):
            os.mkdir(ctx.path(d))
        self.streams = {}
        for b, base in enumerate(plan["bases"]):
            for c, f in base["files"].items():
                if plan["missing"] == int(c):
                    continue
                s = LJHStream(f["cfg"])
                for _ in range(f["n"]):
                    s.add()
                self.streams[b, int(c)] = s
                with open(self.ljh(b, c), "wb") as g:
                    tail = min(f["tail"], s.recsize - 1)
                    g.write(bytes(s.bytes) + b"\x07" * tail)
                if tail:
                    ctx.probe("torn-input")
                ctx.advance(1000 * s.t_us - T0_NS)
            if base["state"]:
                with open(ctx.path("in", f"run{b}_experiment_state.txt"), "wb") as g:
                    g.write(base["eol"].join(["# unix time in nanoseconds, state label", f"{T0_NS}, START", f"{T0_NS + 5}, Aé", ""])
                            .encode())
        rng = np.random.default_rng(plan["mseed"])
        self.models = [{}, {}]
        for i, name in enumerate(("model0.hdf5", "model1.hdf5")):
            with h5py.File(ctx.path("in", name), "w") as h5:
                for c in plan["chans"]:
                    proj = rng.normal(size=(plan["nbasis"], plan["nsamp"]))
                    basis = rng.normal(size=(plan["nsamp"], plan["nbasis"]))
                    self.models[i][c] = proj, basis
                    z = np.arange(3.)
                    mass.PulseModel(proj, basis, plan["nbasis"], np.zeros((plan["nsamp"], 2)), z, 1., 1., "f", 0, z, z, z, 1., z,
                                    _from_hdf5=True).toHDF5(h5.create_group(str(c)), save_inverted=False)
        self.inputs = self.snapshot("in")
        self.made = {}      # output path -> bytes of an undisturbed conversion
        for op in plan["ops"]:
            self.step(op)
        left = {n: v for n, v in self.snapshot("in").items() if n not in self.extra()}
        for n in self.inputs:
            if left.get(n) != self.inputs[n]:
                raise Violation("input-changed", f"{n} changed")
        if set(left) - set(self.inputs):
            raise Violation("unexpected-file", f"{sorted(set(left) - set(self.inputs))} appeared next to the input files")

    def extra(self):
        return {os.path.basename(p) for p in self.made if os.path.dirname(p) == self.ctx.path("in")}

    def ljh(self, b, c):
        return self.ctx.path("in", f"run{b}_chan{c}.ljh")

    def snapshot(self, d):
        out = {}
        for n in sorted(os.listdir(self.ctx.path(d))):
            with open(self.ctx.path(d, n), "rb") as f:
                out[n] = f.read()
        return out

    # ------------------------------------------------------------------------------------------
    def request(self, op):
        """-> (callable taking nothing, {output path: (list of (base, channel), model index, channel)}, refuse, state copy)"""
        ctx, tool, plan = self.ctx, self.tool, self.plan
        k, m = op["op"], op["model"]
        h5 = ctx.path("in", f"model{m}.hdf5")
        kw = {}
        if k in {"single", "multi"}:
            c = op["chan"]
            bs = [op["base"]] if k == "single" else op["bases"]
            out = ctx.path("outdir", f"{op['out']}_chan{c}.off")
            proj, basis = self.models[m][c]
            if op["f32"]:
                proj, basis = proj.astype(np.float32), basis.astype(np.float32)
            paths = [self.ljh(b, c) for b in bs]
            refuse = "missing-input" if plan["missing"] == c else ""
            if k == "single":
                def call():
                    tool.ljh2off(paths[0], out, proj, basis, op["nign"], h5)
            else:
                def call():
                    tool.multi_ljh2off(paths, out, proj, basis, op["nign"], h5)
            return call, {out: ([(b, c) for b in bs], proj, basis)}, refuse, None, None
        chans = [c for c in plan["chans"] if c != plan["missing"]][:op["max"]]
        if k == "mloop":
            bs = op["bases"]
            ob = ctx.path("outdir", op["out"])
            want = {f"{ob}_chan{c}.off": ([(b, c) for b in bs], *self.models[m][c]) for c in chans}
            names = [[self.ljh(b, c) for b in bs] for c in chans], [f"{ob}_chan{c}.off" for c in chans]

            def call():
                return tool.multi_ljh2off_loop([ctx.path("in", f"run{b}") for b in bs], h5, ob, op["max"], op["nign"],
                                               show_progress=False)
            return call, want, "", None, names
        b = op["base"]
        outdir = {"outdir": ctx.path("outdir"), "same": ctx.path("in"), "dotted": ctx.path("outdir", "..", "in")}[op["dir"]]
        ob = os.path.join(outdir, f"run{b}")
        want = {f"{ob}_chan{c}.off": ([(b, c)], *self.models[m][c]) for c in chans}
        state = None
        refuse = ""
        if plan["bases"][b]["state"]:
            if op["dir"] == "outdir":
                state = f"{ob}_experiment_state.txt"
        elif op["require"]:
            refuse = "state-missing-refused"
        names = [self.ljh(b, c) for c in chans], [f"{ob}_chan{c}.off" for c in chans]
        if op["dir"] != "outdir":
            ctx.probe("same-directory")

        def call():
            return tool.ljh2off_loop(self.ljh(b, plan["chans"][0]), h5, outdir, op["max"], op["nign"],
                                     require_experiment_state=op["require"], show_progress=False)
        return call, want, refuse, state, names

    def step(self, op):
        ctx = self.ctx
        call, want, refuse, state, names = self.request(op)
        what = f"{op['op']} -> {op['out']}"
        if any(os.path.exists(p) for p in want):
            ctx.probe("overwrote")
        fault = op["fault"]
        for p in want:
            self.made[os.path.realpath(p)] = None
        for attempt in (0, 1):
            raised, ret = None, None
            try:
                with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), ctx.armed(fault) as armed:
                    ret = call()
            except Exception as e:
                raised = e
            ctx.event(op["op"], attempt, type(raised).__name__, bool(refuse), len(want))
            hit = fault is not None and (fault["seam"] == "disk" or armed.fired)
            if refuse:
                if raised is None:
                    raise Violation("not-refused", f"{what}: {refuse}, but the call returned normally")
                ctx.probe(refuse)
            elif raised is None:
                if fault is not None and fault["seam"] == "open" and armed.fired:
                    raise Violation("error-swallowed", f"{what}: an open failed with {fault['kind']} but the call returned normally")
                self.check(op, want, state, names, ret, what + (f" with the disk full at byte {fault['k']}" if hit else ""))
                return
            elif not (hit and isinstance(raised, OSError)):
                raise raised
            else:
                ctx.probe("disk-full" if fault["seam"] == "disk" else "open-failed")
                if fault["seam"] == "disk":
                    ctx.fault_fired("disk:full-hit")
                    sizes = [os.path.getsize(p) for p in list(want) + ([state] if state else []) if os.path.exists(p)]
                    if sizes and max(sizes) < fault["k"] and all(os.path.exists(p) for p in want):
                        raise Violation("error-without-cause", f"{what}: {raised!r} although no file reached {fault['k']} bytes")
            if fault is None:
                return
            fault = None
            ctx.probe("repeat-after-fault")
            what += ", repeated after a fault"

    def check(self, op, want, state, names, ret, what):
        ctx, tool = self.ctx, self.tool
        if names is not None and [list(x) for x in ret] != [list(x) for x in names]:
            raise Violation("wrong-file-list", f"{what}: returned {ret}, want {names}".replace(ctx.root, ""))
        for i, (out, (srcs, proj, basis)) in enumerate(want.items()):
            self.compare(out, srcs, proj, basis, op["nign"], what)
            if i == 0:
                ref = ctx.path("ref", "ref.off")
                with contextlib.redirect_stdout(io.StringIO()):
                    tool.multi_ljh2off([self.ljh(b, c) for b, c in srcs], ref, proj, basis, op["nign"],
                                       ctx.path("in", f"model{op['model']}.hdf5"))
                with open(ref, "rb") as f, open(out, "rb") as g:
                    if f.read() != g.read():
                        raise Violation("not-identical", f"{what}: {os.path.basename(out)} differs from an undisturbed conversion")
        if state is not None:
            with open(state, "rb") as f:
                got = f.read()
            src = self.inputs[f"run{op['base']}_experiment_state.txt"]
            if got.replace(b"\r\n", b"\n") != src.replace(b"\r\n", b"\n"):
                raise Violation("state-not-copied", f"{what}: copied experiment-state file has {len(got)} bytes, the source {len(src)}")
            ctx.probe("state-copied")

    def compare(self, out, srcs, proj, basis, nign, what):
        what = f"{what}: {os.path.basename(out)}"
        if not os.path.exists(out):
            raise Violation("missing-output", what)
        h, p, b, recs = decode_off(out, what)
        streams = [self.streams[s] for s in srcs]
        n = sum(len(s.records) for s in streams)
        s0 = streams[0]
        if n == 0:
            self.ctx.probe("empty-input")
        if len(recs) != n:
            raise Violation("wrong-record-count", f"{what}: {len(recs)} records for {n} complete input records")
        if not (np.array_equal(p, np.asarray(proj, float)) and np.array_equal(b, np.asarray(basis, float))):
            raise Violation("wrong-model", f"{what}: stored projectors or basis are not the ones given")
        if abs(h["FramePeriodSeconds"] / s0.cfg["timebase"] - 1) > 1e-9 or h["NumberOfBases"] != len(proj):
            raise Violation("wrong-header", f"{what}: header {h['FramePeriodSeconds']}, {h['NumberOfBases']}")
        c = s0.cfg
        place = {"ColumnsNum": c["col"], "RowNum": c["row"] or 0, "NumberOfColumns": c["cols"] or 1, "NumberOfRows": c["rows"] or 1}
        if h["ReadoutInfo"] != place or h["FileFormat"] != "OFF":
            raise Violation("wrong-header", f"{what}: ReadoutInfo {h['ReadoutInfo']} expected {place}")
        i = 0
        P, B = np.asarray(proj, float), np.asarray(basis, float)
        single = proj.dtype == np.float32
        for s in streams:
            m = len(s.records)
            data, sub, us, _ = s.truth(m)
            if m and (m > max(1, 2**21 // len(s.bytes))):
                self.ctx.probe("several-chunks")
            d = data.astype(float)
            coefs = d @ P.T
            scale = np.abs(d) @ np.abs(P.T) + 1
            model = coefs @ B.T
            res = np.std(model - d, axis=1)
            rscale = np.sqrt(np.mean((np.abs(coefs) @ np.abs(B.T)) ** 2, axis=1)) + np.abs(d).max(axis=1, initial=0) + 1
            npre = s.npre_true - nign
            x = np.arange(npre)
            xc = x - x.mean()
            pm = d[:, :npre].mean(axis=1)
            delta = (d[:, :npre] @ xc) / (xc @ xc) * (npre - 1)
            got = recs[i:i + m]
            i += m
            for name, col, exact in (("recordSamples", 0, np.full(m, s.nsamp)), ("recordPreSamples", 1, np.full(m, s.npre_true)),
                                     ("framecount", 2, sub // s.subdiv)):
                g = np.array([r[col] for r in got], dtype=np.int64)
                if not np.array_equal(g, exact):
                    j = int(np.flatnonzero(g != exact)[0])
                    raise Violation("wrong-" + name, f"{what}: record {j}: {g[j]}, want {exact[j]}")
            t = np.array([r[3] for r in got], dtype=np.int64)
            bad = np.abs(t - us * 1000) > (1000 if s.v21 else 0)
            if bad.any():
                j = int(np.flatnonzero(bad)[0])
                raise Violation("wrong-unixnano", f"{what}: record {j}: {t[j]}, want {us[j] * 1000}")
            eps = 3e-3 if single else 2e-6
            for name, col, exact, tol in (("pretriggerMean", 4, pm, 2e-6 * (np.abs(pm) + 1)),
                                          ("pretriggerDelta", 5, delta, 1e-5 * (np.abs(d[:, :npre]).max(axis=1, initial=0) + 1)),
                                          ("residualStdDev", 6, res, eps * rscale)):
                g = np.array([r[col] for r in got], dtype=float)
                self.near(what, name, g, exact, tol)
            for k in range(len(P)):
                self.near(what, f"coefs[{k}]", np.array([r[7 + k] for r in got], dtype=float), coefs[:, k],
                          (eps if single else 1e-6) * scale[:, k])
        if n:
            f = self.mass.off.OffFile(out)
            try:
                if f.nRecords != n or f["unixnano"][n - 1] != recs[-1][3]:
                    raise Violation("unreadable-output", f"{what}: OffFile reads {f.nRecords} of {n} records")
            finally:
                f.close()

    @staticmethod
    def near(what, name, got, want, tol):
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            j = int(np.flatnonzero(bad)[0])
            raise Violation("wrong-" + name.split("[")[0], f"{what}: {name} of record {j} is {got[j]}, want {want[j]}")

    def shrink_config(self, plan):
        for b, base in enumerate(plan["bases"]):
            for c, f in base["files"].items():
                for key, v in (("n", 0), ("n", 2), ("tail", 0)):
                    if f[key] > v:
                        p = json.loads(json.dumps(plan))
                        p["bases"][b]["files"][c][key] = v
                        yield p


