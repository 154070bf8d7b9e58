"""P02: OFF files read while they are being written, or cut short anywhere."""
import numpy as np

from ..daq import FileWriter, OffStream, off_cfg
from ..engine import Violation, World


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def off_truth(s, n):
    """Structured array of the first n encoded records, descriptive names, plus the coefficient matrix."""
    r = s.records[:n]
    out = {k: np.array([x[k] for x in r], dtype=t) for k, t in
           (("recordSamples", np.int32), ("recordPreSamples", np.int32), ("framecount", np.int64), ("unixnano", np.int64),
            ("pretriggerMean", np.float32), ("residualStdDev", np.float32))}
    if s.v3:
        out["pretriggerDelta"] = np.array([x["pretriggerDelta"] for x in r], dtype=np.float32)
    c = np.array([x["coefs"] for x in r], dtype=np.float32).reshape(n, s.cfg["nbasis"])
    out["pulseMean"], out["derivativeLike"], out["filtValue"] = c[:, 0], c[:, 1], c[:, 2]
    if s.cfg["nbasis"] > 3:
        out["extraCoefs"] = c[:, 3:]
    return out, c


class OffReader(World):
    name = "off_reader"
    real = ("mass.off.off.OffFile", "mass.off.channels.Channel.refresh path", "file system (tmpfs), mmap")
    stub = ("DAQ program (independent OFF encoder appending arbitrary byte counts)", "failing open()")
    rule = ("random OFF version / basis count / record length / header text and a random history of byte-granular appends, "
            "opens, refreshes, reads by several handles and closes")
    must_reach = ("torn-open", "header-torn", "refresh-grew", "zero-records", "nonascii-header")

    def generate(self, rng, tier):
        cfg = off_cfg(rng)
        recsize = 36 + 4 * cfg["nbasis"]
        ops = []
        if rng.random() < .3:
            for _ in range(rng.randrange(1, 4)):
                ops.append({"op": "flush", "n": rng.choice([rng.randrange(1, 700), rng.randrange(1, 3000)])})
                ops.append({"op": "open", "fault": None})
        ops.append({"op": "header"})
        if rng.random() < .8:
            ops += [{"op": "make", "n": rng.choice([1, 2, 5])}, {"op": "flush", "n": None}]
        for _ in range(rng.randrange(4, 26)):
            r = rng.random()
            if r < .4:
                ops.append({"op": "make", "n": rng.choice([0, 1, 1, 2, 3, 7, 20, 300])})
                ops.append({"op": "flush", "n": rng.choice([None, None, 1, recsize - 1, recsize, recsize + 1,
                                                            rng.randrange(1, 4 * recsize)])})
            elif r < .6:
                ops.append({"op": "open", "fault": {"seam": "open", "k": rng.randrange(1, 5),
                                                    "kind": rng.choice(["EIO", "EMFILE"])} if rng.random() < .15 else None})
            elif r < .8:
                ops.append({"op": "refresh", "i": rng.randrange(64), "fault":
                            {"seam": "open", "k": rng.randrange(1, 3), "kind": "EIO"} if rng.random() < .1 else None})
            elif r < .95:
                ops.append({"op": "read", "i": rng.randrange(64), "what": rng.choice(["all", "model", "slice", "keep"])})
            else:
                ops.append({"op": "close", "i": rng.randrange(64)})
        ops += [{"op": "refresh", "i": i, "fault": None} for i in range(3)]
        return {"cfg": cfg, "ops": ops}

    def execute(self, plan, ctx):
        import mass
        s = OffStream(plan["cfg"])
        path = ctx.path("run_chan5.off")
        open(path, "wb").close()
        w = FileWriter(path, s)
        handles, kept = [], []
        if plan["cfg"]["desc"] != "sim":
            ctx.probe("nonascii-header")
        for op in plan["ops"]:
            k = op["op"]
            if k == "header":
                if w.written < len(s.header):
                    w.flush(len(s.header) - w.written)
                ctx.event(k)
            elif k == "make":
                for _ in range(op["n"]):
                    s.add()
                ctx.sim_ns = s.t_ns - 1_600_000_000_000_000_000
                ctx.event(k, op["n"])
            elif k == "flush":
                w.flush(op["n"])
                if w.torn:
                    ctx.fault_fired("daq:torn-append")
                ctx.event(k, w.written)
            elif k == "open":
                self.do_open(op, w, s, ctx, handles, mass)
            elif handles:
                i = op["i"] % len(handles)
                h, n = handles[i]
                if k == "refresh":
                    try:
                        with ctx.armed(op["fault"]) as armed:
                            h._updateMmap()
                    except OSError:
                        if not armed.fired:
                            raise
                        ctx.event("refresh-failed")
                        continue
                    n2 = w.complete_records
                    ctx.probe("refresh-grew" if n2 > n else "refresh-same")
                    handles[i] = (h, n2)
                    self.check(h, s, n2, "after a refresh")
                    ctx.event(k, n, n2)
                elif k == "close":
                    h.close()
                    del handles[i]
                    ctx.event(k)
                else:
                    self.read(h, s, n, op, kept)
                    ctx.event(k, op["what"], n)
        for h, n in handles:
            self.check(h, s, n, "at the end")
        for arr, want in kept:
            if not same(arr, want):
                raise Violation("earlier-records-changed", "values obtained from a handle earlier changed later")

    def do_open(self, op, w, s, ctx, handles, mass):
        n = w.complete_records
        header_done = w.written >= len(s.header)
        f = op.get("fault")
        try:
            with ctx.armed(f) as armed:
                h = mass.off.OffFile(w.path)
        except Exception as e:
            if armed.fired and isinstance(e, OSError):
                ctx.event("open-failed")
                return
            if not header_done:
                ctx.probe("header-torn")
                ctx.event("open-torn-header", type(e).__name__)
                return
            raise
        if armed.fired:
            raise Violation("error-swallowed", "open() failed but OffFile() returned normally")
        if not header_done:
            raise Violation("accepted-torn-header", f"opened with only {w.written} of {len(s.header)} header bytes")
        if w.torn:
            ctx.probe("torn-open")
        if n == 0:
            ctx.probe("zero-records")
        self.check(h, s, n, "a fresh handle")
        handles.append((h, n))
        ctx.event("open", n, w.torn)

    def read(self, h, s, n, op, kept):
        t, c = off_truth(s, n)
        what = op["what"]
        if what == "all" or n == 0:
            self.check(h, s, n, "an old handle")
        elif what == "model":
            i = (op["i"] * 7919) % n
            x, y = h.recordXY(i)
            cfg = s.cfg
            wx = (np.arange(cfg["nsamp"]) - cfg["npre"]) * cfg["period"]
            wy = s.basis @ c[i].astype(np.float64)
            if not (np.shape(x) == wx.shape and np.allclose(x, wx, rtol=1e-12, atol=0)):
                raise Violation("wrong-sample-times", f"record {i}")
            scale = np.abs(s.basis) @ np.abs(c[i].astype(np.float64))
            if np.shape(y) != wy.shape or np.any(np.abs(y - wy) > 1e-5 * scale):
                raise Violation("wrong-modelled-pulse", f"record {i}")
        elif what == "slice":
            sl = slice(n // 3, n - n // 4)
            if not same(h[sl]["filtValue"], t["filtValue"][sl]) or not same(h["unixnano"][sl], t["unixnano"][sl]):
                raise Violation("wrong-values", f"handle[{sl}]")
        else:
            kept.append((h[0:n]["unixnano"], t["unixnano"].copy()))
            kept.append((h["filtValue"], t["filtValue"].copy()))

    def check(self, h, s, n, what):
        if len(h) != n or h.nRecords != n:
            raise Violation("wrong-count", f"{what}: len={len(h)} nRecords={h.nRecords}, the file holds {n} complete records")
        t, c = off_truth(s, n)
        for k, v in t.items():
            if not same(h[k], v):
                raise Violation("wrong-values", f"{what}: field {k} of {n} records differs from what was written")
        if set(h.dtype.names) != set(t):
            raise Violation("wrong-fields", f"{what}: {h.dtype.names}")
        if n and not same(h.view(h._dtype_non_descriptive)["coefs"], c):
            raise Violation("wrong-values", f"{what}: coefs")
        if not same(h.projectors, s.projectors) or not same(h.basis, s.basis):
            raise Violation("wrong-model", f"{what}: projectors or basis differ from the header's")
        if h.framePeriodSeconds != s.cfg["period"]:
            raise Violation("wrong-header-value", "framePeriodSeconds")
