"""P01: LJH files read while they are being written, or cut short anywhere."""
import numpy as np

from ..daq import FileWriter, LJHStream, ljh_cfg
from ..engine import Violation, World


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b))


class LJHReader(World):
    name = "ljh_reader"
    real = ("mass.core.files (LJHFile, LJHFile2_1, LJHFile2_2)", "mass.core.channel (PulseRecords, NoiseRecords)",
            "file system (tmpfs), mmap")
    stub = ("DAQ program (independent LJH encoder appending arbitrary byte counts)", "failing open()")
    rule = ("random LJH header variant (version, client, source, subframe fields, line ends) and a random history of "
            "byte-granular appends, opens, re-reads of old handles, segment-size changes and inversions")
    must_reach = ("torn-open", "header-torn", "old-handle-read", "zero-records")

    def generate(self, rng, tier):
        cfg = ljh_cfg(rng)
        cfg["raw"] = rng.random() < .7
        recsize = (6 if cfg["version"] < "2.2" else 16) + 2 * cfg["nsamp"]
        ops = []
        style = rng.choice(["bytes", "records", "mixed"])
        hdr = rng.random()
        if hdr < .25:       # dribble the header
            for _ in range(rng.randrange(1, 4)):
                ops.append({"op": "flush", "n": rng.choice([rng.randrange(1, 500), "header-1", "header-2"])})
                ops.append({"op": "open", "how": "file"})
        ops.append({"op": "header"})
        for _ in range(rng.randrange(4, 26)):
            r = rng.random()
            if r < .45:
                ops.append({"op": "make", "n": rng.choice([0, 1, 1, 2, 3, 7, 20])})
                if style == "records":
                    ops.append({"op": "flush", "n": None})
                elif style == "bytes" or rng.random() < .5:
                    ops.append({"op": "flush", "n": rng.choice([1, 5, 15, 16, 17, recsize - 1, recsize, recsize + 1,
                                                               rng.randrange(1, 4 * recsize)])})
                else:
                    ops.append({"op": "flush", "n": None})
            elif r < .75:
                ops.append({"op": "open", "how": rng.choice(["file", "file", "pulse", "noise"]),
                            "fault": {"seam": "open", "k": rng.randrange(1, 4), "kind": rng.choice(["EIO", "EMFILE"])}
                            if rng.random() < .12 else None})
            elif r < .85:
                ops.append({"op": "old", "i": rng.randrange(64), "what": rng.choice(["all", "trace", "copy", "times"])})
            elif r < .93:
                ops.append({"op": "segments", "i": rng.randrange(64), "nrec": rng.choice([1, 1, 2, 3, 5, 100]),
                            "slop": rng.randrange(0, recsize)})
            else:
                ops.append({"op": "invert", "i": rng.randrange(64)})
        ops.append({"op": "open", "how": "file"})
        return {"cfg": cfg, "ops": ops}

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        s = LJHStream(plan["cfg"])
        path = ctx.path("run_chan7.ljh")
        open(path, "wb").close()
        w = FileWriter(path, s)
        handles = []
        for op in plan["ops"]:
            k = op["op"]
            if k == "header":
                if w.written < len(s.header):
                    w.flush(len(s.header) - w.written)
                ctx.event(k)
            elif k == "make":
                for _ in range(op["n"]):
                    r = s.add()
                ctx.sim_ns = 1000 * (s.t_us - 1_600_000_000_000_000)
                ctx.event(k, op["n"])
            elif k == "flush":
                n = op["n"]
                if isinstance(n, str):      # all of the header but its last bytes
                    n = max(0, len(s.header) - int(n[-1]) - w.written)
                w.flush(n)
                if w.torn:
                    ctx.fault_fired("daq:torn-append")
                ctx.event(k, w.written)
            elif k == "open":
                self.do_open(op, w, s, ctx, handles, mass)
            elif handles:
                h, n, inv = handles[op["i"] % len(handles)]
                ctx.probe("old-handle-read" if w.complete_records > n else "handle-read")
                if k == "invert":
                    h.invert_data = not inv
                    handles[op["i"] % len(handles)] = (h, n, not inv)
                    self.check(h, s, n, not inv, ctx, "after inverting")
                elif k == "segments":
                    h.set_segment_size(op["nrec"] * s.recsize + op["slop"])
                    self.segments(h, n, s, op["nrec"])
                elif op["what"] == "copy":
                    self.check(h.copy(), s, n, inv, ctx, "a copy")
                elif op["what"] == "trace" and n > 0:
                    j = (op["i"] * 7919) % n
                    d, sub, us, tf = s.truth(n)
                    want = ~d[j] if inv else d[j]
                    if not same(h.read_trace(j), want):
                        raise Violation("wrong-samples", f"read_trace({j}) of a handle opened at {n} records")
                    a, b, c = h.read_trace_with_timing(j)
                    if int(a) != int(sub[j]) or int(b) != int(us[j]) or not same(c, want):
                        raise Violation("wrong-timing", f"read_trace_with_timing({j}): {a},{b} want {sub[j]},{us[j]}")
                    sl = slice(j // 2, j + 1)
                    if not same(h[sl], ~d[sl] if inv else d[sl]):
                        raise Violation("wrong-samples", f"handle[{sl}]")
                else:
                    self.check(h, s, n, inv, ctx, "an old handle")
                ctx.event(k, n, inv)
        for h, n, inv in handles:
            self.check(h, s, n, inv, ctx, "at the end, a handle")

    def do_open(self, op, w, s, ctx, handles, mass):
        n = w.complete_records
        header_done = w.written >= len(s.header)
        how = op["how"]
        f = op.get("fault")
        try:
            with ctx.armed(f) as armed:
                if how == "file":
                    h = mass.LJHFile.open(w.path)
                elif how == "pulse":
                    pr = mass.PulseRecords(w.path)
                    h = pr.datafile
                else:
                    nr = mass.NoiseRecords(w.path)
                    h = nr.datafile
        except Exception as e:
            if armed.fired and isinstance(e, OSError):
                ctx.event("open-failed", type(e).__name__)
                return
            if not header_done:
                ctx.probe("header-torn")
                ctx.event("open-torn-header", type(e).__name__)
                return
            if how == "noise" and n == 0:
                ctx.event("noise-open-empty")
                return
            raise
        if armed.fired:
            raise Violation("error-swallowed", f"open() failed with {f['kind']} but LJHFile.open returned normally")
        if not header_done:
            raise Violation("accepted-torn-header", f"opened with only {w.written} of {len(s.header)} header bytes")
        if w.torn:
            ctx.probe("torn-open")
        if n == 0:
            ctx.probe("zero-records")
        self.check(h, s, n, False, ctx, "a fresh handle")
        if how == "pulse":
            for a in ("nSamples", "nPresamples", "nPulses", "timebase", "channum", "subframe_offset", "subframe_divisions"):
                if getattr(pr, a) != getattr(h, a):
                    raise Violation("pulserecords-attribute", a)
            if pr.nPulses != n:
                raise Violation("wrong-count", f"PulseRecords.nPulses={pr.nPulses}, want {n}")
        if how == "noise" and not same(nr.data, s.truth(n)[0]):
            raise Violation("wrong-samples", "NoiseRecords.data")
        handles.append((h, n, False))
        ctx.event("open", how, n, w.torn)

    def segments(self, h, n, s, nrec):
        pps, ns = h.pulses_per_seg, h.n_segments
        if pps != nrec:
            raise Violation("segment-size", f"asked for {nrec} records per segment, got {pps}")
        got = np.concatenate([np.arange(i * pps, min((i + 1) * pps, n)) for i in range(ns)] or [np.zeros(0, int)])
        if not same(got, np.arange(n)):
            raise Violation("segment-tiling", f"{ns} segments of {pps} do not tile {n} records")

    def check(self, h, s, n, inv, ctx, what):
        c = s.cfg
        if h.nPulses != n:
            raise Violation("wrong-count", f"{what}: nPulses={h.nPulses}, the file holds {n} complete records")
        want = {"nSamples": c["nsamp"], "nPresamples": s.npre_true, "channum": 7, "subframe_divisions": s.subdiv,
                "subframe_offset": s.suboff}
        if c.get("rows") is not None:
            want.update(number_of_rows=c["rows"], number_of_columns=c["cols"], row_number=c["row"], column_number=c["col"])
        else:
            want.update(number_of_rows=1, number_of_columns=1, row_number=0, column_number=0)
        want.update(timestamp_offset=1.6e9, version_str=c["version"].encode(), client=(c.get("client") or "UNKNOWN").encode(),
                    pulse_size_bytes=s.recsize)
        for k, v in want.items():
            if getattr(h, k) != v:
                raise Violation("wrong-header-value", f"{what}: {k}={getattr(h, k)!r}, want {v!r}")
        if abs(h.timebase / c["timebase"] - 1) > 1e-9:
            raise Violation("wrong-header-value", f"timebase {h.timebase}")
        if not np.allclose(h.sample_usec, (np.arange(c["nsamp"]) - s.npre_true) * c["timebase"] * 1e6, rtol=1e-8, atol=1e-8):
            raise Violation("wrong-header-value", f"sample_usec {h.sample_usec[:2]}")
        d, sub, us, tf = s.truth(n)
        if inv:
            d = ~d
        if not same(h.alldata, d):
            raise Violation("wrong-samples", f"{what}: alldata differs from what was written ({n} records, inverted={inv})")
        if not same(h.subframecount, sub):
            raise Violation("wrong-subframecount", f"{what}: got {np.asarray(h.subframecount)[:3]} want {sub[:3]}")
        if not same(h.datatimes_raw, us):
            raise Violation("wrong-timestamp", f"{what}: datatimes_raw {np.asarray(h.datatimes_raw)[:3]} want {us[:3]}")
        if not np.allclose(h.datatimes_float, tf, rtol=1e-15, atol=0):
            raise Violation("wrong-timestamp", f"{what}: datatimes_float")
