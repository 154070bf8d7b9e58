"""P06: every pulse gets its true nearest external triggers."""
import h5py
import numpy as np

from ..daq import T0_NS, off_cfg
from ..engine import Violation, World
from ..tes import TesSetup, close, tes_cfg
from .off_group import OffSetup

NONE = np.iinfo(np.int64).max
HEADERS = ["# external trigger subframecounts as int64 binary\n", "# external trigger rowcounts (nrow=%d)\n", "\n"]


def nearest(pulses, triggers):
    """Independent definition."""
    last, until = [], []
    for p in pulses:
        before = [t for t in triggers if t <= p]
        after = [t for t in triggers if t > p]
        last.append(p - max(before) if before else NONE)
        until.append(min(after) - p if after else NONE)
    return np.array(last, dtype=np.int64), np.array(until, dtype=np.int64)


def compare(got, want, what):
    got = np.asarray(got)
    if got.shape != want.shape or not np.array_equal(got, want):
        i = int(np.flatnonzero(got != want)[0]) if got.shape == want.shape else -1
        raise Violation("wrong-timing", f"{what}: pulse {i}: " +
                        (f"got {got[i]}, true value {want[i]}" if i >= 0 else f"shape {got.shape}, want {want.shape}"))


def series(rng, n, lo, hi):
    style = rng.choice(["uniform", "dense", "ties"])
    if style == "dense":
        hi = lo + max(2, n)
    v = sorted(rng.randrange(lo, max(lo + 1, hi)) for _ in range(n))
    if style == "ties" and n > 1:
        for _ in range(n // 2):
            i = rng.randrange(n - 1)
            v[i] = v[i + 1]
        v.sort()
    return v


class NearestArrivals(World):
    """The two clocks as event streams: pulses and triggers of one run arrive in any interleaving, and timing is computed on
    what has arrived so far."""

    name = "nearest_arrivals"
    weight = 2
    real = ("mass.core.analysis_algorithms.nearest_arrivals (compiled from the working tree)",)
    stub = ("DAQ program (pulse and trigger event streams)",)
    rule = ("random interleavings of pulse and trigger events (0, 1 or many of each, ties, bursts), timed at random cut points "
            "of the history")
    must_reach = ("no-triggers", "one-trigger", "no-pulses", "tie", "before-first", "after-last")

    def generate(self, rng, tier):
        ops, t = [], rng.choice([0, 1000, 10**15])
        pt = rng.random()
        for _ in range(rng.choice([0, 1, 2, 3, 6, 12, 30])):
            t += rng.choice([0, 0, 1, 2, 7, 1000])
            ops.append({"op": "pulse" if rng.random() < pt else "trig", "t": t})
            if rng.random() < .1:
                ops.append({"op": "calc"})
        ops.append({"op": "calc"})
        return {"ops": ops}

    def execute(self, plan, ctx):
        from mass.core.analysis_algorithms import nearest_arrivals
        P, T = [], []
        for op in plan["ops"]:
            if op["op"] == "pulse":
                P.append(op["t"])
            elif op["op"] == "trig":
                T.append(op["t"])
            else:
                p, t = np.array(P, dtype=np.int64), np.array(T, dtype=np.int64)
                want = nearest(P, T)
                got = nearest_arrivals(p, t)
                if not isinstance(got, tuple) or len(got) != 2:
                    raise Violation("wrong-result-form", f"{len(P)} pulses, {len(T)} triggers: not a pair but {got!r}")
                for g, w, name in zip(got, want, ("since last", "until next")):
                    compare(g, w, f"{len(P)} pulses, {len(T)} triggers, {name} trigger")
                if [list(p), list(t)] != [P, T]:
                    raise Violation("input-changed", "nearest_arrivals changed its inputs")
                ctx.event("calc", len(P), len(T), want[0][:3].tolist(), want[1][:3].tolist())
                for name, cond in (("no-triggers", not T), ("one-trigger", len(T) == 1), ("no-pulses", not P),
                                   ("tie", bool(set(P) & set(T))), ("before-first", NONE in want[0]),
                                   ("after-last", NONE in want[1])):
                    if cond:
                        ctx.probe(name)


class OffTriggers(World):
    name = "off_triggers"
    real = ("mass.off.channels.ChannelGroup.calcExternalTriggerTiming", "mass.core.analysis_algorithms.nearest_arrivals")
    stub = ("DAQ program (OFF, state and external-trigger files, torn appends)", "failing open()")
    rule = ("an OFF group and its trigger file, appended in random pieces (torn entries), timed at random points, with failing "
            "opens and channels marked bad")
    must_reach = ("trigger-file-torn", "trigger-open-failed", "no-subframe-header")

    def generate(self, rng, tier):
        nch = rng.choice([1, 2, 3])
        base = off_cfg(rng, rows=rng.choice([1, 4, 30]), period=rng.choice([1e-5, 9.6e-6]))
        base["has_subdiv"] = rng.random() < .7
        chans = [dict(base, seed=rng.randrange(2**31), row=i) for i in range(nch)]
        chs = [2 * i + 1 for i in range(nch)]
        ops = [{"op": "label"}]
        for ch in chs:
            ops.append({"op": "rec", "ch": ch, "n": rng.randrange(1, 12), "dt": rng.choice([10**4, 10**6])})
        ops += [{"op": "start"}]
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            if r < .35:
                ops.append({"op": "trig", "n": rng.choice([0, 1, 1, 2, 10]), "step": rng.choice([0, 1, 50, 1000, 10**5]),
                            "flush": rng.choice([None, None, 3, 8, 11])})
            elif r < .45:
                ops.append({"op": "bad", "ch": rng.choice(chs)})
            else:
                ops.append({"op": "calc", "which": rng.randrange(1, 8),
                            "fault": {"seam": "open", "k": 1, "kind": rng.choice(["EIO", "EMFILE"])}
                            if rng.random() < .15 else None})
        ops.append({"op": "calc", "which": 7, "fault": None})
        return {"chans": chans, "ops": ops, "header": rng.randrange(3)}

    def execute(self, plan, ctx):
        import mass
        plan = dict(plan, chans=[dict(c, subdiv=c["subdiv"] if c["has_subdiv"] else c["rows"]) for c in plan["chans"]])
        env = OffSetup(plan, ctx)
        c0 = plan["chans"][0]
        if not c0["has_subdiv"]:
            ctx.probe("no-subframe-header")
            for s in env.streams.values():
                self.drop_subdiv(s)
        div = c0["subdiv"]
        hdr = HEADERS[plan["header"]]
        hdr = (hdr % div if "%d" in hdr else hdr).encode()
        path = ctx.path("run_external_trigger.bin")
        trig, pending, written = [], bytearray(hdr), 0
        with open(path, "wb"):
            pass
        g, bad = None, set()
        t_next = 100 * div
        for op in plan["ops"]:
            k = op["op"]
            if k == "label":
                env.label("A")
                env.tick(10)
            elif k == "rec":
                env.records(op["ch"], op["n"], op["dt"])
            elif k == "start" and g is None and all(s.records for s in env.streams.values()) and env.state.entries:
                env.flush_all()
                g = mass.off.ChannelGroup(list(env.names), verbose=False)
            elif g is None:
                continue
            elif k == "trig":
                for _ in range(op["n"]):
                    t_next += op["step"]
                    trig.append(t_next)
                    pending += np.int64(t_next).tobytes()
                n = len(pending) if op["flush"] is None else min(op["flush"], len(pending))
                if written == 0:
                    n = max(n, len(hdr))
                with open(path, "ab") as f:
                    f.write(pending[:n])
                del pending[:n]
                written += n
                if written and (written - len(hdr)) % 8:
                    ctx.probe("trigger-file-torn")
                    ctx.fault_fired("daq:torn-append")
                ctx.event("trig", op["n"], n)
            elif k == "bad":
                g[op["ch"]].markBad("simulated")
                bad.add(op["ch"])
            elif k == "calc" and len(bad) < len(env.streams):
                on_disk = trig[:max(0, written - len(hdr)) // 8]
                a, u, n = bool(op["which"] & 1), bool(op["which"] & 2), bool(op["which"] & 4)
                try:
                    with ctx.armed(op["fault"]) as armed:
                        g.calcExternalTriggerTiming(after_last=a, until_next=u, from_nearest=n)
                except OSError:
                    if not armed.fired:
                        raise
                    ctx.probe("trigger-open-failed")
                    continue
                if armed.fired:
                    raise Violation("error-swallowed", "open of the trigger file failed but timing was reported done")
                period = c0["period"] / div
                for ch, s in env.streams.items():
                    if ch in bad:
                        continue
                    ds = g[ch]
                    frames = [r["framecount"] * div for r in s.records]
                    last, until = nearest(frames, on_disk)
                    what = f"channel {ch}, {len(on_disk)} triggers"
                    for flag, name, want in ((a, "after_last", last), (u, "until_next", until),
                                             (n, "from_nearest", np.minimum(last, until))):
                        if flag:
                            compare(getattr(ds, f"subframes_{name}_external_trigger"), want, f"{what}, {name}")
                            sec = getattr(ds, f"seconds_{name}_external_trigger")
                            if not np.allclose(sec, want * period, rtol=1e-12, atol=0):
                                raise Violation("wrong-seconds", f"{what}, {name}: {sec[:3]} want {(want * period)[:3]}")
                ctx.event("calc", op["which"], len(on_disk), len(bad))
                ctx.sim_ns = env.t - T0_NS

    @staticmethod
    def drop_subdiv(s):
        """An older header, without the subframe fields."""
        import json
        head, _, rest = bytes(s.header).partition(b"\n}\n")
        h = json.loads(head + b"\n}")
        del h["ReadoutInfo"]["SubframeDivisions"], h["ReadoutInfo"]["SubframeOffset"]
        new = (json.dumps(h, indent=4, ensure_ascii=False) + "\n").encode() + rest
        s.header = new
        s.bytes = bytearray(new)

    def shrink_config(self, plan):
        return [dict(plan, chans=plan["chans"][:-1])] if len(plan["chans"]) > 1 else []


class TesTriggers(World):
    name = "tes_triggers"
    real = ("mass.core.channel_group.TESGroup (external_trigger_subframe_count, calc_external_trigger_timing, summarize_data)",
            "HDF5 cache files")
    stub = ("DAQ program (LJH and external-trigger files, torn tails)",)
    rule = ("an LJH group and a binary or HDF5 trigger file with 0, 1 or many entries and a torn tail; timing computed, repeated, "
            "forced anew, and after closing and reopening")
    must_reach = ("trigger-file-torn", "hdf5-triggers", "reopened", "one-trigger", "no-triggers")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, npulses=rng.choice([8, 15]), nsamp=16, noise=False, states=False, version="2.2.0")
        cfg["npre"] = 6
        kind = rng.choice(["bin", "bin", "hdf5", "hdf5-offsets"])
        n = rng.choice([0, 1, 1, 2, 5, 40])
        return {"cfg": cfg, "kind": kind, "header": rng.randrange(3), "ntrig": n, "tseed": rng.randrange(2**31),
                "tail": rng.choice([0, 0, 3, 7]),
                "ops": [{"op": rng.choice(["calc", "calc", "force", "reopen", "seconds"])} for _ in range(rng.randrange(1, 5))]
                + [{"op": "calc"}]}

    def execute(self, plan, ctx):
        import random
        import mass
        S = TesSetup(plan["cfg"], ctx)
        rng = random.Random(plan["tseed"])
        allsub = sorted(int(r["sub"]) for s in S.streams.values() for r in s.records)
        trig = series(rng, plan["ntrig"], allsub[0] - 1000, allsub[-1] + 1000)
        if trig and rng.random() < .5:
            trig[0] = rng.choice(allsub)
            trig.sort()
        a = np.array(trig, dtype=np.int64)
        if plan["kind"] == "bin":
            hdr = HEADERS[plan["header"]]
            hdr = hdr % plan["cfg"]["subdiv"] if "%d" in hdr else hdr
            S.put_triggers(hdr, a.tobytes() + b"\x07" * plan["tail"])
            if plan["tail"]:
                ctx.probe("trigger-file-torn")
                ctx.fault_fired("daq:torn-append")
        else:
            ctx.probe("hdf5-triggers")
            with h5py.File(S.files[0].replace("_chan1.ljh", "_external_trig.hdf5"), "w") as h:
                h["trig_times_w_offsets" if plan["kind"] == "hdf5-offsets" else "trig_times"] = a
                if plan["kind"] == "hdf5-offsets":
                    h["trig_times"] = a + 5
        ctx.probe({0: "no-triggers", 1: "one-trigger"}.get(len(trig), "many-triggers"))
        g = S.open(mass)
        try:
            g.summarize_data()
            for op in plan["ops"]:
                if op["op"] == "reopen":
                    close(g)
                    g = S.open(mass)
                    ctx.probe("reopened")
                elif op["op"] == "seconds":
                    sec = g.external_trigger_subframe_as_seconds
                    if not np.allclose(sec, a / plan["cfg"]["subdiv"] * plan["cfg"]["timebase"], rtol=1e-9, atol=0):
                        raise Violation("wrong-seconds", f"external_trigger_subframe_as_seconds {sec[:3]}")
                else:
                    g.calc_external_trigger_timing(forceNew=op["op"] == "force")
                    if g.why_chan_bad:
                        raise Violation("channel-failed", f"timing marked channels bad: {dict(g.why_chan_bad)}")
                    for ds in g.datasets:
                        sub = [int(r["sub"]) for r in S.streams[ds.channum].records]
                        last, until = nearest(sub, trig)
                        what = f"channel {ds.channum}, {len(trig)} triggers"
                        compare(ds.subframes_after_last_external_trigger[:], last, what + ", after last")
                        compare(ds.subframes_until_next_external_trigger[:], until, what + ", until next")
                        compare(ds.subframes_from_nearest_external_trigger[:], np.minimum(last, until), what + ", nearest")
                ctx.event(op["op"], plan["kind"], len(trig), plan["tail"])
        finally:
            close(g)
