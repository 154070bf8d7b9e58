"""P07: the LJH rewriting tools (copy, append, truncate, modify, merge) under full disks and failing opens."""
import contextlib
import importlib.machinery
import importlib.util
import io
import os

import numpy as np

from .. import build
from ..daq import LJHStream, ljh_cfg
from ..engine import Violation, World

_MERGE = {}


def merge_script():
    path = os.path.join(build.REPO, "bin", "ljh_merge")
    if path not in _MERGE:
        loader = importlib.machinery.SourceFileLoader("verif_ljh_merge", path)
        spec = importlib.util.spec_from_loader("verif_ljh_merge", loader)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        _MERGE[path] = m
    return _MERGE[path]


class Model:
    """What an LJH file holds: header facts and complete records."""

    def __init__(self, facts, sub, us, data):
        self.facts, self.sub, self.us, self.data = facts, list(sub), list(us), list(data)

    def __len__(self):
        return len(self.sub)

    def pick(self, idx):
        return Model(self.facts, [self.sub[i] for i in idx], [self.us[i] for i in idx], [self.data[i] for i in idx])

    def plus(self, o):
        return Model(self.facts, self.sub + o.sub, self.us + o.us, self.data + o.data)

    @property
    def v22(self):
        return not self.facts["version"].startswith("2.1")

    @property
    def recsize(self):
        return (16 if self.v22 else 6) + 2 * self.facts["nSamples"]


CALLBACKS = {
    "same": lambda d: d,
    "invert": lambda d: np.uint16(0xffff) - d,
    "half": lambda d: 1000 + (d // 2),
    "shift": lambda d: d + np.uint16(7),
}


class LJHTools(World):
    name = "ljh_tools"
    real = ("mass.core.ljh_modify (LJHModify, ljh_copy_traces, ljh_append_traces, ljh_truncate)", "bin/ljh_merge",
            "mass.core.files", "file system (tmpfs)")
    stub = ("DAQ program (source files with torn tails)", "full disk (kernel file-size limit)", "failing open()")
    rule = ("2-4 source files of random versions and shapes (torn tails) and a random history of copy, append, truncate, modify and "
            "merge calls among a few names, with the disk filling at a random byte or an open failing, then the call repeated")
    must_reach = ("disk-full", "open-failed", "repeat-after-fault", "append-to-torn", "same-file-refused", "exists-refused",
                  "append-mismatch", "merge", "partial-dest")

    def generate(self, rng, tier):
        srcs = []
        shape = rng.choice([8, 16, 30])
        for i in range(rng.randrange(2, 5)):
            cfg = ljh_cfg(rng, nsamp=shape if rng.random() < .85 else rng.choice([8, 12]), raw=True)
            if rng.random() < .5:
                cfg["version"] = "2.2.0"
            if rng.random() < .3:
                cfg["timebase"] = rng.choice([1.2345678e-6, 4.00000016e-6])
            if i and rng.random() < .6:
                cfg = dict(srcs[0]["cfg"], seed=rng.randrange(2**31))
            srcs.append({"cfg": cfg, "n": rng.choice([0, 1, 3, 8, 20]), "tail": rng.choice([0, 0, 1, 9, 30])})
        ops = []
        names = [f"s{i}" for i in range(len(srcs))]
        dests = ["d0", "d1", "merged"]
        if rng.random() < .75:
            ops.append({"op": "copy", "src": "s0", "dst": "d0", "pulses": "all", "overwrite": False, "fault": None, "repeat": False})
        for _ in range(rng.randrange(2, 12)):
            k = rng.choice(["copy", "copy", "append", "append", "truncate", "modify", "merge"])
            o = {"op": k, "src": rng.choice(names + dests[:2]), "dst": rng.choice(dests[:2] * 3 + names[:1])}
            if rng.random() < .06:
                o["dst"] = o["src"]
            if k in {"copy", "append"}:
                o["pulses"] = rng.choice(["all", "all", "none", "even", "reverse", "repeat", "last", "beyond"])
            if k in {"copy", "modify", "merge"}:
                o["overwrite"] = rng.random() < .6
            if k == "truncate":
                o["by"] = rng.choice(["n", "n", "time"])
                o["frac"] = rng.choice([0, .2, .5, .9, 1.0, 1.0])
                o["seg"] = rng.choice([None, None, 3])
            if k == "modify":
                o["cb"] = rng.choice(list(CALLBACKS))
            if k == "merge":
                o["srcs"] = [rng.choice(names + dests) for _ in range(rng.randrange(1, 4))]
            q = rng.random()
            if q < .3:
                o["fault"] = {"seam": "disk", "kind": "full", "at": rng.choice([rng.randrange(0, 900), rng.randrange(0, 3000)])}
            elif q < .4:
                o["fault"] = {"seam": "open", "kind": rng.choice(["EIO", "EMFILE", "EACCES"]), "k": rng.randrange(1, 6)}
            else:
                o["fault"] = None
            o["repeat"] = rng.random() < .8
            ops.append(o)
        return {"srcs": srcs, "ops": ops}

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        from mass.core import ljh_modify
        os.mkdir(ctx.path("in"))
        self.files = {}
        for i, s in enumerate(plan["srcs"]):
            st = LJHStream(s["cfg"])
            for _ in range(s["n"]):
                st.add()
            data, sub, us, _ = st.truth(len(st.records))
            facts = {"version": s["cfg"]["version"], "nSamples": st.nsamp, "nPresamples": st.npre_true,
                     "timebase": s["cfg"]["timebase"], "subframe_divisions": st.subdiv, "subframe_offset": st.suboff}
            facts["timebase"] = float(f"{s['cfg']['timebase']:.10e}")
            with open(self.p(ctx, f"s{i}"), "wb") as f:
                f.write(bytes(st.bytes) + b"\x05" * min(s["tail"], st.recsize - 1))
            self.files[f"s{i}"] = Model(facts, sub, us, data)
        for op in plan["ops"]:
            self.step(op, ctx, mass, ljh_modify)

    @staticmethod
    def p(ctx, name):
        return ctx.path("in", "merged_chan5.ljh" if name == "merged" else f"{name}_chan5.ljh")

    def snapshot(self, ctx):
        out = {}
        for n in sorted(os.listdir(ctx.path("in"))):
            with open(ctx.path("in", n), "rb") as f:
                out[n] = f.read()
        return out

    @staticmethod
    def pulses(kind, n):
        return {"all": None, "none": [], "even": list(range(0, n, 2)), "reverse": list(range(n))[::-1],
                "repeat": [0, 0] if n else [], "last": [n - 1] if n else [], "beyond": [0, n + 2]}[kind]

    def step(self, op, ctx, mass, lm):
        k, dst = op["op"], op["dst"]
        if k == "merge":
            dst = "merged"
            if any(s not in self.files for s in op["srcs"]):
                return
        elif op["src"] not in self.files:
            return
        src = None if k == "merge" else self.files[op["src"]]
        old = self.files.get(dst)
        before = self.snapshot(ctx)
        dname = os.path.basename(self.p(ctx, dst))
        exists = dname in before
        want, call, refuse = self.request(op, ctx, lm, src, old, exists, dst)
        fault = op["fault"]
        limit = None
        if fault and fault["seam"] == "disk":
            base = len(before[dname]) if k == "append" and exists else 0
            fault = dict(fault, k=base + fault["at"])
            limit = fault["k"]
        raised = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), ctx.armed(fault) as armed:
                call()
        except Exception as e:
            raised = e
        after = self.snapshot(ctx)
        for n in before:
            if n != dname and after.get(n) != before[n]:
                raise Violation("other-file-changed", f"{k} {op.get('src', op.get('srcs'))} -> {dst} changed {n}")
        if [n for n in after if n not in before and n != dname]:
            raise Violation("unexpected-file", f"{k} created {sorted(set(after) - set(before))}")
        ctx.event(k, len(want) if want else None, bool(refuse), type(raised).__name__, limit is not None)
        if refuse:
            if raised is None:
                raise Violation("not-refused", f"{k} {op.get('src', op.get('srcs'))} -> {dst}: {refuse}, but the call returned normally")
            ctx.probe(refuse.split(":")[0])
            if refuse.split(":")[0] in {"same-file-refused", "exists-refused", "append-mismatch"}:
                if after.get(dname) != before.get(dname):
                    raise Violation("refused-but-changed", f"{k} raised {raised!r} ({refuse}) but {dname} changed")
            self.relearn(dst, ctx, mass, after.get(dname) != before.get(dname))
            return
        needed = len(after.get(dname, b""))
        if raised is None:
            if fault and fault["seam"] == "open" and armed.fired:
                raise Violation("error-swallowed", f"{k}: an open failed with {fault['kind']} but the call returned normally")
            self.compare(self.p(ctx, dst), want, mass, f"{k} -> {dst}" + (f" with the disk full at byte {limit}" if limit is not None
                                                                            else ""))
            self.files[dst] = want
            return
        # It raised: only allowed because of an injected fault.
        if not (fault and isinstance(raised, OSError) and (armed.fired or (limit is not None and needed >= min(limit, 1) * 0
                                                                          and limit < self.size_needed(want, before, dname, k)))):
            raise raised
        ctx.probe("disk-full" if limit is not None else "open-failed")
        if limit is not None:
            ctx.fault_fired("disk:full-hit")
        got = self.read(self.p(ctx, dst), mass) if dname in after else None
        if got is None:
            if k == "append" and exists:
                raise Violation("destination-damaged", f"a failed append left {dname} unreadable")
            if dname in after and after[dname] == b"" or dname not in after:
                pass
            self.files.pop(dst, None) if k != "append" else None
            if dname not in after:
                self.files.pop(dst, None)
        elif exists and after[dname] == before[dname] and old is not None:
            pass     # nothing was written
        else:
            n = len(got[0])
            self.compare(self.p(ctx, dst), want.pick(range(min(n, len(want)))), mass, f"{k} -> {dst} after a fault: a prefix of the request",
                         kind="not-a-prefix")
            if k == "append" and old is not None and n < len(old):
                raise Violation("destination-damaged", f"a failed append left {n} of the {len(old)} records that were there")
            ctx.probe("partial-dest")
            if want.pick(range(n)).facts["version"] != want.facts["version"]:
                pass
            self.files[dst] = want.pick(range(n))
        if not op["repeat"]:
            return
        # Once the fault is gone, the same request succeeds completely.
        o2 = dict(op, fault=None, overwrite=True)
        src = None if k == "merge" else self.files.get(op["src"])
        if k != "merge" and src is None or k == "merge" and any(s not in self.files for s in op["srcs"]):
            return
        want2, call2, refuse2 = self.request(o2, ctx, lm, src, self.files.get(dst), os.path.exists(self.p(ctx, dst)), dst)
        if refuse2:
            return
        with contextlib.redirect_stdout(io.StringIO()):
            call2()
        self.compare(self.p(ctx, dst), want2, mass, f"{k} -> {dst} repeated after a fault")
        self.files[dst] = want2
        ctx.probe("repeat-after-fault")
        ctx.event("repeated", k, len(want2))

    @staticmethod
    def size_needed(want, before, dname, k):
        return 10**9 if want is None else len(want) * (16 + 2 * want.facts["nSamples"]) + 4000

    def relearn(self, dst, ctx, mass, changed):
        """After a refused call that did touch its destination: the file is nobody's any more."""
        if changed:
            self.files.pop(dst, None)
            if os.path.exists(self.p(ctx, dst)):
                os.remove(self.p(ctx, dst))

    def request(self, op, ctx, lm, src, old, exists, dst):
        """-> (model of the complete result, callable, reason to refuse or '')"""
        k = op["op"]
        dp = self.p(ctx, dst)
        refuse = ""
        if k == "merge":
            ms = [self.files[s] for s in op["srcs"]]
            paths = [self.p(ctx, s) for s in op["srcs"]]
            over = op.get("overwrite", False)
            ctx.probe("merge")
            if exists and not over:
                refuse = "exists-refused"
            elif dst in op["srcs"]:
                refuse = "same-file-refused"
            elif len(ms) > 1 and any(m.facts["nSamples"] != ms[0].facts["nSamples"] for m in ms):
                refuse = "merge-mismatch"
            elif len(ms) > 1 and not ms[0].v22:
                refuse = "merge-mismatch: first file is LJH 2.1"
            want = ms[0]
            for m in ms[1:]:
                want = want.plus(m)
            mod = merge_script()
            return want, (lambda: mod.merge(dp, paths, over)), refuse
        sp = self.p(ctx, op["src"])
        same = op["src"] == dst
        v22facts = dict(src.facts, version="2.2.0") if not src.v22 else src.facts
        if k in {"copy", "append"}:
            idx = self.pulses(op["pulses"], len(src))
            full = list(range(len(src))) if idx is None else idx
            beyond = any(i >= len(src) for i in full)
            part = src.pick([i for i in full if i < len(src)])
        if k == "copy":
            want = part
            want.facts = v22facts
            over = op.get("overwrite", False)
            if exists and not over:
                refuse = "exists-refused"
            elif same:
                refuse = "same-file-refused"
            elif beyond:
                refuse = "beyond-refused"
            return want, (lambda: lm.ljh_copy_traces(sp, dp, full, overwrite=over)), refuse
        if k == "append":
            if old is None:
                # a destination that is missing or is not a whole LJH file
                refuse = "append-no-destination"
                want = None
            else:
                want = old.plus(part)
                if same:
                    refuse = "same-file-refused"
                elif not old.v22 or old.facts["nSamples"] != src.facts["nSamples"]:
                    refuse = "append-mismatch"
                elif beyond:
                    refuse = "beyond-refused"
                elif os.path.getsize(dp) != self.whole_size(dp, old):
                    ctx.probe("append-to-torn")
            return want, (lambda: lm.ljh_append_traces(sp, dp, idx)), refuse
        if k == "truncate":
            if op["by"] == "n":
                n = int(round(op["frac"] * len(src)))
                kw = {"n_pulses": n}
            else:
                n = int(round(op["frac"] * len(src)))
                ts = (src.us[n - 1] / 1e6 + 2e-6) if n else ((src.us[0] / 1e6 - 1e-3) if len(src) else 1.0)
                n = sum(1 for u in src.us if u / 1e6 <= ts) if all(a <= b for a, b in zip(src.us, src.us[1:])) else \
                    next((i for i, u in enumerate(src.us) if u / 1e6 > ts), len(src))
                kw = {"timestamp": ts}
            if op["seg"]:
                kw["segmentsize"] = op["seg"] * src.recsize
            if same:
                refuse = "same-file-refused"
            elif not src.v22:
                refuse = "truncate-2.1"
            return src.pick(range(n)), (lambda: lm.ljh_truncate(sp, dp, **kw)), refuse
        cb = CALLBACKS[op["cb"]]
        over = op.get("overwrite", False)
        want = Model(src.facts, src.sub, src.us, [np.asarray(cb(np.array(d)), dtype=np.uint16) for d in src.data])
        if same:
            refuse = "same-file-refused"
        elif exists and not over:
            refuse = "exists-refused"
        user = {"same": lm.dummy_callback, "invert": lm.callback_invert, "shift": lm.callback_shift(7), "half": cb}[op["cb"]]
        return want, (lambda: lm.LJHModify(sp, dp, user, overwrite=over)), refuse

    @staticmethod
    def whole_size(path, m):
        with open(path, "rb") as f:
            b = f.read()
        h = b.index(b"#End of Header")
        h = b.index(b"\n", h) + 1
        return h + len(m) * m.recsize

    @staticmethod
    def read(path, mass):
        """(records, file) or None when the file cannot be opened."""
        try:
            f = mass.LJHFile.open(path)
        except Exception:
            return None
        return f.alldata, f

    def compare(self, path, want, mass, what, kind="wrong-result"):
        f = mass.LJHFile.open(path)
        if f.nPulses != len(want):
            raise Violation(kind, f"{what}: {f.nPulses} records, requested {len(want)}")
        for a in ("nSamples", "nPresamples", "subframe_divisions", "subframe_offset"):
            if getattr(f, a) != want.facts[a]:
                raise Violation("wrong-header-fact", f"{what}: {a}={getattr(f, a)}, the source has {want.facts[a]}")
        if abs(f.timebase / want.facts["timebase"] - 1) > 1e-9:
            raise Violation("wrong-header-fact", f"{what}: timebase={f.timebase}, the source has {want.facts['timebase']}")
        n = len(want)
        if not np.array_equal(f.alldata, np.array(want.data, dtype=np.uint16).reshape(n, want.facts["nSamples"])):
            raise Violation(kind, f"{what}: samples differ")
        if not np.array_equal(f.subframecount, np.array(want.sub, dtype=np.int64)):
            raise Violation(kind, f"{what}: subframe counts {np.asarray(f.subframecount)[:3]}, want {want.sub[:3]}")
        if not np.array_equal(f.datatimes_raw, np.array(want.us, dtype=np.int64)):
            raise Violation(kind, f"{what}: times {np.asarray(f.datatimes_raw)[:3]}, want {want.us[:3]}")
