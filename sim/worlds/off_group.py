"""P05: a live OFF channel group against a fresh one, after any refresh history."""
import numpy as np

from ..daq import T0_NS, FileWriter, OffStream, StateStream, expected_labels, off_cfg
from ..engine import Violation, World
from .expt_state import LABELS, compare_states
from .off_reader import off_truth, same

RECIPES = {
    "r_gain": (lambda filtValue: 2 * filtValue + 1, None),
    "r_ratio": (lambda a, b: a / (1 + np.abs(b)), ["derivativeLike", "filtValue"]),
    "r_twice": (lambda r_gain: 2 * r_gain, None),
    "r_coef": (lambda c: c[:, 0] - c[:, -1], ["coefs"]),
}
CUTS = {
    "cutRSD": lambda residualStdDev: residualStdDev < 10,
    "cutFV": lambda filtValue: filtValue < 2500,
    "cutTime": lambda unixnano: (unixnano // 1000) % 3 != 0,
}


class OffSetup:
    """A few OFF files plus a state file sharing one clock, appended by the simulated DAQ program."""

    def __init__(self, plan, ctx, base="run"):
        self.ctx = ctx
        self.base = base
        self.streams, self.writers, self.names = {}, {}, []
        for i, cfg in enumerate(plan["chans"]):
            ch = 2 * i + 1
            s = OffStream(cfg)
            path = ctx.path(f"{base}_chan{ch}.off")
            open(path, "wb").close()
            self.streams[ch], self.writers[ch] = s, FileWriter(path, s)
            self.names.append(path)
        self.state = StateStream()
        self.state_path = ctx.path(f"{base}_experiment_state.txt")
        open(self.state_path, "wb").close()
        self.sw = FileWriter(self.state_path, self.state)
        self.t = T0_NS

    def tick(self, dt):
        self.t += int(dt)
        self.ctx.sim_ns = self.t - T0_NS

    def label(self, lab):
        self.state.add(self.t, lab)

    def records(self, ch, n, dt):
        s = self.streams[ch]
        for _ in range(n):
            self.tick(dt)
            s.add(dt_ns=self.t - s.t_ns)

    def flush(self, which, n):
        w = self.sw if which == "state" else self.writers[which]
        w.flush(n)

    def flush_all(self):
        self.sw.flush(None)
        for w in self.writers.values():
            w.flush(None)

    def labels_on_disk(self):
        return self.state.complete(self.sw.written)

    def times(self, ch, n):
        return [r["unixnano"] for r in self.streams[ch].records[:n]]


def define(ds, d):
    kind, name, default = d
    if kind == "recipe":
        f, ing = RECIPES[name]
        ds.recipes.add(name, f, ing, overwrite=True)
    else:
        ds.cutAdd(name, CUTS[name], overwrite=True, setDefault=default)


class OffGroupLive(World):
    name = "off_group_live"
    real = ("mass.off.channels (ChannelGroup, Channel, refreshFromFiles)", "mass.off.off", "mass.off.experiment_state",
            "mass.off.util.RecipeBook", "file system (tmpfs), mmap")
    stub = ("DAQ program (OFF and state files, torn appends, writes in the middle of a refresh)", "failing open()")
    rule = ("1-4 channels and a state file on one clock, appended in random pieces, with refreshes, refreshes that fail or race "
            "with a write, added recipes and cuts, channels marked bad and good; compared with the definition and with a "
            "freshly opened group")
    must_reach = ("refresh-raced", "refresh-failed", "refresh-grew", "new-label", "bad-then-good", "torn-at-refresh")

    def generate(self, rng, tier):
        nch = rng.choice([1, 2, 2, 3, 4])
        base = off_cfg(rng)
        chans = [dict(base, seed=rng.randrange(2**31), row=i) for i in range(nch)]
        chs = [2 * i + 1 for i in range(nch)]
        labels = rng.sample(LABELS, rng.randrange(1, 7))
        ops = [{"op": "label", "label": rng.choice(labels)}]
        for ch in chs:
            ops.append({"op": "rec", "ch": ch, "n": rng.randrange(1, 4), "dt": rng.choice([1, 1000, 10**6])})
        ops += [{"op": "flush", "which": None, "n": None}, {"op": "start"}]
        recsize = 40 + 4 * base["nbasis"]
        for _ in range(rng.randrange(6, 36)):
            r = rng.random()
            if r < .2:
                ops.append({"op": "label", "label": rng.choice(labels)})
            elif r < .5:
                ops.append({"op": "rec", "ch": rng.choice(chs), "n": rng.choice([0, 1, 1, 2, 5]),
                            "dt": rng.choice([0, 1, 1000, 10**6, 10**9])})
            elif r < .65:
                ops.append({"op": "flush", "which": rng.choice(chs + ["state", "state"]),
                            "n": rng.choice([None, None, 5, 21, recsize, recsize - 3, rng.randrange(1, 3 * recsize)])})
            elif r < .7:
                ops.append({"op": "flush", "which": None, "n": None})
            elif r < .85:
                q = rng.random()
                f = None
                if q < .15:
                    f = {"seam": "open", "k": rng.randrange(1, 2 + nch), "kind": rng.choice(["EIO", "EMFILE"])}
                elif q < .45:
                    f = {"seam": "open", "k": rng.randrange(1, 2 + nch), "kind": "daq"}
                ops.append({"op": "refresh", "fault": f})
            elif r < .9:
                ops.append({"op": rng.choice(["bad", "good"]), "ch": rng.choice(chs)})
            elif r < .95:
                ops.append({"op": "recipe", "name": rng.choice(list(RECIPES))})
            else:
                ops.append({"op": "cut", "name": rng.choice(list(CUTS)), "default": rng.random() < .5})
        for ch in chs:
            ops.append({"op": "good", "ch": ch})
        ops += [{"op": "flush", "which": None, "n": None}, {"op": "refresh", "fault": None}]
        mode = rng.choice(["auto", "auto", "auto", [], ["START", "END"]])
        aliases = {}
        if rng.random() < .25:
            aliases = {lab: rng.choice(["X", "A"]) for lab in rng.sample(LABELS, 3)}
        return {"chans": chans, "ops": ops, "mode": mode, "aliases": aliases}

    # ------------------------------------------------------------------------------------------
    def open_group(self, env, plan, mass):
        esf = mass.off.ExperimentStateFile(filename=env.state_path, excludeStates=plan["mode"])
        for k, v in plan["aliases"].items():
            esf.aliasState(k, v)
        return mass.off.ChannelGroup(list(env.names), verbose=False, experimentStateFile=esf)

    def execute(self, plan, ctx):
        import mass
        env = OffSetup(plan, ctx)
        g = None
        chs = list(env.streams)
        defs = {ch: [] for ch in chs}
        bad = set()
        seen = {}       # per channel record count when it was last taken in
        ctx.on_daq = env.flush_all
        try:
            for op in plan["ops"]:
                k = op["op"]
                if k == "label":
                    env.tick(1)
                    env.label(op["label"])
                elif k == "rec":
                    env.records(op["ch"], op["n"], op["dt"])
                elif k == "flush":
                    if op["which"] is None:
                        env.flush_all()
                    else:
                        env.flush(op["which"], op["n"])
                    ctx.event(k, op["which"], op["n"])
                elif k == "start" and g is None:
                    g = self.start(env, plan, mass, ctx)
                    if g is not None:
                        seen = {ch: w.complete_records for ch, w in env.writers.items()}
                        self.check(g, env, plan, defs, seen, chs, mass, ctx, "after opening")
                elif g is None:
                    continue
                elif k == "bad":
                    g[op["ch"]].markBad("simulated")
                    bad.add(op["ch"])
                elif k == "good":
                    if op["ch"] in bad:
                        ctx.probe("bad-then-good")
                    g[op["ch"]].markGood()
                    bad.discard(op["ch"])
                elif k in {"recipe", "cut"}:
                    self.add_def(g, op, chs, bad, defs, ctx)
                elif k == "refresh":
                    self.refresh(g, op, env, plan, defs, seen, chs, bad, mass, ctx)
        finally:
            g = None

    def start(self, env, plan, mass, ctx):
        if not env.labels_on_disk() or any(w.complete_records < 1 for w in env.writers.values()):
            return None
        g = self.open_group(env, plan, mass)
        ctx.event("start", len(env.writers))
        return g

    def add_def(self, g, op, chs, bad, defs, ctx):
        if op["op"] == "recipe":
            d = ("recipe", op["name"], False)
        else:
            d = ("cut", op["name"], op["default"])
        for ch in chs:
            if ch in bad:
                continue
            if d[1] == "r_twice" and not any(x[1] == "r_gain" for x in defs[ch]):
                continue
            define(g[ch], d)
            defs[ch].append(d)
        ctx.event("define", d[1])

    def refresh(self, g, op, env, plan, defs, seen, chs, bad, mass, ctx):
        good = [ch for ch in chs if ch not in bad]
        if not good:
            return
        f = op["fault"]
        before = {ch: len(g[ch]) for ch in good}
        lab_before = list(g.experimentStateFile.labels)
        if env.sw.torn_line() or any(w.torn for w in env.writers.values()):
            ctx.probe("torn-at-refresh")
            ctx.fault_fired("daq:torn-append")
        disk_before = {ch: env.writers[ch].complete_records for ch in good}
        try:
            with ctx.armed(f) as armed:
                n_lab, n_rec = g.refreshFromFiles()
        except OSError:
            if not armed.fired:
                raise
            ctx.probe("refresh-failed")
            ctx.event("refresh-failed")
            return
        raced = armed.fired
        if raced and f["kind"] != "daq":
            raise Violation("error-swallowed", "an open failed during refreshFromFiles but it returned normally")
        for ch in good:
            n = len(g[ch])
            disk = env.writers[ch].complete_records
            if not (disk_before[ch] <= n <= disk):
                raise Violation("wrong-count", f"channel {ch} has {n} records after a refresh, {disk_before[ch]} were on disk "
                                f"before it and {disk} after it")
            seen[ch] = n
        want = {ch: len(g[ch]) - before[ch] for ch in good}
        if dict(n_rec) != want:
            raise Violation("wrong-report", f"refresh reported {dict(n_rec)} new records, it took in {want}")
        new = [lab for lab in g.experimentStateFile.labels if lab not in lab_before]
        if n_lab != len(new):
            raise Violation("wrong-report", f"refresh reported {n_lab} new labels, it took in {new}")
        if new:
            ctx.probe("new-label")
        if any(want.values()):
            ctx.probe("refresh-grew")
        ctx.event("refresh", n_lab, sum(want.values()), raced)
        if raced:
            ctx.probe("refresh-raced")
            esf = g.experimentStateFile
            ent = env.labels_on_disk()[:len(esf.allLabels)]
            for ch in good:
                compare_states(g[ch].statesDict, env.times(ch, seen[ch]), ent, plan["mode"], plan["aliases"],
                               f"channel {ch} after a refresh that raced with a write")
        else:
            self.check(g, env, plan, defs, seen, good, mass, ctx, "after a refresh")

    def check(self, g, env, plan, defs, seen, good, mass, ctx, what):
        ent = env.labels_on_disk()
        labels = expected_labels(ent, plan["mode"], plan["aliases"])
        if list(g.stateLabels) != labels:
            raise Violation("wrong-labels", f"{what}: labels {g.stateLabels}, expected {labels}")
        fresh = self.open_group(env, plan, mass)
        for ch in good:
            ds, fs = g[ch], fresh[ch]
            n = seen[ch]
            if len(ds) != n or ds.nRecords != n:
                raise Violation("wrong-count", f"{what}: channel {ch} has {len(ds)} records, {n} are on disk")
            for d in defs[ch]:
                define(fs, d)
            compare_states(ds.statesDict, env.times(ch, n), ent, plan["mode"], plan["aliases"], f"{what}: channel {ch}")
            if dict(ds.statesDict) != dict(fs.statesDict):
                raise Violation("differs-from-fresh", f"{what}: channel {ch} states {ds.statesDict}, fresh {fs.statesDict}")
            t, _ = off_truth(env.streams[ch], n)
            for a in ("unixnano", "filtValue", "framecount"):
                if not same(ds.offFile[a], t[a]):
                    raise Violation("wrong-values", f"{what}: channel {ch} field {a}")
            attrs = ["unixnano", "filtValue", "relTimeSec"] + [d[1] for d in defs[ch]]
            sels = [None, *labels] + ([labels] if labels else [])
            cuts = [None, "cutNone"] + ["!" + d[1] for d in defs[ch] if d[0] == "cut"][:1]
            for sel in sels:
                for cut in cuts:
                    a, b = ds.getAttr(attrs, sel, cut), fs.getAttr(attrs, sel, cut)
                    for name, x, y in zip(attrs, a, b):
                        if not same(x, y):
                            raise Violation("differs-from-fresh", f"{what}: channel {ch} {name} for states {sel} cut {cut}")
            edges = np.arange(0, 4000, 500)
            if not same(ds.hist(edges, "filtValue")[1], fs.hist(edges, "filtValue")[1]):
                raise Violation("differs-from-fresh", f"{what}: channel {ch} histogram")
