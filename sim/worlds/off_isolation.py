"""P14: one failing channel never stops or alters the others (OFF groups)."""
import contextlib
import json

import numpy as np

from ..daq import off_cfg
from ..engine import Violation, World
from .off_group import OffSetup

KINDS = ["EIO", "MEM", "VAL", "KEY", "RT", "DIV", "EXC", "IDX", "ATTR", "ASSERT", "text"]
LINES = {"TiKAlpha": 4510.8, "MnKAlpha": 5898.8, "CuKAlpha": 8047.8}
DATA_FAULTS = ["nan", "same", "negative", "few", "huge", "oneline", "inf", "noisy"]
QUERIES = {"hist", "hists"}


def finite(filtValue, residualStdDev):
    if not np.all(np.isfinite(filtValue)):
        raise ValueError("not finite")
    return residualStdDev < 20


CUTFUNCS = {
    "lo": lambda filtValue: filtValue < 2600,
    "rsd": lambda residualStdDev: residualStdDev < 10,
    "finite": finite,
    "rough": lambda energyRough: energyRough > 4000,
    "phase": lambda filtPhase: np.abs(filtPhase) < .5,
    "none": lambda filtValue: filtValue > 1e9,
    "short": lambda filtValue: np.ones(3, dtype=bool),
}
ATTRS = ["filtValue", "filtValueDC", "filtValuePC", "filtValueTC", "energyRough", "energy", "arbsInRefChannelUnits", "relTimeSec",
         "pretriggerMean", "filtPhase", "filtValue5Lag"]


def describe(x):
    """A comparable picture of a value an operation returned or an object holds."""
    import lmfit
    if x is None or isinstance(x, (str, int, float, bool, np.generic)):
        return repr(x)
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return [describe(y) for y in x]
    if isinstance(x, lmfit.model.ModelResult):
        return [(k, repr(v.value), repr(v.stderr)) for k, v in x.params.items()]
    if isinstance(x, dict):
        return {str(k): describe(v) for k, v in x.items()}
    name = type(x).__name__
    if name == "DriftCorrection":
        return describe(x.__dict__)
    if name == "CalibrationPlan":
        return [describe(x.uncalibratedVals), describe(x.states), describe(x.names), describe(x.energies)]
    return name


def picture(ds, labels):
    """Everything channel ds presents: {name: comparable}."""
    d = {"n": len(ds), "bad": ds.markedBadBool, "default cut": ds._default_cut_recipe_name, "recipes": sorted(ds.recipes.keys())}
    d["reason"] = ds.markedBadReason if ds.markedBadBool else None
    d["states"] = {k: repr(v) for k, v in ds.statesDict.items()}
    d["binsize"] = ds._handleDefaultBinsize(None)
    d["plan"] = describe(getattr(ds, "calibrationPlan", None))
    for a in ("subframes_after_last_external_trigger", "subframes_until_next_external_trigger", "seconds_from_nearest_external_trigger"):
        d[a] = describe(getattr(ds, a, None))
    sels = [slice(None)] + [lab for lab in labels if lab in ds.statesDict]
    for name in list(ds.recipes.keys()) + ["filtValue", "unixnano", "coefs"]:
        for sel in sels:
            for cut in ("cutNone", None):
                try:
                    v = describe(ds.getAttr(name, sel, cut))
                except Exception as e:
                    v = (type(e).__name__, str(e))
                d[f"value of {name} for {sel} with {cut}"] = v
    return d


def same_picture(kind, what, want, got):
    if want != got:
        diff = [k for k in {**want, **got} if want.get(k, "absent") != got.get(k, "absent")]
        k = diff[0]
        raise Violation(kind, f"{what}: {len(diff)} differences; {k}: {str(got.get(k, 'absent'))[:200]}, alone: {str(want.get(k, 'absent'))[:200]}"[:1200])


def h5_tree(g, skip=()):
    out = {}

    def visit(name, obj):
        if hasattr(obj, "shape") and name.split("/")[0] not in skip:
            out[name] = describe(obj[()])
    g.visititems(visit)
    return out


class OffIsolation(World):
    name = "off_isolation"
    real = ("mass.off.channels (ChannelGroup, Channel, loops, corrections, calibration plans, HDF5 export)", "mass.off.util (add_group_loop, "
            "RecipeBook)", "mass.off.off", "mass.calibration", "lmfit", "h5py/HDF5", "file system (tmpfs), mmap")
    stub = ("DAQ program (OFF, state and trigger files)", "exceptions and Ctrl-C injected at a random library line executed for one "
            "channel", "failing HDF5 writes of one channel's export")
    rule = ("2-4 channels, some of which fail at random group operations (injected exceptions of many types at a random line, failing "
            "exports, bad data), are marked bad and good and are temporarily included; each other channel compared with a group holding "
            "that channel alone to which the same operations were applied")
    must_reach = ("failed-by-fault", "failed-by-data", "several-failed", "ctrl-c", "included-bad", "good-again", "rethrow", "query-failed",
                  "refreshed", "arrays")

    def generate(self, rng, tier):
        nch = rng.choice([2, 2, 3, 4])
        base = off_cfg(rng, nsamp=16, npre=4)
        chans = [dict(base, seed=rng.randrange(2**31), row=i, gain=rng.choice([2.4, 2.5, 2.6])) for i in range(nch)]
        sick = sorted(rng.sample(range(nch), rng.choice([1, 1, 2]) if nch > 2 else 1))
        data = {str(i): rng.choice(DATA_FAULTS) for i in sick if rng.random() < .35}
        well = [i for i in range(nch) if i not in sick]
        states = rng.choice([["A"], ["A", "B"], ["A", "B", "A"]])
        ops = []
        if rng.random() < .8:
            ops.append({"op": "plan", "who": well[0], "lines": rng.sample(list(LINES), rng.choice([2, 3, 3]))})
            if rng.random() < .8:
                ops.append({"op": "align", "ref": well[0]})
        if ops and rng.random() < .35:
            ops = [ops[0], {"op": "align", "ref": well[0]},
                   {"op": "calibrate", "attr": "filtValue", "ow": True, "cut": None, "approx": rng.random() < .3}]
            ops += rng.sample([{"op": "listmode", "cut": None}, {"op": "dropone", "abs": 100, "sig": 10},
                               {"op": "hdf5", "attr": "energy", "cut": None}], rng.choice([1, 2]))
        have = {o["op"] for o in ops}
        for _ in range(rng.randrange(3, 16)):
            for _ in range(20):
                o = self.gen_op(rng, nch, well)
                need = {"dropone": "calibrate", "listmode": "calibrate", "calibrate": "align", "quality": "align"}.get(o["op"])
                if o.get("cut") in {"cutX", "!cutX"} or o.get("name") == "cutX" and o["op"] == "setcut":
                    need = "cutX"
                if o.get("f") == "rough" or o.get("attr") == "energyRough" or o["op"] == "phase" and o["lines"] is None:
                    need = "align"
                if o.get("attr") == "filtValueDC":
                    need = "drift"
                if o.get("attr") == "energy":
                    need = "calibrate"
                if o.get("state") == "B" and "B" not in states:
                    need = "B"
                if need is None or need in have or rng.random() < .05:
                    break
            have |= {o["op"], o.get("name")}
            ops.append(o)
        p = rng.choice([.15, .4, .7])
        for o in ops:
            if rng.random() < .12 and o["op"] != "hdf5":
                o["include"] = True
            if o["op"] in {"setcut", "mark", "good", "allgood", "plan", "records", "binsize"}:
                continue
            if rng.random() < p:
                o["fault"] = {"seam": "chan", "who": rng.choice(sick), "frac": rng.random(), "kind": "kbi" if rng.random() < .15 else rng.choice(KINDS)}
                if o["op"] == "hdf5" or o["op"] == "listmode" and rng.random() < .6:
                    o["fault"]["seam"] = "h5"
            if rng.random() < .1:
                o["rethrow"] = True
        return {"chans": chans, "sick": sick, "data": data, "states": states, "arrays": rng.random() < .15,
                "n": rng.choice([60, 150, 250, 400]), "dt_ms": rng.choice([1, 10**4]), "ops": ops}

    @staticmethod
    def gen_op(rng, nch, well):
        q = rng.random()
        state = rng.choice([None, None, "A", ["A"], "B"])
        cut = rng.choice([None, None, None, "cutNone", "cutX", "!cutX"])
        ow = rng.random() < .7
        if q < .14:
            return {"op": "cutadd", "name": rng.choice(["cutX", "cutY"]), "f": rng.choice(list(CUTFUNCS)), "default": rng.random() < .4, "ow": ow}
        if q < .2:
            return {"op": "rsd", "default": rng.random() < .4, "ow": ow, "state": state, "cut": cut}
        if q < .28:
            return {"op": "drift", "state": state, "cut": cut, "ow": ow}
        if q < .33:
            return {"op": "timedrift", "state": state, "cut": cut, "ow": ow, "ndeg": rng.choice([None, 1, 3]),
                    "w": rng.choice([1, 30, 30, 30])}
        if q < .39:
            return {"op": "phase", "state": state, "cut": cut, "ow": ow, "lines": rng.choice([None, "func"])}
        if q < .45:
            return {"op": "align", "ref": rng.choice(well)}
        if q < .52:
            return {"op": "calibrate", "attr": rng.choice(["filtValue", "filtValue", "filtValueDC"]), "ow": ow, "cut": cut, "approx": rng.random() < .3}
        if q < .55:
            return {"op": "peaks", "state": rng.choice([None, "A", ["A"]])}
        if q < .59:
            return {"op": "quality", "line": rng.choice(list(LINES)), "fwhm": rng.choice([None, 20]), "abs": rng.choice([None, 5]),
                    "h5": rng.random() < .5, "plot": rng.random() < .3}
        if q < .62:
            return {"op": "dropone", "abs": rng.choice([None, 1, 100]), "sig": rng.choice([3, 10])}
        if q < .67:
            return {"op": "hdf5", "attr": rng.choice(["filtValue", "filtValue", "energyRough", "energy"]), "cut": cut}
        if q < .71:
            return {"op": "listmode", "cut": cut}
        if q < .75:
            return {"op": "lag5", "missing": rng.random() < .4}
        if q < .79:
            return {"op": "trig", "after": rng.random() < .7, "until": rng.random() < .5, "near": rng.random() < .5}
        if q < .84:
            return {"op": rng.choice(["hist", "hists"]), "attr": rng.choice(["filtValue", "filtValue", "filtValueDC", "energy"]), "state": state, "cut": cut}
        if q < .88:
            return {"op": "records", "n": rng.choice([1, 5, 30])}
        if q < .90:
            return {"op": "binsize", "v": rng.choice([.5, 2.0])}
        if q < .92:
            return {"op": "setcut", "name": rng.choice(["cutX", "cutNone", "cutResidualStdDev"])}
        if q < .95:
            return {"op": "mark", "who": rng.randrange(nch), "why": rng.choice(["noisy", "", "Ti Kα"])}
        if q < .98:
            return {"op": "good", "who": rng.randrange(nch)}
        return {"op": "allgood"}

    # ------------------------------------------------------------------------------------------
    def records(self, n):
        env, rng = self.env, self.rng
        for i, ch in enumerate(self.chs):
            s = env.streams[ch]
            how = self.plan["data"].get(str(i))
            gain = s.cfg["gain"]
            for _ in range(1 if how == "few" else n):
                line = "MnKAlpha" if how == "oneline" else rng.choice(list(LINES))
                filt = LINES[line] / gain + rng.normal(0, 1.2)
                if how in {"nan", "inf"} and rng.random() < .2:
                    filt = float(how)
                elif how == "same":
                    filt = 2000.
                elif how == "negative":
                    filt = -filt
                elif how == "huge":
                    filt *= 1e30
                elif how == "noisy":
                    filt = rng.uniform(0, 5000)
                s.add(dt_ns=self.dt, filt=filt)

    def execute(self, plan, ctx):
        import mass
        self.mass, self.plan, self.ctx = mass, plan, ctx
        self.rng = np.random.default_rng(plan["chans"][0]["seed"])
        env = self.env = OffSetup(plan, ctx)
        self.chs = list(env.streams)
        self.sick = {self.chs[i] for i in plan["sick"]}
        self.dt = 10**6 * plan["dt_ms"]
        t0 = env.t
        for k, lab in enumerate(plan["states"]):
            env.state.add(t0 + k * self.dt * (plan["n"] // len(plan["states"])), lab)
        self.records(plan["n"])
        ctx.sim_ns = plan["n"] * self.dt
        env.flush_all()
        tr = np.sort(self.rng.integers(0, 10**8, 50)).astype("<i8")
        with open(ctx.path("run_external_trigger.bin"), "wb") as f:
            f.write(b"# trig\n" + tr.tobytes())
        self.models(ctx)
        self.g = self.group(self.chs)
        self.solo = {ch: self.group([ch]) for ch in self.chs if ch not in self.sick}
        self.marks = {}         # channel -> reason, as the group should have them
        self.nfile = 0
        if plan["arrays"]:
            ctx.probe("arrays")
        try:
            for i, op in enumerate(plan["ops"]):
                self.step(i, op)
            for ch in self.solo:
                self.compare(ch, "at the end")
        finally:
            import pylab
            pylab.close("all")
            self.g = self.solo = None

    def group(self, chs):
        mass, env = self.mass, self.env
        names = [env.names[self.chs.index(ch)] for ch in chs]
        esf = mass.off.ExperimentStateFile(filename=env.state_path)
        if not self.plan["arrays"]:
            return mass.off.ChannelGroup(names, verbose=False, experimentStateFile=esf)
        ds = []
        for ch, n in zip(chs, names):
            off = mass.off.OffFile(n)
            a = np.zeros(len(off), dtype=[(x, off[x].dtype) for x in ("unixnano", "filtValue", "residualStdDev", "pretriggerMean",
                                                                   "derivativeLike", "framecount")])
            for x in a.dtype.names:
                a[x] = off[x]
            c = mass.off.channels.ChannelFromNpArray(a, ch, f"sim chan{ch}", experimentStateFile=esf, verbose=False)
            ds.append(c)
        return mass.off.channels.ChannelGroupFromNpArrays(ds, "sim", verbose=False, experimentStateFile=esf)

    def models(self, ctx):
        """Stored pulse models: for every channel, and for every well channel only."""
        import h5py
        for name, skip in (("models.hdf5", set()), ("models_missing.hdf5", self.sick)):
            with h5py.File(ctx.path(name), "w") as h5:
                for ch, s in self.env.streams.items():
                    if ch in skip:
                        continue
                    r = np.random.default_rng(s.cfg["seed"])
                    nb = s.cfg["nbasis"]
                    m = self.mass.pulse_model.PulseModel(
                        s.projectors, s.basis, nb, s.basis[:, :2], 10., 4., 1., "sim", 0, r.normal(size=s.cfg["nsamp"] - 4),
                        s.basis[:, 2], np.ones(4), 1., np.ones(4))
                    m.toHDF5(h5.create_group(str(ch)), save_inverted=False)

    # ------------------------------------------------------------------------------------------
    def call(self, g, op, h5path, rethrow):
        """Apply one group operation to a group; returns (what it returned)."""
        kw = {"_rethrow": True} if rethrow else {}
        k = op["op"]
        if k == "cutadd":
            return g.cutAdd(op["name"], CUTFUNCS[op["f"]], overwrite=op["ow"], setDefault=op["default"], **kw)
        if k == "rsd":
            return g.learnResidualStdDevCut(states=op["state"], cutRecipeName=op["cut"], setDefault=op["default"], overwriteRecipe=op["ow"], **kw)
        if k == "drift":
            return g.learnDriftCorrection(states=op["state"], cutRecipeName=op["cut"], overwriteRecipe=op["ow"], **kw)
        if k == "timedrift":
            return g.learnTimeDriftCorrection(states=op["state"], cutRecipeName=op["cut"], overwriteRecipe=op["ow"], ndeg=op["ndeg"],
                                              kernel_width=op["w"], **kw)
        if k == "phase":
            f = None if op["lines"] is None else lambda ds: [e / self.env.streams[ds.channum].cfg["gain"] for e in LINES.values()]
            return g.learnPhaseCorrection(states=op["state"], cutRecipeName=op["cut"], overwriteRecipe=op["ow"], linePositionsFunc=f, **kw)
        if k == "align":
            ref = self.chs[op["ref"]]
            refds = g[ref] if ref in g else self.solo[ref][ref]
            return g.alignToReferenceChannel(referenceChannel=refds, binEdges=np.arange(1000, 4000, 4), attr="filtValue", **kw)
        if k == "calibrate":
            return g.calibrateFollowingPlan(op["attr"], overwriteRecipe=op["ow"], cutRecipeName=op["cut"], approximate=op["approx"], **kw)
        if k == "peaks":
            return g.learnCalibrationPlanFromEnergiesAndPeaks("filtValue", op["state"], 10, list(LINES), .2, **kw)
        if k == "quality":
            import h5py
            with h5py.File(h5path, "w") as h5:
                return g.qualityCheckLinefit(op["line"], worstAllowedFWHM=op["fwhm"], positionToleranceAbsolute=op["abs"], attr="energyRough",
                                             resolutionPlot=op["plot"], hdf5Group=h5 if op["h5"] else None, _rethrow=rethrow)
        if k == "dropone":
            return g.qualityCheckDropOneErrors(op["abs"], op["sig"], **kw)
        if k == "hdf5":
            import h5py
            with h5py.File(h5path, "w") as h5:
                return g.histsToHDF5(h5, np.arange(0, 9000, 50), attr=op["attr"], cutRecipeName=op["cut"])
        if k == "listmode":
            import h5py
            with h5py.File(h5path, "w") as h5:
                return g.energyTimestampLabelToHDF5(h5, op["cut"], **kw)
        if k == "lag5":
            return g.add5LagRecipes(self.ctx.path("models_missing.hdf5" if op["missing"] else "models.hdf5"))
        if k == "trig":
            return g.calcExternalTriggerTiming(op["after"], op["until"], op["near"])
        if k == "hist":
            return g.hist(np.arange(0, 9000, 50), op["attr"], op["state"], op["cut"])
        if k == "hists":
            return g.hists(np.arange(0, 9000, 50), op["attr"], op["state"], op["cut"])
        if k == "setcut":
            return g.cutSetDefault(op["name"])
        raise KeyError(k)

    def step(self, i, op):
        g, ctx, k = self.g, self.ctx, op["op"]
        what = f"step {i} {json.dumps(op)[:300]}"
        if k == "mark":
            ch = self.chs[op["who"]]
            for x in self.copies(ch):
                x.markBad(op["why"])
            self.marks[ch] = op["why"]
        elif k == "good":
            ch = self.chs[op["who"]]
            for x in self.copies(ch):
                x.markGood()
            if self.marks.pop(ch, None) is not None:
                ctx.probe("good-again")
        elif k == "allgood":
            for x in [g, *self.solo.values()]:
                x.markAllGood()
            if self.marks:
                ctx.probe("good-again")
            self.marks = {}
        elif k == "plan":
            ch = self.chs[op["who"]]
            for x in self.copies(ch):
                x.calibrationPlanInit("filtValue")
                for n in op["lines"]:
                    x.calibrationPlanAddPoint(LINES[n] / self.env.streams[ch].cfg["gain"], n)
        elif k == "binsize":
            for x in [g, *self.solo.values()]:
                x.setDefaultBinsize(op["v"])
        elif k == "records":
            if self.plan["arrays"] or not self.good():
                return
            self.records(op["n"])
            self.env.flush_all()
            g.refreshFromFiles()
            for ch, s in self.solo.items():
                if ch not in self.marks:
                    s.refreshFromFiles()
            ctx.probe("refreshed")
        else:
            if k in {"lag5", "trig", "hdf5", "listmode"} and self.plan["arrays"]:
                return
            self.group_op(op, what)
        self.check_views(what)
        ctx.event(k, sorted(self.marks))

    def copies(self, ch):
        return [self.g[ch]] + ([self.solo[ch][ch]] if ch in self.solo else [])

    def good(self):
        return [ch for ch in self.chs if ch not in self.marks]

    def group_op(self, op, what):
        g, ctx, k = self.g, self.ctx, op["op"]
        good, include = self.good(), op.get("include", False)
        if not good and k in QUERIES | {"hdf5", "setcut", "lag5"}:
            return
        if k == "hdf5":
            # a cut that some channel lacks is refused for all
            cut = op["cut"] or g[good[0]]._default_cut_recipe_name
            if not all(cut.lstrip("!") in g[ch].recipes.keys() for ch in (self.chs if include else good)):
                return
        order = list(self.chs) if include else good
        self.nfile += 1
        path = ctx.path(f"out{self.nfile}.hdf5")
        rethrow = bool(op.get("rethrow")) and k not in {"hdf5", "lag5", "trig", "setcut"} | QUERIES
        f = op.get("fault")
        spec, who = None, None
        if f:
            who = self.chs[f["who"]]
            if f["seam"] == "chan":
                spec = dict(f, who=who, k=1 + int(f["frac"]**2 * 60))
            else:
                spec = {"seam": "h5", "k": 1 + int(f["frac"] * 8), "kind": f["kind"], "when": "before", "under": f"/{who}"}
        before = {ch: (g[ch].markedBadBool, getattr(g[ch], "markedBadReason", None)) for ch in self.chs}
        for ch in self.chs:
            g[ch].markedBadExtraInfo = None
        out, err = None, None
        with (g.includeBad() if include else contextlib.nullcontext()), ctx.armed(spec) as armed:
            try:
                out = self.call(g, op, path, rethrow)
            except (Exception, KeyboardInterrupt) as e:
                err = e
        fired = f is not None and armed.fired
        if include and set(order) - set(good):
            ctx.probe("included-bad")
        if fired and f["kind"] == "kbi":
            ctx.probe("ctrl-c")
            if not isinstance(err, KeyboardInterrupt):
                raise Violation("ctrl-c-swallowed", f"{what}: Ctrl-C did not reach the user, {err!r}")
            if before[who] != (g[who].markedBadBool, getattr(g[who], "markedBadReason", None)):
                raise Violation("ctrl-c-marks", f"{what}: Ctrl-C changed the mark of channel {who} from {before[who]} to {self.now(who)}")
        elif isinstance(err, KeyboardInterrupt):
            raise err
        if k in QUERIES | {"setcut"}:
            return self.query(op, what, out, err, fired, good if not include else self.chs)
        # which channels were reached
        done = list(order)
        if isinstance(err, KeyboardInterrupt):
            done = order[:order.index(who)]
        elif err is not None:
            hit = [ch for ch in order if g[ch].markedBadBool and g[ch].markedBadExtraInfo is err]
            if not rethrow or len(hit) != 1:
                raise Violation("group-stopped", f"{what}: raised {err!r}; bad channels {dict(g.whyChanBad)}")
            ctx.probe("rethrow")
            done = order[:order.index(hit[0]) + 1]
        ok = set(out) if isinstance(out, dict) and k != "lag5" else None
        # the well channels: as if alone
        for ch in done:
            if ch in self.sick:
                continue
            s = self.solo[ch]
            with s.includeBad() if include else contextlib.nullcontext():
                try:
                    r = self.call(s, op, path + f".{ch}", False)
                except Exception as e:
                    raise Violation("group-stopped", f"{what}: with channel {ch} alone it raised {e!r}") from e
            if ok is not None:
                if (ch in r) != (ch in ok):
                    raise Violation("wrong-report", f"{what}: returned values for channels {sorted(ok)}; channel {ch} alone {list(r)}")
                if ch in ok and describe(r[ch]) != describe(out[ch]):
                    raise Violation("other-channel-altered", f"{what}: channel {ch} returned {str(describe(out[ch]))[:300]}, alone {str(describe(r[ch]))[:300]}")
            self.learn(ch, s[ch])
            self.compare(ch, what)
            if err is None:
                self.compare_h5(op, ch, path)
        # the sick ones
        for ch in self.chs:
            if ch not in self.sick:
                continue
            now = self.now(ch)
            if ch not in done and not (isinstance(err, KeyboardInterrupt) and ch == who):
                if now != before[ch]:
                    raise Violation("bad-channel-touched", f"{what}: mark of channel {ch} went from {before[ch]} to {now}")
                continue
            if ok is not None and err is None and ch not in ok and not (now[0] and g[ch].markedBadExtraInfo is not None):
                raise Violation("failure-not-marked", f"{what}: channel {ch} failed and its mark is {now}")
            if fired and ch == who and err is None:
                if not now[0]:
                    raise Violation("failure-not-marked", f"{what}: channel {ch} failed ({getattr(armed, 'where', '')}) and is still good")
                if f["kind"] in {"EIO", "MEM"} and "simulated" not in now[1]:   # the library may translate others
                    raise Violation("wrong-reason", f"{what}: channel {ch} failed and is bad because {now[1]!r}")
                ctx.probe("failed-by-fault")
            elif now[0] and not before[ch][0]:
                if not now[1].strip():
                    raise Violation("wrong-reason", f"{what}: channel {ch} is bad because {now[1]!r}")
                ctx.probe("failed-by-data")
            if before[ch][0] and not now[0]:
                raise Violation("bad-channel-touched", f"{what}: channel {ch} was bad ({before[ch]}) and is good")
            self.learn(ch, g[ch])
        if sum(ch in self.marks for ch in self.sick) > 1:
            ctx.probe("several-failed")
        if ok is not None and err is None and list(out) != [ch for ch in order if ch in ok]:
            raise Violation("wrong-report", f"{what}: returned channels {list(out)}, order {order}")

    def now(self, ch):
        return self.g[ch].markedBadBool, getattr(self.g[ch], "markedBadReason", None)

    def learn(self, ch, ds):
        if ds.markedBadBool:
            self.marks[ch] = ds.markedBadReason
        else:
            self.marks.pop(ch, None)

    def query(self, op, what, out, err, fired, chs):
        """Reading a group's histograms changes nothing, and an error reaches the user."""
        ctx, k = self.ctx, op["op"]
        if fired and err is None:
            raise Violation("error-swallowed", f"{what}: the failure of one channel vanished")
        if err is not None:
            ctx.probe("query-failed")
        if fired:
            return
        if k == "setcut":
            if err is None:
                for ch in chs:
                    if ch in self.solo:
                        self.solo[ch][ch].cutSetDefault(op["name"])
            elif not isinstance(err, AssertionError):
                raise Violation("group-stopped", f"{what}: raised {err!r}") from err
        elif err is None:
            one = {}
            for ch in chs:
                if ch in self.solo:
                    one[ch] = self.solo[ch][ch].hist(np.arange(0, 9000, 50), op["attr"], op["state"], op["cut"])[1]
                else:
                    one[ch] = self.g[ch].hist(np.arange(0, 9000, 50), op["attr"], op["state"], op["cut"])[1]
            if k == "hists":
                if list(out[1]) != list(chs) or any(describe(out[1][ch]) != describe(one[ch]) for ch in chs):
                    raise Violation("wrong-histogram", f"{what}: histograms of channels {list(out[1])}, good channels {chs}")
            elif not np.array_equal(out[1], sum(one.values())):
                raise Violation("wrong-histogram", f"{what}: the sum holds {int(np.sum(out[1]))} of {int(sum(np.sum(x) for x in one.values()))} pulses")
        for ch in self.solo:
            self.compare(ch, what)

    def compare(self, ch, what):
        labels = list(self.g.stateLabels)
        same_picture("other-channel-altered", f"{what}: channel {ch}", picture(self.solo[ch][ch], labels), picture(self.g[ch], labels))

    def compare_h5(self, op, ch, path):
        import h5py
        if op["op"] not in {"hdf5", "listmode"} and not op.get("h5"):
            return
        with h5py.File(path, "r") as a, h5py.File(path + f".{ch}", "r") as b:
            x, y = (h5_tree(z[str(ch)]) if str(ch) in z else {} for z in (a, b))
        if x != y:
            diff = [n for n in {**x, **y} if x.get(n) != y.get(n)]
            raise Violation("other-channel-altered", f"{path.split('/')[-1]} of {json.dumps(op)[:200]}: channel {ch} differs from alone in {diff[:5]}")

    def check_views(self, what):
        check_views(self.g, self.chs, self.marks, what)

    def shrink_op(self, op):
        for k, dflt in (("fault", None), ("include", False), ("rethrow", False), ("state", None), ("cut", None)):
            if k in op and op[k] != dflt:
                yield dict(op, **{k: dflt})

    def shrink_config(self, plan):
        for key, v in (("states", ["A"]), ("arrays", False), ("n", 60)):
            if plan[key] != v:
                yield dict(plan, **{key: v})
        for k in plan["data"]:
            yield dict(plan, data={x: y for x, y in plan["data"].items() if x != k})


def check_views(g, chs, marks, what):
    good = [ch for ch in chs if ch not in marks]

    def need(name, got, want):
        if got != want:
            raise Violation("views-disagree", f"{what}: {name} is {got!r}, expected {want!r}"[:900])

    def views(want, tag):
        need("iteration" + tag, list(g), want)
        need("keys()" + tag, list(g.keys()), want)
        need("values()" + tag, [ds.channum for ds in g.values()], want)
        need("items()" + tag, [(ch, ds.channum) for ch, ds in g.items()], [(ch, ch) for ch in want])
        need("len()" + tag, len(g), len(want))
    views(good, "")
    bad = {ch: marks[ch] for ch in chs if ch in marks}
    need("whyChanBad", dict(g.whyChanBad), bad)
    need("order of whyChanBad", list(g.whyChanBad), list(bad))
    for ch in chs:
        need(f"group[{ch}]", g[ch].channum, ch)
        need(f"group[{ch}].markedBadBool", g[ch].markedBadBool, ch in marks)
        need(f"{ch} in group", ch in g, True)
    with g.includeBad():
        views(chs, " including bad channels")
        need("whyChanBad while bad channels are included", dict(g.whyChanBad), bad)
        views(chs, " including bad channels after whyChanBad")
        with g.includeBad(False):
            views(good, " excluding bad channels within an inclusion")
        views(chs, " including bad channels, after an exclusion")
    with g.includeBad(False):
        views(good, " with includeBad(False)")
    views(good, " after an inclusion")
    try:
        first = g.firstGoodChannel().channum
    except Exception:
        first = None
    need("firstGoodChannel()", first, good[0] if good else None)


class OffMarks(World):
    name = "off_marks"
    real = ("mass.off.channels (marks, views, inclusion of bad channels, loops)", "mass.off.util (add_group_loop)")
    stub = OffIsolation.stub[:2]
    rule = ("random histories of marking OFF channels bad and good, group operations that fail or are interrupted, loops that mark while "
            "iterating, nested and abandoned inclusions of bad channels, refreshes; every view compared with a model after every step")
    must_reach = ("failed", "ctrl-c", "marked-while-iterating", "nested", "abandoned", "all-bad", "good-again", "several-failed",
                  "ctrl-c-after-failure")

    def generate(self, rng, tier):
        n = rng.choice([1, 2, 3, 5])
        base = off_cfg(rng, nsamp=8, npre=2)
        return {"chans": [dict(base, seed=rng.randrange(2**31), row=i) for i in range(n)], "ops": self.gen_ops(rng, n, 0, rng.randrange(3, 25))}

    def gen_ops(self, rng, n, depth, count):
        ops = []
        for _ in range(count):
            q = rng.random()
            if q < .25:
                ops.append({"op": "bad", "who": rng.randrange(n), "why": rng.choice(TesTexts)})
            elif q < .45:
                ops.append({"op": "good", "who": rng.randrange(n)})
            elif q < .5:
                ops.append({"op": "allgood"})
            elif q < .7:
                ops.append({"op": "fail", "who": rng.randrange(n), "kind": rng.choice(KINDS + ["kbi", "kbi"]), "rethrow": rng.random() < .2})
                if rng.random() < .5:
                    ops[-1]["more"] = [{"who": rng.randrange(n), "kind": rng.choice(KINDS + ["kbi"] * 4)} for _ in range(rng.choice([1, 1, 2, 3]))]
            elif q < .78:
                ops.append({"op": "loop", "every": rng.choice([1, 2, 3]), "why": rng.choice(TesTexts), "how": rng.choice(["items", "values", "iter"])})
            elif q < .82:
                ops.append({"op": "refresh"})
            elif depth < 3:
                ops.append({"op": "include", "x": rng.random() < .7, "ops": self.gen_ops(rng, n, depth + 1, rng.randrange(0, 4)),
                            "end": rng.choice(["normal", "normal", "error", "ctrl-c"])})
        return ops

    def execute(self, plan, ctx):
        import mass
        self.ctx = ctx
        env = self.env = OffSetup(plan, ctx)
        self.chs = list(env.streams)
        env.label("A")
        for ch in self.chs:
            env.records(ch, 3, 1000)
        env.flush_all()
        self.g = mass.off.ChannelGroup(list(env.names), verbose=False)
        self.marks, self.include, self.count = {}, [False], 0
        try:
            self.run(plan["ops"], "")
        finally:
            self.g = None

    def run(self, ops, where):
        for i, op in enumerate(ops):
            getattr(self, "do_" + op["op"])(op)
            self.verify(f"after step {where}{i} {json.dumps(op)[:200]}")
            self.ctx.event(op["op"], sorted(self.marks))

    def shown(self):
        return [ch for ch in self.chs if self.include[-1] or ch not in self.marks]

    def verify(self, what):
        g = self.g
        if self.include[-1]:
            if list(g) != self.chs or list(g.keys()) != self.chs or len(g) != len(self.chs):
                raise Violation("views-disagree", f"{what}, while bad channels are included: channels {list(g)}, expected {self.chs}")
        else:
            check_views(g, self.chs, self.marks, what)
        if dict(g.whyChanBad) != {ch: self.marks[ch] for ch in self.chs if ch in self.marks}:
            raise Violation("wrong-reasons", f"{what}: whyChanBad {dict(g.whyChanBad)}, expected {self.marks}")
        if len(self.marks) == len(self.chs):
            self.ctx.probe("all-bad")

    def do_bad(self, op):
        ch = self.chs[op["who"]]
        self.g[ch].markBad(op["why"])
        self.marks[ch] = op["why"]

    def do_good(self, op):
        ch = self.chs[op["who"]]
        self.g[ch].markGood()
        if self.marks.pop(ch, None) is not None:
            self.ctx.probe("good-again")

    def do_allgood(self, op):
        self.g.markAllGood()
        self.marks = {}

    def do_refresh(self, op):
        if len(self.marks) < len(self.chs):
            for ch in self.chs:
                self.env.records(ch, 1, 1000)
            self.env.flush_all()
            _, n = self.g.refreshFromFiles()
            if list(n) != self.shown():
                raise Violation("views-disagree", f"a refresh took in records of channels {list(n)}, expected {self.shown()}")

    def do_fail(self, op):
        """A group operation in which the shares of one or more channels fail, or Ctrl-C arrives."""
        shown = self.shown()
        self.count += 1
        name = f"r{self.count}"
        kinds = {}
        for f in [op, *op.get("more", [])]:
            kinds.setdefault(self.chs[f["who"] % len(self.chs)], f["kind"])
        first, *rest = kinds
        spec = {"seam": "chan", "k": 1, "kind": kinds[first], "who": first, "more": [{"who": c, "k": 1, "kind": kinds[c]} for c in rest]}
        kw = {"_rethrow": True} if op["rethrow"] else {}
        out, err = None, None
        with self.ctx.armed(spec) as a:
            try:
                out = self.g.cutAdd("cut" + name, lambda filtValue: filtValue > 0, **kw)
            except (Exception, KeyboardInterrupt) as e:
                err = e
        # the channels in order, up to the first one at which the operation has to stop
        stop = [ch for ch in shown if ch in kinds and (op["rethrow"] or kinds[ch] == "kbi")][:1]
        reached = shown[:shown.index(stop[0]) + 1] if stop else shown
        hit = [ch for ch in reached if ch in kinds]
        what = f"a group operation over channels {shown} in which {kinds} fail ({op})"
        if stop and kinds[stop[0]] == "kbi":
            self.ctx.probe("ctrl-c")
            if len(hit) > 1:
                self.ctx.probe("ctrl-c-after-failure")
            if not isinstance(err, KeyboardInterrupt):
                raise Violation("ctrl-c-swallowed", f"{what}: Ctrl-C did not reach the user, {err!r}")
        elif (err is not None) != bool(stop):
            raise Violation("group-stopped", f"{what} raised {err!r}")
        if a.hits != hit:
            raise Violation("wrong-channels", f"{what}: channels {hit} should fail, {a.hits} did")
        if len(hit) > 1:
            self.ctx.probe("several-failed")
        for ch in hit:
            if kinds[ch] == "kbi":
                continue
            self.ctx.probe("failed")
            if not self.g[ch].markedBadBool:
                raise Violation("failure-not-marked", f"{what}: channel {ch} is still good")
            if "simulated" not in str(self.g[ch].markedBadReason):
                raise Violation("wrong-reason", f"{what}: channel {ch} is bad because {self.g[ch].markedBadReason!r}")
            self.marks[ch] = self.g[ch].markedBadReason
        done = [ch for ch in reached if ch not in hit]
        got = [ch for ch in self.chs if "cut" + name in self.g[ch].recipes.keys() and ch not in hit]
        if got != done:
            raise Violation("wrong-channels", f"{what}: channels {done} should be done, done are {got}")
        if out is not None and list(out) != done:
            raise Violation("wrong-report", f"{what} returned channels {list(out)}, done are {done}")

    def do_loop(self, op):
        """The user's loop marks channels bad while it runs."""
        self.ctx.probe("marked-while-iterating")
        shown, seen = self.shown(), []
        g = self.g
        it = {"items": lambda: (ch for ch, _ in g.items()), "values": lambda: (ds.channum for ds in g.values()), "iter": lambda: iter(g)}[op["how"]]()
        for i, ch in enumerate(it):
            seen.append(ch)
            if i % op["every"] == 0:
                g[ch].markBad(op["why"])
                self.marks[ch] = op["why"]
        if seen != shown:
            raise Violation("views-disagree", f"a loop that marks channels saw {seen}, expected {shown}")

    def do_include(self, op):
        if len(self.include) > 1:
            self.ctx.probe("nested")

        class Stop(Exception):
            pass
        self.include.append(op["x"])
        try:
            with self.g.includeBad(op["x"]):
                self.run(op["ops"], "within an inclusion: ")
                if op["end"] == "error":
                    raise Stop
                if op["end"] == "ctrl-c":
                    raise KeyboardInterrupt
        except (Stop, KeyboardInterrupt):
            self.ctx.probe("abandoned")
        finally:
            self.include.pop()

    def shrink_op(self, op):
        if op["op"] == "include":
            for i in range(len(op["ops"])):
                yield dict(op, ops=op["ops"][:i] + op["ops"][i + 1:])
            if op["end"] != "normal":
                yield dict(op, end="normal")
            for i, o in enumerate(op["ops"]):
                for p in self.shrink_op(o):
                    yield dict(op, ops=op["ops"][:i] + [p] + op["ops"][i + 1:])
        if op.get("rethrow"):
            yield dict(op, rethrow=False)


TesTexts = ["noisy", "", "too few pulses", "Ti Kα µ", "x" * 300, "a\nb"]
