"""P11: results do not depend on segment size, channel order, or the compiled/plain choice."""
import json

import numpy as np

from ..engine import Violation, World
from ..tes import TesSetup, close, tes_cfg, tree, tree_diff

# Summary quantities that the compiled and the plain implementation define alike.
SAME_DEFINITION = ("timestamp", "subframecount", "pretrig_mean", "pretrig_rms", "postpeak_deriv", "peak_index", "min_value", "shift1")
SKIP = ("filename", "noise_filename", "pretrig_deriv", "pretrig_offset")


class TesDivision(World):
    name = "tes_division"
    real = ("mass.core.channel (summarize_data, avg_pulses_auto_masks, filter_data, compiled and plain)", "mass.core.channel_group",
            "mass.core.files", "mass.core.cython_channel, analysis_algorithms (compiled extension modules)", "h5py/HDF5")
    stub = ("DAQ program (pulse and noise files with torn tails)",)
    rule = ("1-3 channels of random record counts (also more than 65536 short records), torn tails and states, analysed again and "
            "again with random segment sizes (from one record up, dividing the file evenly or not), channel orders, group or "
            "single-channel calls, compiled or plain code, compared with one segment per file")
    must_reach = ("several-segments", "even-division", "one-left-over", "torn-tail", "plain-vs-compiled", "5lag-compiled", "alone",
                  "reordered", "many-records", "by-definition")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, noise=False)
        q = rng.random()
        if q < .012:
            cfg.update(nchan=1, nsamp=rng.choice([16, 20]), version="2.2.0", npulses=65536 + rng.choice([0, 1, 5, 300]), states=False)
            cfg["npre"] = 5
        elif q < .3:
            cfg["raw"] = True
            cfg["npulses"] = rng.choice([5, 24, 40])
        else:
            cfg["npulses"] = rng.choice([1, 4, 9, 24, 40, 60, 90])
        if cfg["npulses"] < 8:
            cfg["uneven"] = False
        n = cfg["npulses"]
        ops = []
        for _ in range(1 if n > 20000 else rng.randrange(2, 6)):
            seg = rng.choice([1, 2, 3, 7, n, max(1, n - 1), max(1, n // 2), max(1, n // 3), n + 1, rng.randrange(1, n + 1)])
            ops.append({"seg": seg if n <= 20000 else rng.choice([20000, 32768, 65535]),
                        "order": rng.sample(range(cfg["nchan"]), cfg["nchan"]),
                        "alone": rng.random() < .3, "cython": rng.random() < .6, "filt": rng.choice(["ats", "ns", "5", "5c"]),
                        "forced": rng.random() < .2, "perchan": rng.random() < .3, "partly": rng.random() < .2,
                        "transform": rng.random() < .25})
        return {"cfg": cfg, "invert": rng.random() < .15, "ops": ops}

    def execute(self, plan, ctx):
        import mass
        self.mass, self.plan, self.ctx = mass, plan, ctx
        cfg = plan["cfg"]
        self.setup = TesSetup(cfg, ctx)
        self.refs = {}
        if cfg["tail"]:
            ctx.probe("torn-tail")
        if cfg["npulses"] > 65535:
            ctx.probe("many-records")
        for i, op in enumerate(plan["ops"]):
            got = self.analyse(i, op)
            tr = op["transform"] and op["filt"] != "5c"
            want = self.ref(op["cython"], op["filt"], tr)
            n, seg = cfg["npulses"], op["seg"]
            self.note(n, seg)
            what = (f"segments of {seg} records of {n}, {'compiled' if op['cython'] else 'plain'} summary, {op['filt']} filter, "
                    f"order {op['order']}{', channels alone' if op['alone'] else ''}")
            if op["partly"]:
                keep = f"chan{self.setup.chans[op['order'][0]]}/"
                want = {k: v for k, v in want.items() if k.startswith(keep)}
                got = {k: v for k, v in got.items() if k.startswith(keep)}
            self.equal(want, got, what)
            ctx.event(seg, n, op["cython"], op["filt"], tuple(op["order"]), op["alone"])
            if op["cython"] and n <= 20000:
                self.alike(want, self.ref(False, op["filt"], tr), what)

    def note(self, n, seg):
        if seg < n:
            self.ctx.probe("several-segments")
            if n % seg == 0:
                self.ctx.probe("even-division")
            if n % seg == 1:
                self.ctx.probe("one-left-over")

    def ref(self, cython, filt, tr):
        key = cython, filt, tr
        if key not in self.refs:
            self.refs[key] = self.analyse(f"ref{len(self.refs)}", {"seg": None, "order": None, "alone": False, "cython": cython,
                                                                  "filt": filt, "forced": False, "perchan": False,
                                                                  "partly": False, "transform": tr})
        return self.refs[key]

    def equal(self, want, got, what):
        diff = tree_diff(want, got)
        close_enough = []
        for d in diff:
            name = d.split("[")[0].split(":")[0]
            base = name.split("/")[-1]
            # a matrix product of a slice may differ in the last bit from the same rows of a larger product
            if name in want and name in got and base in {"filt_value", "filt_phase", "pulse_rms", "pulse_average", "promptness",
                                                         "pretrig_mean", "pretrig_rms", "average_pulse", "rise_time"}:
                a, b = np.asarray(want[name], float), np.asarray(got[name], float)
                if a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-6 * (1 + np.nanmax(np.abs(a))), equal_nan=True):
                    close_enough.append(d)
        diff = [d for d in diff if d not in close_enough]
        if diff:
            raise Violation("division-changes-result", f"{what}: " + "; ".join(diff[:4]))

    def alike(self, a, b, what):
        """Compiled and plain summaries."""
        self.ctx.probe("plain-vs-compiled")
        if self.plan["cfg"].get("raw"):
            return      # random samples: the two define a peak differently when it lies before the trigger
        for k in a:
            if k.split("/")[-1] in SAME_DEFINITION:
                x, y = np.asarray(a[k], float), np.asarray(b[k], float)
                if k.endswith("peak_index"):    # the plain code looks for the peak only after the trigger
                    late = x >= self.plan["cfg"]["npre"]
                    x, y = x[late], y[late]
                if not np.allclose(x, y, rtol=1e-5, atol=1e-4):
                    i = int(np.flatnonzero(~np.isclose(x, y, rtol=1e-5, atol=1e-4))[0])
                    raise Violation("compiled-differs-from-plain", f"{k}[{i}]: compiled {x[i]}, plain {y[i]}")

    def analyse(self, tag, op):
        mass, cfg = self.mass, self.plan["cfg"]
        g = self.setup.open(mass, hdf5=self.ctx.path(f"{tag}_mass.hdf5"), order=op["order"], invert_data=self.plan["invert"])
        try:
            if op["seg"]:
                for ds in g.datasets:
                    ds.pulse_records.set_segment_size(op["seg"] * ds.pulse_records.datafile.pulse_size_bytes)
            targets = list(g.datasets)
            if op["partly"]:
                targets = targets[:1]
            single = op["alone"] or op["partly"]
            if single:
                self.ctx.probe("alone")
            if op["order"] not in (None, list(range(cfg["nchan"]))):
                self.ctx.probe("reordered")

            def each(method, *a, **kw):
                if single:
                    for ds in targets:
                        getattr(ds, method)(*a, **kw)
                else:
                    if method != "summarize_data":
                        kw["_rethrow"] = True
                    getattr(g, method)(*a, **kw)
                    if g.why_chan_bad:
                        raise Violation("channel-failed", f"{method} marked channels bad: {str(g.why_chan_bad)[:300]}")
            each("summarize_data", use_cython=op["cython"])
            if op["forced"]:
                each("summarize_data", use_cython=op["cython"], forceNew=True)
            n = cfg["nsamp"]
            m = {"ats": n - 1, "ns": n, "5": n - 4, "5c": n - 4}[op["filt"]]
            for ds in g.datasets:
                r = np.random.default_rng(cfg["seed"] % 1000 + ds.channum)
                t = np.arange(m)
                v = np.exp(-t / (m / 3)) - .3 + .2 * r.normal(size=m)
                kind = "5lag" if op["filt"][0] == "5" else "ats"
                ds.filter = mass.Filter(v, 1., 1., 1., r.normal(size=m), None, None, None, 1, _filter_type=kind)
                ds._filter_type = kind
            kw = {"use_cython": True if op["filt"] == "5c" else None if op["transform"] else False}
            if op["filt"] == "5c":
                self.ctx.probe("5lag-compiled")
            if op["transform"] and op["filt"] != "5c":
                kw["transform"] = lambda d: d * 1.5
            each("filter_data", **kw)
            failed = {}
            if not cfg.get("raw"):
                for ds in targets:
                    try:
                        ds.avg_pulses_auto_masks()
                    except ValueError as e:     # too few alike pulses: must be the same however the data are divided
                        failed[f"chan{ds.channum}/average"] = str(e)
            out = dict(tree(g.hdf5_file, skip=SKIP), **failed)
            if cfg["npulses"] <= 20000:
                for ds in targets:
                    self.meaning(ds, op, len(failed))
            return out
        finally:
            close(g)

    def meaning(self, ds, op, salt):
        """The results of each record by their definitions, from the record as it was encoded."""
        s, cfg = self.setup.streams[ds.channum], self.plan["cfg"]
        raw = np.array([r["data"] for r in s.records], dtype=np.uint16)
        data = (~raw if self.plan["invert"] else raw).astype(float)
        pre = data[:, :ds.nPresamples - ds.pretrigger_ignore_samples]
        post = data[:, ds.nPresamples:]
        ptm = ds.p_pretrig_mean[:].astype(float)
        want = {"p_pretrig_mean": pre.mean(axis=1), "p_pretrig_rms": pre.std(axis=1), "p_min_value": data.min(axis=1)}
        if not op["cython"]:
            want.update(p_peak_index=post.argmax(axis=1) + ds.nPresamples, p_pulse_average=post.mean(axis=1) - ptm,
                        p_pulse_rms=np.sqrt(((post - ptm[:, None])**2).mean(axis=1)))
        v, dt = ds.filter.values, ds.filter.dt_values
        x = (data - ptm[:, None]) * 1.5 if op["transform"] and op["filt"] != "5c" else data
        if op["filt"][0] == "5":
            conv = np.array([x[:, i:x.shape[1] - 4 + i] @ v for i in range(5)])
            a, b, c = np.polynomial.polynomial.polyfit(np.arange(-2, 3), conv, 2)
            want.update(p_filt_phase=-b / (2 * c), p_filt_value=a - b * b / (4 * c))
            size = (np.abs(x).max() * np.abs(v).sum())
            flat = np.abs(c) < 1e-3 * size / len(v)     # hardly a parabola: the division means nothing
        else:
            late = ds.p_shift1[:].astype(bool) if op["filt"] == "ats" else np.zeros(len(x), bool)
            y = np.where(late[:, None], x[:, :len(v)], x[:, -len(v):])
            want.update(p_filt_value=y @ v, p_filt_phase=(y @ dt) / (y @ v))
            size = np.abs(x).max() * np.abs(v).sum()
            flat = np.abs(y @ v) < 1e-3 * size
        for name, w in want.items():
            got = getattr(ds, name)[:].astype(float)
            tol = 1e-3 * (1 + np.abs(w)) if "filt" not in name else 1e-4 * (np.abs(w) + (size if name == "p_filt_value" else 1))
            wrong = ~(np.abs(got - w) <= tol)
            if "filt" in name:
                wrong &= ~flat
            if name == "p_pulse_rms":
                wrong &= np.abs(got - w) > 1e-3 * np.abs(data).max()
            if wrong.any():
                i = int(np.flatnonzero(wrong)[0])
                raise Violation("not-by-definition", f"channel {ds.channum} ({'compiled' if op['cython'] else 'plain'} summary, {op['filt']} filter, "
                                f"transform {op['transform']}): {name}[{i}] is {got[i]}, by its definition {w[i]}")
        self.ctx.probe("by-definition")
        mask = np.random.default_rng([cfg["seed"], ds.channum, salt]).random(len(data)) < .6
        if mask.any():
            for subtract in (True, False):
                ds.compute_average_pulse(mask, subtract_mean=subtract, forceNew=True)
                w = data[mask].mean(axis=0)
                w = w - w[:ds.nPresamples - ds.pretrigger_ignore_samples].mean() if subtract else w
                if not np.allclose(ds.average_pulse[:], w, rtol=1e-4, atol=1e-2):
                    raise Violation("not-by-definition", f"average pulse of channel {ds.channum} over {int(mask.sum())} records (subtract_mean={subtract})")

    def shrink_config(self, plan):
        c = plan["cfg"]
        for key, v in (("nchan", 1), ("tail", 0), ("states", False)):
            if c[key] != v and key != "nchan":
                yield json.loads(json.dumps(dict(plan, cfg=dict(c, **{key: v}))))
