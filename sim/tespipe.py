"""A TES analysis as a random sequence of steps on a real TESGroup: shared by the P09, P10, P13 and P17 worlds.

A step is a JSON object {"op": name, ...arguments}.  `Pipe` runs steps, closes and reopens the group, and describes
everything the user can see of it (`view`) and everything stored (`stored`)."""
import os
import re

import numpy as np

from .engine import Violation
from .loader import reseed_randomness
from .tes import close, tree

PEAKS = [1860, 3720, 5600]
LINES = [1000.0, 2000.0, 3000.0]


def gen_setup(rng, tes_cfg, **over):
    c = dict(npulses=rng.choice([40, 60, 80]), nnoise=rng.choice([24, 32]), nsamp=rng.choice([64, 100]), raw=False, noise=True,
             tail=rng.choice([0, 0, 7]))
    if rng.random() < .2:
        c["broken"] = True               # noise records that do not follow one another
    c.update(over)
    cfg = tes_cfg(rng, **c)
    return cfg


def gen_steps(rng, costly=.35):
    """A usual analysis in its usual order, with omissions, repetitions, odd arguments and marks in between."""
    maybe = lambda p: rng.random() < p   # noqa: E731
    force = lambda p=.2: maybe(p)        # noqa: E731
    # (the plain implementation does not accept pulses that peak at the first sample after the trigger)
    summ = lambda: {"op": "summarize", "cython": maybe(.6), "force": force(), "ign": rng.choice([None, None, 0, 20e0, 60e0]),   # noqa: E731
                    "cut_pre": rng.choice([0, 0, 3]), "cut_post": rng.choice([0, 0, 5]), "peak": rng.choice([None, None, 60.0, 100.0]),
                    "fit": maybe(.2)}
    ats = lambda: {"op": "ats", "f_3db": rng.choice([None, 2e4, 3e4]), "fmax": rng.choice([None, None, 4e4]), "shift1": maybe(.6),  # noqa: E731
                   "cut_pre": rng.choice([0, 0, 4]), "cut_post": rng.choice([0, 0, 6]), "opt": maybe(.3), "force": force()}
    lag = lambda: {"op": "5lag", "f_3db": rng.choice([None, 2e4]), "fmax": rng.choice([None, None, 4e4]),   # noqa: E731
                   "cut_pre": rng.choice([0, 0, 4]), "cut_post": rng.choice([0, 0, 6]), "force": force()}
    other = lambda: rng.choice([   # noqa: E731
        {"op": "setbad", "chan": rng.randrange(3), "why": rng.choice(["noisy", "test", "", "Ti µ"])},
        {"op": "setgood", "chan": rng.randrange(3)}, {"op": "cut", "field": rng.choice(["user", "energy", "timing"]), "r": rng.randrange(10**6)},
        {"op": "assign", "r": rng.randrange(10**6)}, {"op": "smart", "force": force()}, {"op": "clearcuts"},
        {"op": "peakcut", "r": rng.randrange(10**6)}, {"op": "white", "var": rng.choice([1.0, 30.0]), "force": force()},
        {"op": "trig", "force": force(.4)}, {"op": "allgood"}, {"op": "allgood"},
        {"op": "applycuts", "r": rng.randrange(10**6), "clear": maybe(.5)}])
    steps = []

    def add(p, s):
        if maybe(p):
            steps.append(s)
        if maybe(.12):
            steps.append(other())
        if steps and maybe(.08):
            steps.append(dict(steps[-1], force=maybe(.5)) if "force" in steps[-1] else steps[-1].copy())
    add(.97, summ())
    add(.6, {"op": "autocuts", "force": force(), "clear": maybe(.8), "pct": rng.choice([None, None, 99])})
    if maybe(.1):
        add(1, summ())
    add(.9, {"op": "noise", "force": force(), "max_excursion": 12 if maybe(.08) else 1000})
    add(.75, {"op": "avg", "force": force(), "subtract": maybe(.8)})
    if maybe(.1):
        add(1, dict(summ(), force=True))
    add(.95, ats() if maybe(.6) else lag())
    add(.95, {"op": "filter", "force": force(), "cython": rng.choice([None, None, False])})
    if maybe(.25):
        add(.7, {"op": "avg", "force": True, "subtract": maybe(.8)})
        add(1, dict(ats() if maybe(.5) else lag(), force=maybe(.7)))
        add(1, {"op": "filter", "force": maybe(.7), "cython": None})
    if maybe(costly):
        add(1, {"op": "drift", "force": force(), "attr": "p_filt_value"})
    drift = any(s["op"] == "drift" for s in steps)
    if maybe(costly + .2):
        attr = rng.choice(["p_filt_value", "p_filt_value_dc"]) if drift else "p_filt_value"
        add(1, {"op": "phase", "force": force(), "attr": attr, "n": rng.choice([1, 3, 3])})
        if maybe(.3):
            add(1, {"op": "phase", "force": True, "attr": attr, "n": rng.choice([1, 2, 3])})
    if drift and maybe(.15):
        add(1, {"op": "ph2014", "force": force(), "n": rng.choice([20, 50000])})
    if maybe(.3):
        phased = any(s["op"] == "phase" for s in steps)
        add(1, {"op": "tdc", "force": force(), "attr": rng.choice(["p_filt_value", "p_filt_value_phc"]) if phased else "p_filt_value"})
    for _ in range(rng.choice([0, 1, 1, 2]) if maybe(costly + .15) else 0):
        add(1, {"op": "calibrate", "attr": rng.choice(["p_filt_value", "p_filt_value_dc"]) if drift else "p_filt_value", "ext": rng.choice(["", "", "_2"]),
                "curve": rng.choice(["gain", "loglog", "linear"]), "approx": maybe(.3), "force": force(.3)})
        add(.3, {"op": "toenergy", "attr": "p_filt_value", "ext": ""})
    if maybe(.15):
        add(1, {"op": "model"})
    for _ in range(rng.choice([0, 1, 2])):
        steps.insert(rng.randrange(len(steps) + 1), other())
    steps = [s for t in steps for s in ([t, {"op": "allgood"}] if t["op"] in {"avg", "ats", "5lag", "calibrate", "phase"} and maybe(.15) else [t])]
    for s in steps:
        if s["op"] not in {"setbad", "setgood", "allgood", "cut", "assign", "peakcut", "smart", "trig", "model"} and maybe(.12):
            s["only"] = rng.randrange(3)         # the step is run on one channel's object instead of the group
    return steps


class Pipe:
    def __init__(self, ctx, mass, setup, tag, **kw):
        self.ctx, self.mass, self.setup, self.kw = ctx, mass, setup, kw
        self.hdf5 = ctx.path(f"{tag}_mass.hdf5")
        self.hdf5_noise = ctx.path(f"{tag}_noise_mass.hdf5")
        self.model_file = ctx.path(f"{tag}_model.hdf5")
        self.g = None
        self.seed = setup.cfg["seed"]
        self.not_for_peaks = ()          # channels that do not decide the arguments of group steps

    def open(self, **kw):
        self.g = self.setup.open(self.mass, hdf5=self.hdf5, hdf5_noise=self.hdf5_noise, **dict(self.kw, **kw))
        return self.g

    def close(self):
        if self.g is not None:
            close(self.g)
            self.g = None

    def chan(self, i):
        return self.g.datasets[i % len(self.g.datasets)]

    # ---- steps ----------------------------------------------------------------------------------
    def run(self, i, s, each=None):
        """Run one step; returns the outcome as the user sees it (None, or the type of the exception)."""
        reseed_randomness(self.seed + 1000 * (i + 1))
        op = s["op"]
        try:
            getattr(self, "do_" + op)(s)
        except (ValueError, KeyError, RuntimeError, TypeError, AttributeError, AssertionError, IndexError, ZeroDivisionError,
                ArithmeticError, np.linalg.LinAlgError) as e:
            return type(e).__name__
        except Exception as e:
            if type(e) is Exception:     # what the library itself raises for a step taken in the wrong order
                return "Exception"
            raise

    def _call(self, s, method, *a, **kw):
        """The group's loop over its good channels, or one channel's own method."""
        target = self.g if s.get("only") is None else self.chan(s["only"])
        f = getattr(target, method)
        f(*a, **kw)

    def do_summarize(self, s):
        self._call(s, "summarize_data", peak_time_microsec=s["peak"], pretrigger_ignore_microsec=s["ign"], cut_pre=s["cut_pre"],
                   cut_post=s["cut_post"], forceNew=s["force"], use_cython=s["cython"], doPretrigFit=s["fit"] and not s["cython"])

    def do_autocuts(self, s):
        self._call(s, "auto_cuts", forceNew=s["force"], clearCuts=s["clear"], pretrig_rms_percentile=s["pct"])

    def do_noise(self, s):
        self._call(s, "compute_noise", forceNew=s["force"], max_excursion=s["max_excursion"])

    def do_white(self, s):
        self._call(s, "assume_white_noise", noise_variance=s["var"], forceNew=s["force"])

    def do_avg(self, s):
        self._call(s, "avg_pulses_auto_masks", subtract_mean=s["subtract"], forceNew=s["force"])

    def do_ats(self, s):
        self._call(s, "compute_ats_filter", f_3db=s["f_3db"], fmax=s["fmax"], shift1=s["shift1"], cut_pre=s["cut_pre"],
                   cut_post=s["cut_post"], optimize_dp_dt=s["opt"], forceNew=s["force"])

    def do_5lag(self, s):
        self._call(s, "compute_5lag_filter", f_3db=s["f_3db"], fmax=s["fmax"], cut_pre=s["cut_pre"], cut_post=s["cut_post"],
                   forceNew=s["force"])

    def do_filter(self, s):
        self._call(s, "filter_data", forceNew=s["force"], use_cython=s["cython"])

    def do_drift(self, s):
        self._call(s, "drift_correct", attr=s["attr"], forceNew=s["force"])

    def do_phase(self, s):
        base = PEAKS[0]
        for ds in self.g:
            if ds.channum in self.not_for_peaks:
                continue
            v = getattr(ds, s["attr"])[:]
            if v.max() > 100:
                base = round(float(np.percentile(v[v > 100], 12)))
                break
        self._call(s, "phase_correct", attr=s["attr"], forceNew=s["force"], ph_peaks=[k * base for k in range(1, s["n"] + 1)])

    def do_ph2014(self, s):
        self._call(s, "phase_correct2014", 20.0, maximum_num_records=s["n"], forceNew=s["force"])

    def do_tdc(self, s):
        self._call(s, "time_drift_correct", attr=s["attr"], forceNew=s["force"])

    def do_calibrate(self, s):
        self._call(s, "calibrate", s["attr"], LINES, name_ext=s["ext"], curvetype=s["curve"], approximate=s["approx"],
                   forceNew=s["force"], fit_range_ev=100)

    def do_toenergy(self, s):
        self._call(s, "convert_to_energy", s["attr"], s["attr"] + s["ext"])

    def do_smart(self, s):
        failed = None
        for ds in self.g.datasets:
            if ds.channum not in self.g.why_chan_bad:
                reseed_randomness(self.seed + ds.channum)
                try:
                    ds.smart_cuts(forceNew=s["force"])
                except Exception as e:
                    failed = failed or e
        if failed is not None:
            raise failed

    def do_clearcuts(self, s):
        self._call(s, "clear_cuts")

    def do_cut(self, s):
        self.g.register_boolean_cut_fields("user")
        for ds in self.g.datasets:
            r = np.random.default_rng([s["r"], ds.channum])
            ds.cuts.cut(s["field"], r.random(ds.nPulses) < .1)

    def do_peakcut(self, s):
        for ds in self.g:
            v = ds.p_filt_value[:]
            ds.cuts.cut_parameter(v, (float(np.percentile(v, 2)), float(np.percentile(v, 99))), "p_filt_phase")

    def do_assign(self, s):
        self.g.register_categorical_cut_field("quality", ["fair", "fine"], "poor")
        for ds in self.g.datasets:
            r = np.random.default_rng([s["r"], ds.channum])
            fair = r.random(ds.nPulses) < .4
            ds.cuts.cut_categorical("quality", {"fair": fair, "fine": ~fair & (r.random(ds.nPulses) < .5)})

    def do_setbad(self, s):
        self.g.set_chan_bad(self.chan(s["chan"]).channum, s["why"])

    def do_setgood(self, s):
        self.g.set_chan_good(self.chan(s["chan"]).channum)

    def do_trig(self, s):
        if not self.g.good_channels:
            return      # "All datasets flagged bad, most things won't work": the trigger file is found through a good one
        if self.setup.cfg.get("trigs"):
            self.g.calc_external_trigger_timing(forceNew=s["force"])

    def do_allgood(self, s):
        self.g.set_all_chan_good()

    def do_applycuts(self, s):
        r = np.random.default_rng(s["r"])
        ctl = self.mass.AnalysisControl(pulse_average=(float(r.uniform(-50, 200)), None), rise_time_ms=(0, float(r.uniform(.05, .3))),
                                        min_value=(-40, None), peak_value=(0, 20000), timestamp_diff_sec=(1e-4, None),
                                        pretrigger_mean_departure_from_median=(-80, 80))
        if r.random() < .5:
            ctl.cuts_prm["subframecount_diff_sec"] = (float(r.uniform(0, .01)), None)
        self._call(s, "apply_cuts", ctl, clear=s["clear"])

    def do_model(self, s):
        if os.path.exists(self.model_file):
            os.unlink(self.model_file)
        import h5py
        with h5py.File(self.model_file, "w") as h:
            self.g.pulse_model_to_hdf5(h, n_basis=4)

    RESULT = {"summarize": ("p_pretrig_mean", "p_pulse_average"), "filter": ("p_filt_value",), "drift": ("p_filt_value_dc",), "phase": ("p_filt_value_phc",),
              "tdc": ("p_filt_value_tdc",), "avg": ("average_pulse",), "noise": ("noise_autocorr", "noise_psd"), "white": ("noise_autocorr", "noise_psd")}

    def finished(self, s):
        """A step that reported no failure has left its result in every good channel it was run on."""
        op = s["op"]
        for ds in self.g.datasets if s.get("only") is None else [self.chan(s["only"])]:
            if ds.channum in self.g.why_chan_bad:
                continue
            for name in self.RESULT.get(op, ()):
                if not np.any(getattr(ds, name)[:] != 0):
                    raise Violation("finished-without-result", f"{s} reported no failure, and {name} of channel {ds.channum} is all zeros")
            if op == "toenergy" or op == "calibrate" and s.get("force"):
                cal = ds.calibration[s["attr"] + s["ext"]]
                if not np.allclose(cal.ph2energy(getattr(ds, s["attr"])[:]), ds.p_energy[:], rtol=1e-5, atol=1e-3, equal_nan=True):
                    raise Violation("finished-without-result", f"{s}: the energies of channel {ds.channum} are not the calibrated {s['attr']}")
            if op in ("ats", "5lag") and s.get("force") and (ds.filter is None or ds.filter._filter_type != op):
                raise Violation("finished-without-result", f"{s}: channel {ds.channum} has no {op} filter")

    # ---- what the user sees ---------------------------------------------------------------------
    def bad(self):
        """{channel: reasons}; the traceback part of a reason is dropped."""
        return {int(c): [re.split(r"\ntraceback", w)[0] for w in why] for c, why in self.g.why_chan_bad.items()}

    def stored(self):
        self.g.hdf5_file.flush()
        t = {f"pulse:{k}": v for k, v in tree(self.g.hdf5_file, skip=("why_bad",)).items()}
        if self.g.hdf5_noisefile is not None:
            t.update({f"noise:{k}": v for k, v in tree(self.g.hdf5_noisefile).items()})
        for c, why in self.bad().items():
            t[f"bad:{c}"] = np.array(why, dtype=object)
        if os.path.exists(self.model_file):
            import h5py
            with h5py.File(self.model_file, "r") as h:
                t.update({f"model:{k}": v for k, v in tree(h, skip=("filename",)).items()})
        return t

    def view(self, group=None):
        g = group or self.g
        out = {"bad": np.array(sorted((c, *w) for c, w in self.__class__.bad_of(g).items()), dtype=object),
               "good channels": [int(c) for c in g.good_channels], "n good": int(g.num_good_channels),
               "iteration": [int(ds.channum) for ds in g]}
        for ds in g.datasets:
            c = f"chan{ds.channum}"
            for k in sorted(ds.__dict__):
                if k.startswith("p_") and hasattr(ds.__dict__[k], "shape") and k != "p_pretrig_mean_orig":
                    out[f"{c}.{k}"] = ds.__dict__[k][:]
            for k in ("average_pulse", "noise_autocorr", "noise_psd"):
                out[f"{c}.{k}"] = getattr(ds, k)[:]
            for k in ("peak_samplenumber", "pretrigger_ignore_samples", "cut_pre", "cut_post", "nPulses", "nSamples", "nPresamples",
                      "timebase"):
                v = getattr(ds, k)
                out[f"{c}.{k}"] = v if v is None else float(v)
            f = ds.filter
            out[f"{c}.filter"] = None if f is None else f._filter_type
            if f is not None:
                out[f"{c}.filter_type"] = ds._filter_type
                for k in ("values", "dt_values", "nominal_peak", "variance", "predicted_v_over_dv", "fmax", "f_3db"):
                    v = getattr(f, k, None)
                    if k == "dt_values" and f._filter_type != "ats":
                        continue
                    out[f"{c}.filter.{k}"] = v if v is None else np.asarray(v, float)
            for name, cal in sorted(ds.calibration.items()):
                grid = np.array([10.0, 900, 1860, 2500, 3720, 5600, 8000])
                out[f"{c}.cal.{name}.points"] = np.array([cal._ph, cal._energies, cal._dph, cal._de], float)
                out[f"{c}.cal.{name}.names"] = list(map(str, cal._names))
                out[f"{c}.cal.{name}.curve"] = cal.ph2energy(grid) if len(cal._ph) else None
                out[f"{c}.cal.{name}.inverse"] = cal.energy2ph(np.array([700.0, 1000, 2500])) if len(cal._ph) else None
                out[f"{c}.cal.{name}.options"] = [cal.curvename() if hasattr(cal, "curvename") else "", bool(cal.nonlinearity)]
            for k, v in sorted(ds.drift_correct_info.items()):
                out[f"{c}.drift.{k}"] = v
            pc = getattr(ds, "phaseCorrector", None)
            out[f"{c}.phase corrector"] = None if pc is None else pc(np.linspace(-.7, .7, 9), np.linspace(1500, 6000, 9))
            out[f"{c}.good"] = ds.good()
            cm = ds.cuts.cut_mask()
            for k in cm.dtype.names:
                out[f"{c}.cuts.{k}"] = cm[k]
            a = getattr(ds, "saved_auto_cuts", None)
            out[f"{c}.autocuts"] = None if a is None else [float(a.cuts_prm[k][1]) for k in
                                                           ("peak_time_ms", "rise_time_ms", "pretrigger_rms", "postpeak_deriv")]
        return out

    @staticmethod
    def bad_of(g):
        return {int(c): [re.split(r"\ntraceback", w)[0] for w in why] for c, why in g.why_chan_bad.items()}


def compare(kind, what, want, got, skip=()):
    from .tes import tree_diff
    d = [x for x in tree_diff(want, got) if not any(re.search(p, x) for p in skip)]
    if d:
        raise Violation(kind, f"{what}: {len(d)} differences: " + "; ".join(d[:5]))
