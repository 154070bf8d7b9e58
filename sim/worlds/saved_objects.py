"""P15: calibrations, phase and drift corrections and pulse models: histories of edits, saves, interrupted saves and loads."""
import json

import numpy as np

from ..engine import Violation, World

CURVES = ("loglog", "linear", "linear+0", "gain", "invgain", "loggain")
NAMES = ["", "", "p1", "p2", "p3", "MnKAlpha", "MnKBeta", "line µ", "x" * 70, "p10"]
LINES = ["MnKAlpha", "MnKBeta", "TiKAlpha", "CuKAlpha", "FeKAlpha"]
WHERE = ["p_filt_value", "p_filt_value_dc", "µ", "a/b", "phase_correction"]


def gain(e, r=0.0):
    return e ** 0.93 * (1 + r)


class Refused(Exception):
    pass


class Tied(Exception):
    """Two points of one height or energy: nothing says what happens."""


class CalModel:
    """What a calibration is: its points and its options."""

    def __init__(self, nonlinearity=1.1, curvetype="loglog", approximate=False, useGPR=True):
        self.pts = []                      # [name, ph, energy, dph, de]
        self.opts = [nonlinearity, curvetype, approximate, useGPR]

    def copy(self):
        c = CalModel(*self.opts)
        c.pts = [list(p) for p in self.pts]
        return c

    def add(self, standard, ph, e, name, pe, ee, overwrite):
        if isinstance(e, str):
            name, e = e, standard[e]
        pe = ph * 0.001 if pe is None else pe
        ee = 0.01 if ee is None else ee
        idx = None
        if name and any(p[0] == name for p in self.pts):
            idx = [p[0] for p in self.pts].index(name)
        elif self.pts:
            d = [abs(e - p[2]) for p in self.pts]
            if min(d) <= ee:
                idx = d.index(min(d))
        if idx is not None and not overwrite:
            raise Refused
        pts = [list(p) for p in self.pts]
        if idx is None:
            pts.append([name, ph, e, pe, ee])
        else:
            pts[idx] = [pts[idx][0], ph, e, pe, ee]
        if len({p[1] for p in pts}) < len(pts) or len({p[2] for p in pts}) < len(pts):
            raise Tied
        srt = sorted(pts, key=lambda p: p[1])
        if any(a[2] >= b[2] or a[1] >= b[1] for a, b in zip(srt, srt[1:])):
            raise Refused
        self.pts = pts

    def sorted(self):
        return sorted(self.pts, key=lambda p: p[1])


def same(a, b):
    """Equality of nested outcomes; NaN equals NaN."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and a.dtype.kind == b.dtype.kind and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


def differing(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return differing(a[k], b.get(k), f"{path}/{k}")
    return f"{path}: {str(a)[:150]} instead of {str(b)[:150]}"


class SavedObjects(World):
    name = "saved_objects"
    real = ("mass.calibration.energy_calibration.EnergyCalibration", "mass.core.phase_correct", "mass.core.pulse_model.PulseModel",
            "mass.off.channels.DriftCorrection", "h5py/HDF5")
    stub = ("the measured lines and pulses (synthetic arrays)",)
    rule = ("random histories of adding, replacing and removing calibration points, changing options, copying, using, and building "
            "corrections and pulse models; saves under several names with an interrupt, failed write or lasting failure at any cache "
            "write; loads before and after reopening the file.  A loaded object converts everything as the saved one did, or there is "
            "none; a calibration converts as a new one with the same points and options")
    must_reach = ("save-interrupted", "lasting-failure", "load-absent", "load-old", "load-new", "repaired", "point-refused",
                  "points-overlap", "approximated", "emptied", "one-bin-phase", "model-inverted", "reopened", "overwrite-refused")

    def generate(self, rng, tier):
        ops = []
        if rng.random() < .5:                   # a calibration as in practice
            for e in sorted(rng.sample(range(500, 9000, 250), rng.randrange(3, 9))):
                ops.append({"op": "add", "c": 0, "ph": round(gain(e, rng.uniform(-.002, .002)), 4), "e": float(e), "name": f"line{e}",
                            "pe": rng.choice([None, 1.5, 0.0]), "ee": rng.choice([None, .05, .5]), "over": True})
            rng.shuffle(ops)
            ops.append({"op": "option", "c": 0, "what": "approx", "r": rng.choice([0, 1, 1])})
            ops.append({"op": "use", "c": 0, "how": "convert"})
        for _ in range(rng.randrange(6, 26)):
            q = rng.random()
            c = rng.randrange(2)
            if q < .34:
                e = round(rng.uniform(400, 9000), 3)
                if rng.random() < .15:
                    e = round(rng.choice([5898.8, 6490.4, 4510.8]) + rng.choice([-.4, -.02, 0, .02, .4, 5]), 3)
                ph = round(gain(e, rng.choice([0, 0, 0, rng.uniform(-.02, .02), rng.uniform(-.3, .3)])), 4)
                if rng.random() < .15:
                    e = rng.choice(LINES)
                    ph = round(rng.choice([3100.0, 3000.0, 2600.0, 3400.0, 4400.0]) + rng.uniform(0, 300), 3)
                o = {"op": "add", "c": c, "ph": ph, "e": e, "name": rng.choice(NAMES), "pe": rng.choice([None, None, 0.0, 1.5, ph * .002]),
                     "ee": rng.choice([None, None, 0.0, .05, .5, 30.0]), "over": rng.random() < .85}
            elif q < .40:
                o = {"op": "remove", "c": c, "by": rng.choice(["name", "prefix", "energy", "energy", "all"]), "r": rng.randrange(1000),
                     "w": rng.choice([.1, 40, 3000])}
            elif q < .48:
                o = {"op": "option", "c": c, "what": rng.choice(["curve", "curve", "approx", "approx", "gpr", "power", "badcurve"]),
                     "r": rng.randrange(1000)}
            elif q < .51:
                o = {"op": "copy", "c": c}
            elif q < .54:
                o = {"op": "new", "c": c, "r": rng.randrange(1000)}
            elif q < .64:
                o = {"op": "use", "c": c, "how": rng.choice(["convert", "convert", "convert", "print", "drop"])}
            elif q < .68:
                o = {"op": "phase", "r": rng.randrange(2**31), "lines": rng.randrange(1, 6), "n": rng.choice([60, 90]),
                     "old": rng.random() < .2, "close": rng.random() < .4}
            elif q < .71:
                o = {"op": "model", "r": rng.randrange(2**31), "nb": rng.randrange(3, 7), "five": rng.random() < .4}
            elif q < .73:
                o = {"op": "drift", "r": rng.randrange(2**31)}
            elif q < .90:
                o = {"op": "save", "kind": rng.choice(["cal", "cal", "cal", "phase", "model", "drift"]), "c": c, "at": rng.randrange(3),
                     "over": rng.random() < .8, "inv": rng.random() < .5}
                if rng.random() < .45:
                    o["fault"] = {"seam": "h5", "k": rng.randrange(1, 22 if o["kind"] == "model" else 14),
                                  "kind": rng.choice(["kbi", "kill", "EIO", "ENOSPC", "MEM"]),
                                  "when": rng.choice(["before", "after"]), "sticky": rng.random() < .4}
                    o["again"] = rng.random() < .4
            elif q < .96:
                o = {"op": "load"}
            else:
                o = {"op": "reopen"}
            ops.append(o)
        return {"new": rng.randrange(1000), "ops": ops}

    # ---------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import h5py

        import mass
        from mass.calibration.energy_calibration import STANDARD_FEATURES
        from mass.core.phase_correct import PhaseCorrector
        from mass.core.pulse_model import PulseModel
        from mass.off.channels import DriftCorrection
        self.mass, self.ctx, self.h5py, self.standard = mass, ctx, h5py, STANDARD_FEATURES
        self.EC, self.PC, self.PM, self.DC = mass.EnergyCalibration, PhaseCorrector, PulseModel, DriftCorrection
        self.fname = ctx.path("saved.hdf5")
        self.h5 = h5py.File(self.fname, "w")
        self.stored = {}                   # (kind, place) -> list of permitted snapshots, None for "nothing there"
        self.cal, self.model = [None, None], [None, None]
        self.do_new({"c": 0, "r": plan["new"]})
        self.do_new({"c": 1, "r": plan["new"] + 7})
        self.other = {"phase": None, "model": None, "drift": None}
        self.do_drift({"r": plan["new"]})
        np.random.seed(plan["new"])
        try:
            for i, op in enumerate(plan["ops"]):
                self.when = f"step {i} {json.dumps(op)[:160]}"
                getattr(self, "do_" + op["op"])(op)
                for c in (0, 1):
                    self.check_points(c)
                ctx.event(op["op"], len(self.model[0].pts), len(self.model[1].pts))
            self.when = "in the end"
            self.do_reopen(None)
        finally:
            self.h5.close()

    # ---- calibrations ---------------------------------------------------------------------------
    def points(self, cal):
        """Points as presented, in order of pulse height (uncertainties where the object has them)."""
        ph, e, names = np.array(cal.cal_point_phs), np.array(cal.cal_point_energies), list(cal.cal_point_names)
        dph, de = (getattr(cal, a, None) for a in ("_dph", "_de"))
        k = np.argsort(ph)
        return {"names": [str(names[i]) for i in k], "ph": ph[k], "energies": e[k],
                "dph": None if dph is None else np.array(dph)[k], "de": None if de is None else np.array(de)[k]}

    def check_points(self, c):
        p, m = self.points(self.cal[c]), self.model[c].sorted()
        want = {"names": [x[0] for x in m], "ph": np.array([x[1] for x in m], float), "energies": np.array([x[2] for x in m], float),
                "dph": None if p["dph"] is None else np.array([x[3] for x in m], float),
                "de": None if p["de"] is None else np.array([x[4] for x in m], float)}
        if not same(p, want):
            raise Violation("wrong-points", f"{self.when}: calibration {c} {differing(p, want)}")
        if self.cal[c].npts != len(m) or self.cal[c].curvename() != self.model[c].opts[1]:
            raise Violation("wrong-points", f"{self.when}: calibration {c} says {self.cal[c].npts} points, {self.cal[c].curvename()}")

    def outcome(self, f, *a, **kw):
        try:
            with np.errstate(all="ignore"):
                r = f(*a, **kw)
        except Exception as e:
            return ("raised", type(e).__name__)
        return np.array(r, float) if isinstance(r, np.ndarray) else float(r)

    def conversions(self, cal, model):
        e = [p[2] for p in model.pts] or [1000.0]
        es = np.hstack([np.linspace(min(e) * .4, max(e) * 1.3, 23), e])
        phs = np.hstack([gain(es), [p[1] for p in model.pts]])
        keep = phs.copy(), es.copy()
        with np.errstate(all="ignore"):
            out = {"energy": self.outcome(cal, phs), "slope": self.outcome(cal, phs, der=1), "ph": self.outcome(cal.energy2ph, es),
                   "one": self.outcome(cal.ph2energy, float(phs[3])), "one back": self.outcome(cal.energy2ph, float(es[3])),
                   "uncertainty": self.outcome(cal.ph2uncertainty, phs), "uncertainty(E)": self.outcome(cal.energy2uncertainty, es[:5]),
                   "exact": self.outcome(cal.energy2ph_exact, float(es[3]))}
        if not same(keep, (phs, es)):
            raise Violation("input-changed", f"{self.when}: converting changed the caller's array")
        return out

    def snapshot_cal(self, cal, model):
        s = {"points": self.points(cal), "curve": str(cal.curvename()), "nonlinearity": float(cal.nonlinearity),
             "convert": self.conversions(cal, model)}
        for a in ("_use_approximation", "_use_GPR"):
            if hasattr(cal, a):
                s[a] = bool(getattr(cal, a))
        return s

    def do_new(self, op):
        r = op["r"]
        kw = {"nonlinearity": [1.1, 1.0, 1.25][r % 3], "curvetype": CURVES[(r // 3) % 6], "approximate": r % 5 == 0, "useGPR": r % 7 > 1}
        m = CalModel(**kw)
        if r % 2:
            kw["curvetype"] = CURVES.index(kw["curvetype"])
        self.cal[op["c"]], self.model[op["c"]] = self.EC(**kw), m

    def do_add(self, op):
        c = op["c"]
        a = op["ph"], op["e"], op["name"], op["pe"], op["ee"]
        trial = self.model[c].copy()
        try:
            trial.add(self.standard, *a, op["over"])
            refused = False
        except Refused:
            refused = True
        except Tied:
            return
        try:
            self.cal[c].add_cal_point(a[0], a[1], name=a[2], pht_error=a[3], e_error=a[4], overwrite=op["over"])
        except Exception as e:
            if not refused:
                raise
            self.ctx.probe("point-refused")
            del e
            return
        if refused:
            raise Violation("not-refused", f"{self.when}: a point that must be refused was accepted")
        self.model[c] = trial
        m = trial.sorted()
        if any(y[2] - x[2] <= max(x[4], y[4]) for x, y in zip(m, m[1:])):
            self.ctx.probe("points-overlap")

    def do_remove(self, op):
        c, by = op["c"], op["by"]
        cal, m = self.cal[c], self.model[c]
        if not m.pts:
            return
        p = m.pts[op["r"] % len(m.pts)]
        if by == "name":
            if op["r"] % 4 == 0:
                try:
                    cal.remove_cal_point_name("nosuch")
                except ValueError:
                    return
                raise Violation("not-refused", f"{self.when}: removing an unknown point was accepted")
            first = [x[0] for x in self.by_presented(c)].index(p[0])
            gone = self.by_presented(c)[first]
            cal.remove_cal_point_name(p[0])
            m.pts = [x for x in m.pts if x is not gone]
        elif by == "prefix":
            cal.remove_cal_point_prefix(p[0][:1])
            m.pts = [x for x in m.pts if not x[0].startswith(p[0][:1])]
        elif by == "energy":
            cal.remove_cal_point_energy(p[2], op["w"])
            m.pts = [x for x in m.pts if not abs(x[2] - p[2]) < op["w"]]
        else:
            for x in list(m.pts):
                cal.remove_cal_point_energy(x[2], 1e9)
            m.pts = []
        if not m.pts:
            self.ctx.probe("emptied")

    def by_presented(self, c):
        """Points of the model in the order in which the object presents them (of two with one name, the first goes)."""
        order = [float(x) for x in self.cal[c].cal_point_phs]
        return sorted(self.model[c].pts, key=lambda p: order.index(p[1]))

    def do_option(self, op):
        c, w, r = op["c"], op["what"], op["r"]
        cal, o = self.cal[c], self.model[c].opts
        if w == "curve":
            o[1] = CURVES[r % 6]
            cal.set_curvetype(o[1] if r % 2 else CURVES.index(o[1]))
        elif w == "approx":
            o[2] = bool(r % 2)
            cal.set_use_approximation(o[2])
        elif w == "gpr":
            o[3] = bool(r % 2)
            cal.set_GPR(o[3])
        elif w == "power":
            o[0] = [1.0, 1.15, 1.3][r % 3]
            cal.set_nonlinearity(o[0])
        else:
            try:
                cal.set_curvetype("nosuch")
            except ValueError:
                return
            raise Violation("not-refused", f"{self.when}: an unknown type of curve was accepted")

    def do_copy(self, op):
        c = op["c"]
        self.cal[1 - c], self.model[1 - c] = self.cal[c].copy(), self.model[c].copy()

    def do_use(self, op):
        c = op["c"]
        cal, m = self.cal[c], self.model[c]
        if op["how"] == "print":
            repr(cal)
            try:
                str(cal)
            except Exception:               # printing needs the curve, which these points may not allow
                if not isinstance(self.outcome(cal, 1000.0), tuple):
                    raise
        elif op["how"] == "drop":
            self.outcome(lambda: cal.drop_one_errors()[1])
        else:
            got = self.conversions(cal, m)
            fresh, fm = self.EC(m.opts[0], m.opts[1], m.opts[2], useGPR=m.opts[3]), CalModel(*m.opts)
            for p in m.sorted():
                try:
                    fm.add(self.standard, p[1], p[2], p[0], p[3], p[4], True)
                except Refused:
                    return
                if len(fm.pts) and fm.pts[-1] != p:
                    return                                  # points overlap: a new object cannot be given them all
                fresh.add_cal_point(p[1], p[2], name=p[0], pht_error=p[3], e_error=p[4])
            if len(fm.pts) != len(m.pts):
                return
            want = self.conversions(fresh, m)
            if not same(got, want):
                raise Violation("depends-on-history", f"{self.when}: calibration {c} differs from a new one with the same "
                                f"{len(m.pts)} points and options {m.opts}: {differing(got, want)}")
            if m.opts[2] and len(m.pts) > 2:
                self.ctx.probe("approximated")

    # ---- corrections and models -----------------------------------------------------------------
    def do_phase(self, op):
        from mass.core.phase_correct import phase_correct
        r = np.random.default_rng(op["r"])
        lines = np.sort(r.uniform(1000, 9000, size=op["lines"]))
        if op["close"]:
            lines = 5900 * (1 + .03 * np.arange(op["lines"]))
        else:
            lines = lines[np.hstack([True, np.diff(lines) > 300])]
        phase = r.uniform(-.5, .5, size=op["n"] * len(lines))
        ph = np.repeat(lines, op["n"]) * (1 + r.normal(size=len(phase)) * .0005 + .002 * phase)
        peaks = r.permutation(lines)
        keep = peaks.copy(), phase.copy(), ph.copy()
        try:
            pc = phase_correct(phase, ph, ph_peaks=peaks, method2017=not op["old"], indicatorName="p_filt_phase",
                               uncorrectedName="µ value")
        except ZeroDivisionError:           # no spread to compute an entropy of
            return
        if not same(keep, (peaks, phase, ph)):
            raise Violation("input-changed", f"{self.when}: making a phase correction changed the caller's arrays")
        if not op["old"]:
            out = pc(phase, ph)
            if not np.isfinite(out).all():
                raise Violation("not-a-correction", f"{self.when}: {np.isnan(out).sum()} of {len(out)} corrected values of the training "
                                "pulses are not finite")
            if lines[0] > .92 * lines[-1]:
                self.ctx.probe("one-bin-phase")
        self.other["phase"] = pc

    def do_model(self, op):
        r = np.random.default_rng(op["r"])
        n, nb, five = 24, op["nb"], 0
        if op["five"] and nb > 3:
            five = int(r.integers(1, nb - 2))
        basis = np.vstack([np.ones(n), r.normal(size=n), r.normal(size=n)]).T
        proj = np.linalg.pinv(basis)
        np.random.seed(op["r"] % 2**32)
        self.other["model"] = self.PM(proj, basis, nb, r.normal(size=(n, 15)), float(r.normal()), 3.5, .25, "/data/µ_chan1.ljh", five,
                                      r.normal(size=n - 4), r.normal(size=n), r.random(n), 12.5, r.normal(size=n))

    def do_drift(self, op):
        r = np.random.default_rng(op["r"])
        self.other["drift"] = self.DC("pretriggerMean", "µ" if op["r"] % 2 else "filtValue", float(r.normal()), float(r.normal() * 1e-4))

    def snapshot(self, kind, obj, inverted=False):
        r = np.random.default_rng(5)
        with np.errstate(all="ignore"):
            if kind == "phase":
                phase, ph = r.uniform(-1, 1, 60), r.uniform(500, 12000, 60)
                return {"apply": self.outcome(obj, phase, ph), "names": [obj.indicatorName, obj.uncorrectedName]}
            if kind == "drift":
                a, b = r.normal(size=9), r.normal(size=9)
                return {"apply": self.outcome(obj, a, b), "names": [obj.indicatorName, obj.uncorrectedName],
                        "numbers": [float(obj.medianIndicator), float(obj.slope)]}
            p, b = np.array(obj.projectors, float), np.array(obj.basis, float)
            if inverted:
                p[1:] *= -1
                b[:, 1:] *= -1
            return {"projectors": p, "basis": b, "labels": obj.labels(), "n": int(obj.n_basis), "file": str(obj.file_name),
                    "numbers": [float(v) for v in (obj.v_dv, obj.pretrig_rms_median, obj.pretrig_rms_sigma, obj.extra_n_basis_5lag,
                                                   obj.noise_psd_delta_f)],
                    "arrays": [np.array(v, float) for v in (obj.pulses_for_svd, obj.f_5lag, obj.average_pulse_for_5lag, obj.noise_psd,
                                                            obj.noise_autocorr)]}

    # ---- the file -------------------------------------------------------------------------------
    def place(self, kind, at):
        if kind == "cal":
            return "chan/calibration", WHERE[at]
        if kind == "model":
            return f"model/{at}", "svdbasis"
        return "chan", (["driftCorrection", "d2", "µ"] if kind == "drift" else ["phase_correction", "p2", "µp"])[at]

    def do_save(self, op):
        kind = op["kind"]
        obj = self.cal[op["c"]] if kind == "cal" else self.other[kind]
        if obj is None:
            return
        model = self.model[op["c"]].copy()
        group, name = self.place(kind, op["at"])
        key = (kind, group, name)
        before = self.snapshot_cal(obj.copy(), model) if kind == "cal" else self.snapshot(kind, obj)
        snap = (before, model) if kind == "cal" else (self.snapshot(kind, obj, kind == "model" and op["inv"]), None)
        g = self.h5.require_group(group)
        over = op["over"] or kind != "phase"

        def f():
            if kind == "cal":
                obj.save_to_hdf5(g, name)
            elif kind == "phase":
                obj.toHDF5(g, name, overwrite=over)
            elif kind == "model":
                obj.toHDF5(g, op["inv"])
            else:
                obj.toHDF5(g, name)
        if kind == "model" and op["inv"]:
            self.ctx.probe("model-inverted")
        old = self.stored.get(key, [None])
        if not over:
            self.load(key)                      # decides which of the permitted ones is there
            old = self.stored.get(key, [None])
            if old != [None]:
                try:
                    f()
                except AttributeError:
                    self.ctx.probe("overwrite-refused")
                    self.load(key)
                    return
                raise Violation("not-refused", f"{self.when}: a phase correction was replaced without overwrite=True")
        fault = op.get("fault")
        if fault is None:
            f()
            self.stored[key] = [snap]
        else:
            from ..faults import SimKill
            with self.ctx.armed(fault) as a:
                try:
                    f()
                except (KeyboardInterrupt, SimKill, OSError, MemoryError):
                    if not a.fired:
                        raise
                else:
                    if a.fired:
                        raise Violation("fault-swallowed", f"{self.when}: saving returned normally although it failed")
            if not a.fired:
                self.stored[key] = [snap]
            else:
                self.ctx.probe("save-interrupted")
                if fault.get("sticky") and a.visits > fault["k"]:
                    self.ctx.probe("lasting-failure")
                self.stored[key] = [None, *[x for x in old if x is not None], snap]
                if op["again"]:
                    over = True
                    f()
                    self.ctx.probe("repaired")
                    self.stored[key] = [snap]
        after = self.snapshot_cal(obj, model) if kind == "cal" else self.snapshot(kind, obj)
        if not same(before, after):
            raise Violation("save-changed-object", f"{self.when}: saving changed the object itself: {differing(after, before)}")
        self.load(key)

    def load(self, key):
        kind, group, name = key
        allowed = self.stored.get(key, [None])
        g = self.h5.require_group(group)
        try:
            if kind == "cal":
                obj = self.EC.load_from_hdf5(g, name)
            elif kind == "phase":
                obj = self.PC.fromHDF5(g, name)
            elif kind == "model":
                obj = self.PM.fromHDF5(g)
            else:
                obj = self.DC.fromHDF5(g, name)
        except KeyError:
            if None not in allowed:
                raise Violation("lost", f"{self.when}: nothing can be loaded from {group}/{name}, which was saved")
            self.ctx.probe("load-absent")
            self.stored[key] = [None]
            return
        found = []
        want = None
        for a in allowed:
            if a is None:
                continue
            got = self.snapshot_cal(obj, a[1]) if kind == "cal" else self.snapshot(kind, obj)
            want = a[0]
            if same(got, want):
                found.append(a)
        if not found:
            if want is None:
                raise Violation("loaded-nothing-saved", f"{self.when}: {group}/{name} gives an object, but none was saved there")
            raise Violation("loaded-differs", f"{self.when}: what is loaded from {group}/{name} was not saved there: {differing(got, want)}")
        if len(allowed) > 1:
            self.ctx.probe("load-new" if found[-1] is allowed[-1] else "load-old")
        self.stored[key] = [found[-1]]

    def do_load(self, op):
        for key in sorted(self.stored):
            self.load(key)

    def do_reopen(self, op):
        self.h5.close()
        self.h5 = self.h5py.File(self.fname, "r+")
        self.ctx.probe("reopened")
        self.do_load(op)
