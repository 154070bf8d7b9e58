"""P22: the noise results of a TESGroup are those of each channel's own usable noise records, over any history."""
import gc
import warnings

import numpy as np

from ..daq import LJHStream
from ..engine import Violation, World
from ..tes import close

LIMITS = [3, 100, 300, 1000, 100000]


def spectrum(data, dt, limit):
    """Mean one-sided power spectrum of the rows whose range stays under the limit; None without any."""
    m2 = data.shape[1] // 2 * 2
    w = .5 - .5 * np.cos(2 * np.pi * np.arange(m2) / (m2 - 1))
    use = [d - d.mean() for d in data if d.max() - d.min() < limit]
    if not use:
        return None
    return np.mean([2 * dt * np.abs(np.fft.rfft(w * y[:m2]))**2 / (w**2).sum() for y in use], axis=0)


def correlation(x, lags):
    return np.array([np.dot(x[:len(x) - k], x[k:]) for k in range(lags)])


def broken_autocorr(data, limit):
    use = [d - d.mean() for d in data if d.max() - d.min() <= limit]
    n = data.shape[1]
    return np.mean([correlation(y, n) for y in use], axis=0) / (n - np.arange(n)) if use else None


def continuous_autocorr(data, limit, lags, fewest):
    """By chunks of 15 times the lags (fewer lags when there are not that many samples)."""
    x = data.ravel()
    lags = min(lags, len(x) // 15)
    if lags < fewest:
        return None
    c = 15 * lags
    use = [y for y in (x[i:i + c] - x[i:i + c].mean() for i in range(0, len(x) - c + 1, c)) if np.abs(y).max() <= limit]
    return np.mean([correlation(y, lags) for y in use], axis=0) / (c - np.arange(lags)) if use else None


class Noise(World):
    name = "noise"
    real = ("mass.core.channel (NoiseRecords, compute_noise, assume_white_noise, compute_noise_nlags)", "mass.core.channel_group", "mass.mathstat.power_spectrum",
            "h5py/HDF5 cache files")
    stub = ("DAQ program (noise files of 1-3 channels with disturbed records)", "failing or interrupting writes of the cache")
    rule = ("noise of odd and even record lengths, continuous or not, with disturbed records, with pulse files or alone; computed, forced, assumed white, repeated with "
            "another limit, by group or channel, interrupted and repeated, reopened")
    must_reach = ("computed", "left-out-some", "none-usable", "continuous", "broken", "too-short", "white", "kept", "forced", "noise-only", "nlags", "reopened",
                  "interrupted", "odd", "range")

    def generate(self, rng, tier):
        n = rng.choice([15, 16, 24, 33])
        chans = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            p = rng.choice([0, .1, .3, 1])
            chans.append([rng.choice([60, 150, 600, 3000]) if rng.random() < p else 0 for _ in range(rng.choice([1, 5, 15, 31, 47]))])
        ops = []
        for _ in range(rng.randrange(1, 8)):
            op = rng.choice(["compute"] * 5 + ["old", "white", "white", "nlags", "range", "reopen"])
            o = {"op": op}
            if op != "reopen":
                o["only"] = rng.choice([None, None, 0, 1, 2])
                o["limit"] = rng.choice(LIMITS)
                o["force"] = rng.random() < .5
                if op == "white":
                    o["var"] = rng.choice([1.0, 4.0, 77.5])
                if op == "range":
                    o["first"], o["last"] = rng.random(), rng.random()
                elif op == "nlags":
                    o["lags"] = rng.choice([n, n + 1, 2 * n, 3 * n + 1, 8, 20 * n])
                elif rng.random() < .3:
                    o["fault"] = {"seam": "h5", "k": rng.randrange(1, 9), "kind": rng.choice(["kbi", "EIO", "MEM", "ENOSPC"]), "when": rng.choice(["before", "after"])}
                    o["reopen"] = rng.random() < .4
            ops.append(o)
        return {"nsamp": n, "chans": chans, "ops": ops, "continuous": rng.random() < .5, "alone": rng.random() < .3, "seed": rng.randrange(2**31),
                "timebase": rng.choice([1e-6, 5.12e-6]), "version": rng.choice(["2.2.0", "2.1.0"]), "invert": rng.random() < .2}

    def shrink_config(self, plan):
        for k, v in (("alone", False), ("invert", False), ("version", "2.2.0"), ("nsamp", 16)):
            if plan[k] != v:
                yield dict(plan, **{k: v})
        for i in range(len(plan["chans"])):
            if len(plan["chans"]) > 1:
                yield dict(plan, chans=plan["chans"][:i] + plan["chans"][i + 1:])
            c = plan["chans"][i]
            if len(c) > 1:
                yield dict(plan, chans=plan["chans"][:i] + [c[:len(c) // 2]] + plan["chans"][i + 1:])

    def shrink_op(self, op):
        for k, v in (("only", None), ("fault", None), ("reopen", False)):
            if op.get(k) not in (v, None):
                yield dict(op, **{k: v})

    # -- the files -------------------------------------------------------------------------------
    def write(self, plan, ctx):
        self.data, self.files, self.noise_files = {}, [], []
        for i, glitches in enumerate(plan["chans"]):
            ch = 2 * i + 1
            base = {"version": plan["version"], "client": "DASTARD", "source": None, "nsamp": plan["nsamp"], "npre": 4, "timebase": plan["timebase"], "rows": 4, "cols": 1,
                    "row": i, "col": 0, "subdiv": 4, "suboff": 0, "eol": "lf"}
            z = LJHStream(dict(base, seed=plan["seed"] + ch))
            for k, size in enumerate(glitches):
                r = np.random.default_rng([plan["seed"], ch, k])
                y = 1000 + np.round(r.normal(0, 3, plan["nsamp"]) + r.normal(0, 5))
                y[r.integers(0, plan["nsamp"])] += size * r.choice([1, -.3])
                y = np.clip(y, 0, 65535).astype(np.uint16)
                z.pulse = lambda y=y: y
                z.add(dt_us=100)
            self.data[ch] = z.truth(len(z.records))[0].astype(float)
            s = LJHStream(dict(base, seed=plan["seed"] + 100 + ch))
            s.add()
            s.add()
            for name, stream, names in ((f"run_chan{ch}.ljh", s, self.files), (f"quiet_chan{ch}.ljh", z, self.noise_files)):
                with open(ctx.path(name), "wb") as f:
                    f.write(bytes(stream.bytes))
                names.append(ctx.path(name))

    def open(self, plan, mass):
        kw = {"noise_is_continuous": plan["continuous"]}
        if plan["alone"]:
            return mass.TESGroup(list(self.noise_files), noise_only=True, **kw)
        return mass.TESGroup(list(self.files), list(self.noise_files), invert_data=plan["invert"], **kw)

    # -- the run ---------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        self.write(plan, ctx)
        ctx.probe("continuous" if plan["continuous"] else "broken")
        if plan["nsamp"] % 2:
            ctx.probe("odd")
        if plan["alone"]:
            ctx.probe("noise-only")
        self.known = {ch: None for ch in self.data}     # (autocorrelation, spectrum)
        self.bad, self.spoiled = set(), set()
        self.g = self.open(plan, mass)
        try:
            for i, op in enumerate(plan["ops"]):
                if op["op"] == "range":
                    self.part(op, plan, mass, ctx)
                elif op["op"] == "reopen":
                    self.reopen(plan, mass, ctx)
                else:
                    self.step(op, plan, mass, ctx)
                ctx.event(op["op"], sorted(self.bad), [self.known[c] is None for c in self.known])
                self.check(f"after {plan['ops'][:i + 1]}", plan)
            self.reopen(plan, mass, ctx)
            self.check(f"after {plan['ops']}, reopened", plan)
        finally:
            close(self.g)
            self.g = None
            gc.collect()

    def reopen(self, plan, mass, ctx):
        close(self.g)
        self.g = self.open(plan, mass)
        ctx.probe("reopened")

    def result(self, ch, op, plan, ctx):
        """(autocorrelation, spectrum) by definition, or None when the step has to fail."""
        x, n, dt = self.data[ch], plan["nsamp"], plan["timebase"]
        if op["op"] == "white":
            return np.r_[op["var"], np.zeros(n - 1)], np.full(n // 2 + 1, 2 * op["var"] * dt)
        psd = spectrum(x, dt, op["limit"])
        ac = continuous_autocorr(x, op["limit"], n, n) if plan["continuous"] else broken_autocorr(x, op["limit"])
        if plan["continuous"] and x.size < 15 * n:
            ctx.probe("too-short")
        if psd is None:
            ctx.probe("none-usable")
        elif any(d.max() - d.min() >= op["limit"] for d in x):
            ctx.probe("left-out-some")
        return None if psd is None or ac is None else (ac, psd)

    def call(self, op, target):
        if op["op"] == "white":
            target.assume_white_noise(noise_variance=op["var"], forceNew=op["force"])
        elif op["op"] == "nlags":
            target.compute_noise_nlags(op["lags"], max_excursion=op["limit"])
        elif op["op"] == "old":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                target.compute_noise_spectra(max_excursion=op["limit"], forceNew=op["force"])
        else:
            target.compute_noise(max_excursion=op["limit"], forceNew=op["force"])

    def run(self, op, chans):
        """Returns the channels in which the step failed, as the user sees it."""
        before = set(self.g.why_chan_bad)
        if op["only"] is None:
            self.call(op, self.g)
            return set(self.g.why_chan_bad) - before
        try:
            self.call(op, self.g.channel[chans[0]])
        except (KeyboardInterrupt, OSError, MemoryError):
            raise
        except Exception:
            return {chans[0]}
        return set()

    def step(self, op, plan, mass, ctx):
        every = sorted(self.data)
        chans = [c for c in every if c not in self.bad] if op["only"] is None else [every[op["only"] % len(every)]]
        if op["op"] == "nlags":
            return self.nlags(op, plan, chans, ctx)
        want, fails = {}, set()
        for c in chans:
            if self.known[c] is not None and not op["force"]:
                ctx.probe("kept")
                want[c] = self.known[c]
                continue
            if self.known[c] is not None:
                ctx.probe("forced")
            want[c] = self.result(c, op, plan, ctx)
            if want[c] is None:
                fails.add(c)
                want[c] = self.known[c]
            else:
                ctx.probe("white" if op["op"] == "white" else "computed")
        failed = None
        if op.get("fault"):
            with ctx.armed(op["fault"]) as a:
                try:
                    failed = self.run(op, chans)
                except (KeyboardInterrupt, OSError, MemoryError):
                    if not a.fired:
                        raise
            if a.fired:
                # the user sees to it (the channels marked are set good again), and repeats the step
                ctx.probe("interrupted")
                for c in set(self.g.why_chan_bad) - self.bad:
                    self.g.set_chan_good(c)
                if op["reopen"]:
                    self.reopen(plan, mass, ctx)
                    for c in set(self.g.why_chan_bad) - self.bad:       # the mark itself was what failed, after it was written
                        self.g.set_chan_good(c)
                failed = None
        if failed is None:
            failed = self.run(op, chans)
        if failed != fails:
            raise Violation("wrong-outcome", f"{op}: failed in channels {sorted(failed)}, expected {sorted(fails)}; disturbances {plan['chans']}, "
                            f"{ {c: str(w)[:300] for c, w in self.g.why_chan_bad.items()} }")
        if op["only"] is None:
            self.bad |= fails
        self.known.update(want)
        # in a noise-only group, the spectrum of the noise records is the channel's: a failed step may have changed it
        self.spoiled = (self.spoiled | fails) - {c for c in chans if c not in fails and op["force"]}

    def nlags(self, op, plan, chans, ctx):
        want, fails = {}, set()
        for c in chans:
            x, L = self.data[c], op["lags"]
            n = x.size // L
            psd = spectrum(x.ravel()[:n * L].reshape(n, L), plan["timebase"], op["limit"]) if n else None
            ac = continuous_autocorr(x, op["limit"], L, plan["nsamp"] if 15 * L > x.size else 0)
            if psd is None or ac is None:
                fails.add(c)
            want[c] = (ac, psd)
        failed = self.run(op, chans)
        if failed != fails:
            raise Violation("wrong-outcome", f"{op}: failed in channels {sorted(failed)}, expected {sorted(fails)}; disturbances {plan['chans']}, "
                            f"{ {c: str(w)[:300] for c, w in self.g.why_chan_bad.items()} }")
        for c in set(chans) - fails:
            ctx.probe("nlags")
            z = self.g.channel[c].noise_records_nlags
            self.same(z.autocorrelation, want[c][0], f"{op}: autocorrelation of channel {c}")
            self.same(z.noise_psd, want[c][1], f"{op}: spectrum of channel {c}")
        if op["only"] is None:
            self.bad |= fails

    def part(self, op, plan, mass, ctx):
        """Noise records by themselves: a range of samples."""
        n = plan["nsamp"]
        ch = sorted(self.data)[(op["only"] or 0) % len(self.data)]
        x = self.data[ch]
        a, b = sorted((int(op["first"] * x.size), int(op["last"] * x.size)))
        z = mass.core.channel.NoiseRecords(self.noise_files[sorted(self.data).index(ch)], records_are_continuous=plan["continuous"])
        if plan["continuous"]:
            want = continuous_autocorr(x.ravel()[a:b], op["limit"], n, n)
        else:
            want = broken_autocorr(x[-(-a // n):b // n], op["limit"])
        what = f"autocorrelation of samples {a} to {b} of channel {ch} ({'continuous' if plan['continuous'] else 'broken'}, limit {op['limit']})"
        try:
            z.compute_autocorrelation(n_lags=n, data_samples=[a, b], plot=False, max_excursion=op["limit"])
        except Exception as e:
            if want is not None:
                raise Violation("wrong-outcome", f"{what}: {e}")
            return
        if want is None:
            raise Violation("wrong-outcome", f"{what} did not fail")
        self.same(z.autocorrelation, want, what)
        ctx.probe("range")

    @staticmethod
    def same(got, want, what):
        got = np.asarray(got[:])
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-6, atol=1e-9 * (1e-300 + np.abs(want).max())):
            raise Violation("wrong-noise", f"{what}: {got[:4]}..., expected {want[:4]}...")

    def check(self, what, plan):
        if set(self.g.why_chan_bad) != self.bad:
            raise Violation("wrong-channels", f"{what}: bad channels {sorted(self.g.why_chan_bad)}, expected {sorted(self.bad)}")
        for c in self.data:
            ds = self.g.channel[c]
            if self.known[c] is None:
                if np.any(ds.noise_autocorr[:] != 0):
                    raise Violation("wrong-noise", f"{what}: channel {c} has noise results that were never made")
                continue
            self.same(ds.noise_autocorr, self.known[c][0], f"{what}: autocorrelation of channel {c}, disturbances {plan['chans']}")
            if not (plan["alone"] and c in self.spoiled):
                self.same(ds.noise_psd, self.known[c][1], f"{what}: spectrum of channel {c}, disturbances {plan['chans']}")
            df = ds.noise_psd.attrs.get("delta_f")
            if df is None or not np.isclose(df, 1 / (plan["nsamp"] // 2 * 2 * plan["timebase"])):
                raise Violation("wrong-noise", f"{what}: frequency step {df} of channel {c}")
