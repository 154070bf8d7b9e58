"""Shared set-up for the TESGroup worlds: a scratch directory of LJH pulse and noise files for a few channels,
with the optional experiment-state and external-trigger files, written by the simulated DAQ program."""
import os

import numpy as np

from .daq import T0_NS, LJHStream, StateStream


def tes_cfg(rng, **over):
    """Plan data for one simulated detector array."""
    c = {"nchan": rng.choice([1, 2, 2, 3]), "npulses": rng.choice([24, 40, 60]), "nnoise": rng.choice([8, 16]),
         "nsamp": rng.choice([48, 64, 100]), "timebase": rng.choice([5.12e-6, 9.6e-6]), "seed": rng.randrange(2**31),
         "version": rng.choice(["2.2.0", "2.2.0", "2.1.0"]), "client": "DASTARD version 0.3.0",
         "noise": True, "states": rng.random() < .5, "subdiv": rng.choice([1, 16, 64]), "tail": rng.choice([0, 0, 1, 7])}
    c["npre"] = c["nsamp"] // 4
    c.update(over)
    return c


class TesSetup:
    """Writes the files; `streams[chan]` keeps the ground truth."""

    def __init__(self, cfg, ctx):
        self.cfg, self.ctx = cfg, ctx
        c = cfg
        self.dir = ctx.path(c.get("dir", "data"))
        os.makedirs(self.dir, exist_ok=True)
        self.chans = [2 * i + 1 for i in range(c["nchan"])]
        self.streams, self.noise_streams = {}, {}
        self.files, self.noise_files = [], []
        for i, ch in enumerate(self.chans):
            base = {"version": c["version"], "client": c["client"], "source": None, "nsamp": c["nsamp"], "npre": c["npre"],
                    "timebase": c["timebase"], "rows": c["nchan"], "cols": 1, "row": i, "col": 0, "subdiv": c["subdiv"],
                    "suboff": 0, "eol": "lf"}
            s = LJHStream(dict(base, seed=c["seed"] + 10 * ch, raw=bool(c.get("raw"))))
            n = c["npulses"] - (3 * i if c.get("uneven", True) else 0)
            if n > 20000:
                s.add_many(n)
            else:
                for _ in range(n):
                    s.add()
            self.streams[ch] = s
            self.files.append(self._put(f"run_chan{ch}.ljh", bytes(s.bytes) + b"\x01" * c["tail"]))
            if c["noise"]:
                z = LJHStream(dict(base, seed=c["seed"] + 10 * ch + 1, noise=True))
                for _ in range(c["nnoise"]):
                    z.add(dt_us=int(c["nsamp"] * c["timebase"] * 1e6))
                self.noise_streams[ch] = z
                self.noise_files.append(self._put(f"noise_chan{ch}.ljh", bytes(z.bytes)))
        self.ctx.sim_ns = max(1000 * s.t_us for s in self.streams.values()) - T0_NS
        self.state = None
        if c["states"]:
            self.state = StateStream()
            lo, hi = T0_NS, T0_NS + max(1, self.ctx.sim_ns)
            rng = np.random.default_rng(c["seed"])
            cuts = np.sort(rng.integers(lo, hi, 4))
            self.state.add(lo - 10**9, "START")
            for t, lab in zip(cuts, ("A", "B", "A", "C")):
                self.state.add(int(t), lab)
            self._put("run_experiment_state.txt", bytes(self.state.bytes))
        self.hdf5 = os.path.join(self.dir, "run_mass.hdf5")
        self.hdf5_noise = os.path.join(self.dir, "noise_mass.hdf5")

    def _put(self, name, data):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def put_triggers(self, header, array_bytes):
        return self._put("run_external_trigger.bin", header.encode() + array_bytes)

    def open(self, mass, hdf5=None, hdf5_noise=None, order=None, **kw):
        files, noise = list(self.files), list(self.noise_files)
        if order is not None:
            files = [files[i] for i in order]
            noise = [noise[i] for i in order] if noise else []
        return mass.TESGroup(files, noise or None, hdf5_filename=hdf5 or self.hdf5,
                             hdf5_noisefilename=(hdf5_noise or self.hdf5_noise) if noise else None,
                             **dict({"noise_is_continuous": False} if self.cfg.get("broken") else {}, **kw))


def close(group):
    """What a user's program does at its end: close the cache files."""
    for f in (getattr(group, "hdf5_file", None), getattr(group, "hdf5_noisefile", None)):
        if f is not None and f:
            f.close()


# ---- snapshot of everything an analysis stores --------------------------------------------------
def tree(obj, skip=()):
    """{path: value} of every dataset and attribute of an HDF5 group."""
    import h5py
    out = {}

    def visit(g, prefix):
        for k, v in g.attrs.items():
            if (prefix + "@" + k) not in skip and k not in skip:
                out[f"{prefix}@{k}"] = v
        for k in g:
            if k in skip:
                continue
            o = g[k]
            if isinstance(o, h5py.Group):
                out[f"{prefix}{k}/"] = None
                visit(o, f"{prefix}{k}/")
            else:
                out[f"{prefix}{k}"] = o[()]
                for ak, av in o.attrs.items():
                    out[f"{prefix}{k}@{ak}"] = av
    visit(obj, "")
    return out


def same_value(a, b):
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(np.array_equal(a, b, equal_nan=True))
    if a.dtype.names or b.dtype.names:
        return a.dtype == b.dtype and a.tobytes() == b.tobytes()
    return bool(np.array_equal(a, b))


def tree_diff(a, b):
    """Names that differ (missing or unequal)."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append(f"{k} only in the second")
        elif k not in b:
            out.append(f"{k} only in the first")
        elif not same_value(a[k], b[k]):
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if x.shape == y.shape and x.ndim == 1 and x.dtype.names is None and x.dtype.kind not in "SOU":
                i = int(np.flatnonzero(~((x == y) | ((x != x) & (y != y))))[0])
                out.append(f"{k}[{i}]: {x[i]!r} != {y[i]!r}")
            else:
                out.append(f"{k}: {str(x)[:60]} != {str(y)[:60]}")
    return out
