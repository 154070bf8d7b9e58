"""Simulated data-acquisition program: it produces the exact bytes of LJH, OFF, experiment-state and
external-trigger files and appends them to the real (scratch) file system in arbitrary pieces.

This is an independent encoder: it shares no code with the library, and it keeps the ground truth (the list of
records it encoded) that the library's readers are compared with.
"""
import json
import struct
from fractions import Fraction
from base64 import b64encode

import numpy as np

T0_NS = 1_600_000_000_000_000_000


def fmt_num(x):
    return repr(x) if isinstance(x, float) else str(x)


class LJHStream:
    """Byte stream of one LJH file.  cfg keys: version, client, source, nsamp, npre, timebase, rows, cols, row,
    col, subdiv, suboff, eol, extra, seed, noise."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = np.random.default_rng(cfg["seed"])
        self.v21 = tuple(int(x) for x in cfg["version"].split(".")[:3]) < (2, 2, 0)
        self.nsamp = cfg["nsamp"]
        self.header = self._header()
        self.recsize = (6 if self.v21 else 16) + 2 * self.nsamp
        self.records = []       # ground truth: dicts
        self.bytes = bytearray(self.header)
        self.t_us = T0_NS // 1000
        self.frame = 1000

    def _header(self):
        c = self.cfg
        L = ["#LJH Memorial File Format", f"Save File Format Version: {c['version']}"]
        if c.get("client"):
            L.append(f"Software Version: {c['client']}")
        L += ["Software Driver Version: n/a", "Date: 18 Nov 2026, 12:00:00 GMT"]
        if c.get("source"):
            L.append(f"Data source: {c['source']}")
        L += ["Acquisition Mode: 0", "Digitized Word Size in bytes: 2", "SYSTEM DESCRIPTION OF THIS FILE:",
              "USER DESCRIPTION OF THIS FILE:", "#End of description"]
        if c.get("rows") is not None:
            L += [f"Number of rows: {c['rows']}", f"Number of columns: {c['cols']}",
                  f"Row number (from 0-{max(c['rows'] - 1, 0)} inclusive): {c['row']}",
                  f"Column number (from 0-{max(c['cols'] - 1, 0)} inclusive): {c['col']}"]
        if c.get("subdiv") is not None:
            L += [f"Subframe divisions: {c['subdiv']}", f"Subframe offset: {c['suboff']}"]
        L += ["Timestamp offset (s): 1600000000.000000"]
        L += list(c.get("extra") or [])
        L += [f"Timebase: {c['timebase']:.10e}", f"Presamples: {c['npre']}", f"Total Samples: {c['nsamp']}",
              "#End of Header"]
        e = "\r\n" if c.get("eol") == "crlf" else "\n"
        return (e.join(L) + e).encode()

    # ---- ground truth -------------------------------------------------------------------------
    @property
    def npre_true(self):
        return self.cfg["npre"] + (0 if "DASTARD" in (self.cfg.get("client") or "") else 3)

    @property
    def subdiv(self):
        if self.cfg.get("subdiv") is not None:
            return self.cfg["subdiv"]
        if "Abaco" in (self.cfg.get("source") or ""):
            return 64
        return self.cfg["rows"] if self.cfg.get("rows") else 1

    @property
    def suboff(self):
        if self.cfg.get("subdiv") is not None:
            return self.cfg["suboff"]
        if "Abaco" in (self.cfg.get("source") or ""):
            return 0
        return self.cfg["row"] if self.cfg.get("rows") is not None else 0

    def pulse(self):
        c = self.cfg
        n, npre = self.nsamp, max(c["npre"], 1)
        if c.get("noise"):
            return np.clip(1000 + self.rng.normal(0, 8, n), 0, 65535).astype(np.uint16)
        if c.get("raw"):
            return self.rng.integers(0, 65536, n).astype(np.uint16)
        base = 1000 + self.rng.normal(0, 3, n) + 2 * np.sin(self.frame / 1e6)
        amp = self.rng.choice([3000.0, 6000.0, 9000.0]) * (1 + self.rng.normal(0, .003))
        t = np.arange(n - npre) + self.rng.uniform(-.5, .5)
        p = np.exp(-t / (n * .4)) - np.exp(-t / 3.0)
        p[p < 0] = 0
        base[npre:] += amp * p
        return np.clip(base, 0, 65535).astype(np.uint16)

    def add(self, dt_us=None):
        """Encode one record; returns its ground truth."""
        if dt_us is None:
            dt_us = int(self.rng.integers(50, 5000))
        self.t_us += dt_us
        period_us = self.cfg["timebase"] * 1e6
        self.frame += max(1, int(dt_us / period_us))
        data = self.pulse()
        r = {"data": data}
        if self.v21:
            us4 = int(self.rng.integers(0, 250))
            ms = int((self.t_us - T0_NS // 1000) // 1000 + self.cfg.get("ms0", 0)) % 2**32
            r["us4"], r["ms"] = us4, ms
            self.bytes += struct.pack("<BBI", us4, int(self.rng.integers(0, 256)), ms) + data.astype("<u2").tobytes()
        else:
            sub = self.frame * self.subdiv + self.suboff
            r["sub"], r["usec"] = sub, self.t_us
            self.bytes += struct.pack("<qq", sub, self.t_us) + data.astype("<u2").tobytes()
        self.records.append(r)
        return r

    def add_many(self, n):
        """Encode n random records quickly (no per-record ground truth kept; LJH 2.2 only)."""
        a = np.zeros(n, dtype=[("sub", "<i8"), ("us", "<i8"), ("data", "<u2", self.nsamp)])
        dt = self.rng.integers(50, 500, n)
        a["us"] = self.t_us + np.cumsum(dt)
        a["sub"] = (self.frame + np.cumsum(np.maximum(1, dt // 10))) * self.subdiv + self.suboff
        base = self.rng.integers(500, 1500, (n, 1))
        a["data"] = base + self.rng.integers(0, 20, (n, self.nsamp))
        k = min(self.nsamp, max(self.cfg["npre"], 1))
        a["data"][:, k:] += self.rng.integers(100, 9000, (n, 1)).astype(np.uint16)
        self.t_us, self.frame = int(a["us"][-1]), int(a["sub"][-1] // self.subdiv)
        self.bytes += a.tobytes()

    def truth(self, n):
        """(data[n,nsamp], subframecount[n], datatimes_raw[n], datatimes_float[n]) of the first n records"""
        rec = self.records[:n]
        data = np.array([r["data"] for r in rec], dtype=np.uint16).reshape(n, self.nsamp)
        if not self.v21:
            sub = np.array([r["sub"] for r in rec], dtype=np.int64)
            us = np.array([r["usec"] for r in rec], dtype=np.int64)
            return data, sub, us, us / 1e6
        per = Fraction(f"{self.cfg['timebase']:.10e}") * 10**9
        frames = [4 + (4000 * r["us4"] + 1_000_000 * r["ms"] - 1) // per for r in rec]
        sub = np.array([f * self.subdiv + self.suboff for f in frames], dtype=np.int64)
        tf = np.array([(f + self.suboff / float(self.subdiv)) * self.cfg["timebase"] for f in frames], dtype=float)
        return data, sub, np.array([int(x / 1e-6 + 0.5) for x in tf], dtype=np.int64), tf


def ljh_cfg(rng, **over):
    """A random LJH configuration (plan data)."""
    nsamp = over.pop("nsamp", None) or rng.choice([8, 16, 30, 64, 100])
    rows = rng.choice([None, 1, 4, 30])
    c = {"version": rng.choice(["2.1.0", "2.2.0", "2.2.0", "2.2.1", "2.1.1"]),
         "client": rng.choice(["DASTARD version 0.2.15", "DASTARD version 0.3.0", "MATTER v1", None]),
         "source": rng.choice(["Abaco", "Lancero", None, "Triangle"]),
         "nsamp": nsamp, "npre": rng.randrange(1, max(2, nsamp // 2)),
         "timebase": rng.choice([5.12e-6, 9.6e-6, 1e-5, 4e-6, 6.4e-6, 1.536e-5, 7.8125e-6]),
         "ms0": rng.choice([0, 0, 0, rng.randrange(2**32), 2**31 - rng.randrange(1, 40), 2**32 - rng.randrange(1, 40)]),
         "rows": rows, "cols": None if rows is None else rng.choice([1, 2]),
         "row": None if rows is None else rng.randrange(rows), "col": 0,      # below
         "subdiv": None, "suboff": None, "eol": rng.choice(["lf", "crlf"]), "extra": [],
         "seed": rng.randrange(2**31)}
    if c["cols"]:
        c["col"] = rng.randrange(c["cols"])
    if rng.random() < .4:
        c["subdiv"] = rng.choice([1, 16, 64])
        c["suboff"] = rng.randrange(c["subdiv"])
    if rng.random() < .4:
        c["extra"] = rng.choice([["Dummy: 1", "Dummy: 2"], ["Pixel Name: A:b:c"], ["Comment with no colon"],
                                 ["Operator: Jürgen µm"]])
    c.update(over)
    return c


class OffStream:
    """Byte stream of one OFF file.  cfg: version, nbasis, nsamp, npre, seed, period, chan, creation."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.rng = np.random.default_rng(cfg["seed"])
        nb, ns = cfg["nbasis"], cfg["nsamp"]
        self.projectors = self.rng.normal(size=(nb, ns))
        self.basis = self.rng.normal(size=(ns, nb))
        self.header = self._header()
        self.v3 = cfg["version"] == "0.3.0"
        self.fmt = "<iiqqff" + ("f" if self.v3 else "") + f"{nb}f"
        self.recsize = struct.calcsize(self.fmt)
        self.records = []
        self.bytes = bytearray(self.header)
        self.t_ns = T0_NS
        self.frame = 100

    def _header(self):
        c = self.cfg
        h = {"FileFormat": "OFF", "FileFormatVersion": c["version"], "FramePeriodSeconds": c["period"],
             "NumberOfBases": c["nbasis"]}
        if c.get("max_samples", True):
            h["MaxSamples"] = c["nsamp"]
            h["MaxPresamples"] = c["npre"]
        nb, ns = c["nbasis"], c["nsamp"]
        if c["version"] == "0.1.0":
            h["ModelInfo"] = {
                "Projectors": {"RowMajorFloat64ValuesBase64": b64encode(self.projectors.astype("<f8").tobytes()).decode(),
                               "Rows": nb, "Cols": ns},
                "Basis": {"RowMajorFloat64ValuesBase64": b64encode(self.basis.astype("<f8").tobytes()).decode(),
                          "Rows": ns, "Cols": nb},
                "Description": c.get("desc", "sim")}
        else:
            h["ModelInfo"] = {"Projectors": {"Rows": nb, "Cols": ns}, "Basis": {"Rows": ns, "Cols": nb},
                              "Description": c.get("desc", "sim")}
        h["CreationInfo"] = {"SourceName": c.get("source", "simDAQ")}
        h["ReadoutInfo"] = {"ColumnNum": 0, "RowNum": c.get("row", 0), "NumberOfColumns": 1,
                            "NumberOfRows": c.get("rows", 1), "SubframeDivisions": c.get("subdiv", 64),
                            "SubframeOffset": c.get("suboff", 0)}
        text = json.dumps(h, indent=4, ensure_ascii=False) + "\n"
        out = text.encode("utf-8")
        if c["version"] != "0.1.0":
            out += self.projectors.astype("<f8").tobytes() + self.basis.astype("<f8").tobytes()
        return out

    def add(self, dt_ns=None, filt=None):
        c = self.cfg
        if dt_ns is None:
            dt_ns = int(self.rng.integers(50_000, 5_000_000))
        self.t_ns += int(dt_ns)
        self.frame += max(1, int(dt_ns * 1e-9 / c["period"]))
        nb = c["nbasis"]
        coefs = np.float32(self.rng.normal(0, 1, nb))
        coefs[0] = np.float32(1000 + self.rng.normal(0, 5))
        coefs[2] = np.float32(filt if filt is not None else self.rng.choice([1000., 2000., 3000.]) + self.rng.normal(0, 4))
        ptm = np.float32(1000 + self.rng.normal(0, 3))
        rsd = np.float32(abs(self.rng.normal(5, 1)) if self.rng.random() > .1 else 40)
        ptd = np.float32(self.rng.normal(0, 1))
        r = {"recordSamples": c["nsamp"], "recordPreSamples": c["npre"], "framecount": self.frame, "unixnano": self.t_ns,
             "pretriggerMean": ptm, "residualStdDev": rsd, "coefs": coefs}
        vals = [c["nsamp"], c["npre"], self.frame, self.t_ns, float(ptm)]
        if self.v3:
            r["pretriggerDelta"] = ptd
            vals.append(float(ptd))
        vals.append(float(rsd))
        self.bytes += struct.pack(self.fmt, *vals, *[float(x) for x in coefs])
        self.records.append(r)
        return r


def off_cfg(rng, **over):
    ns = rng.choice([8, 16, 40])
    c = {"version": rng.choice(["0.1.0", "0.2.0", "0.3.0", "0.3.0"]), "nbasis": rng.choice([3, 3, 4, 6]), "nsamp": ns,
         "npre": ns // 4, "seed": rng.randrange(2**31), "period": rng.choice([1e-5, 9.6e-6, 5.12e-6]),
         "row": rng.randrange(4), "rows": 4, "subdiv": rng.choice([1, 16, 64]), "desc": rng.choice(["sim", "sim", "µ-cal é"])}
    c["suboff"] = rng.randrange(c["subdiv"])
    c.update(over)
    return c


class FileWriter:
    """Appends a stream's bytes to a real file, any number at a time."""

    def __init__(self, path, stream):
        self.path, self.stream, self.written = path, stream, 0

    def pending(self):
        return len(self.stream.bytes) - self.written

    def flush(self, n=None):
        """Let n more bytes (default: everything) reach the disk."""
        end = len(self.stream.bytes) if n is None else min(len(self.stream.bytes), self.written + n)
        with open(self.path, "ab") as f:
            f.write(self.stream.bytes[self.written:end])
        self.written = end

    def torn_line(self):
        return self.written > 0 and self.stream.bytes[self.written - 1:self.written] != b"\n"

    @property
    def complete_records(self):
        return max(0, (self.written - len(self.stream.header)) // self.stream.recsize)

    @property
    def torn(self):
        b = self.written - len(self.stream.header)
        return b < 0 or b % self.stream.recsize != 0


class StateStream:
    """Byte stream of an experiment-state file."""

    def __init__(self, eol="\n", pad=", ", header="# unix time in nanoseconds, state label"):
        self.eol, self.pad = eol, pad
        self.header = (header + eol).encode()
        self.bytes = bytearray(self.header)
        self.entries = []       # (nanoseconds, label, byte offset of the end of its line)

    def add(self, t_ns, label):
        self.bytes += f"{t_ns}{self.pad}{label}{self.eol}".encode()
        self.entries.append((int(t_ns), label, len(self.bytes)))

    def complete(self, written):
        return [(t, lab) for t, lab, end in self.entries if end <= written]


AUTO_EXCLUDE = ("START", "STOP", "END", "IGNORE")


def excluded_labels(mode, labels):
    """Which labels the documentation says are excluded, given every label known."""
    if mode != "auto":
        return set(mode)
    if set(labels) - set(AUTO_EXCLUDE):
        return set(AUTO_EXCLUDE)
    return {"IGNORE"}


def attribution(times, entries, mode, aliases):
    """Independent definition: for every record time, the (aliased) label most recently begun at or before it."""
    exc = excluded_labels(mode, [lab for _, lab in entries])
    out = []
    for t in times:
        cur = None
        for et, lab in entries:
            if et <= t:
                cur = lab
        out.append(None if cur is None or cur in exc else aliases.get(cur, cur))
    return out


def expected_labels(entries, mode, aliases):
    exc = excluded_labels(mode, [lab for _, lab in entries])
    out = []
    for _, lab in entries:
        if lab not in exc:
            a = aliases.get(lab, lab)
            if a not in out:
                out.append(a)
    return out
