"""P12: cut fields and categories of a TESGroup over arbitrary histories, with restarts and interrupted requests."""
import json

import numpy as np

from ..engine import Violation, World
from ..tes import TesSetup, close, tes_cfg

BOOL_POOL = [f"b{i}" for i in range(12)] + ["µ cut", "x" * 60, "pretrigger_rms", "energy", "timing"]
LONG = "n" * 64 + "tail"
CAT_POOL = ["kind", "c0", "c1", "c2", "état"]
LABELS = ["a", "b", "c", "d", "e", "in", "out", "uncategorized", "label with spaces", "7", "Ω"]
STATES = [("START", "A", "B"), ("A", "B", "C", "A"), ("one",), tuple("S%d" % i for i in range(9)), ("A", "IGNORE", "A", "Z")]


class Model:
    """Named sets of pulses, per channel."""

    def __init__(self, sizes, builtin_bool, builtin_cat):
        self.sizes = dict(sizes)
        self.bools = {}                 # name -> {chan: bool array}
        self.cats = {}                  # name -> (labels, default, {chan: list of labels})
        for b in builtin_bool:
            self.add_bool(b)
        for name, labels, default in builtin_cat:
            self.add_cat(name, labels, default)

    def add_bool(self, name):
        self.bools[name] = {c: np.zeros(n, bool) for c, n in self.sizes.items()}

    def add_cat(self, name, labels, default):
        order = list(dict.fromkeys(map(str, labels)))
        default = str(default)
        if default in order:
            order.remove(default)
        order.insert(0, default)
        self.cats[name] = (order, default, {c: [default] * n for c, n in self.sizes.items()})

    @staticmethod
    def bits(order):
        return max(1, (len(order) - 1).bit_length())

    def used(self):
        return len(self.bools) + sum(self.bits(o) for o, _, _ in self.cats.values())

    def good(self, chan, names=None):
        g = np.ones(self.sizes[chan], bool)
        for n in (self.bools if names is None else names):
            g &= ~self.bools[n][chan]
        return g


class CutHistory(World):
    name = "cut_history"
    real = ("mass.core.cut", "mass.core.channel_group.TESGroup", "mass.core.channel (experiment states to categories)", "h5py/HDF5")
    stub = ("DAQ program (pulse, noise and state files)",)
    rule = ("random histories of registering, unregistering, applying, clearing and selecting boolean and categorical fields on 1-3 "
            "channels, up to the 32-bit limit, with restarts (the state file may appear or change between them), requests that must be "
            "refused, and requests interrupted at any cache write and repeated; every step compared with sets of pulses")
    must_reach = ("refused-too-many", "refused-unknown", "bits-reused-after-unregister", "scattered-category", "restart",
                  "interrupted", "state-field", "state-file-changed", "other-session-channel", "read-only-view", "labels-added")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, npulses=rng.choice([3, 7, 12]), nsamp=16, npre=4, states=False, noise=False, uneven=rng.random() < .5,
                      nchan=rng.choice([1, 2, 2, 3]), tail=0)
        if cfg["npulses"] < 8:
            cfg["uneven"] = False
        ops = []
        crowded = rng.random() < .4
        for _ in range(rng.randrange(6, 30)):
            q = rng.random()
            o = {"r": rng.randrange(2**31)}
            if q < (.25 if crowded else .14):
                o.update(op="reg_bool", names=rng.sample(BOOL_POOL, rng.randrange(1, 7 if crowded else 4)))
            elif q < .33:
                o.update(op="unreg_bool", names=rng.sample(BOOL_POOL, rng.randrange(1, 5)))
            elif q < .45:
                labels = rng.sample(LABELS, rng.randrange(1, len(LABELS)))
                if rng.random() < .2:
                    labels = labels + labels[:1]
                o.update(op="reg_cat", name=rng.choice(CAT_POOL), labels=labels,
                         default=rng.choice(["uncategorized", "uncategorized", labels[0], "other"]))
            elif q < .53:
                o.update(op="unreg_cat", name=rng.choice(CAT_POOL + ["calibration"]))
            elif q < .66:
                o.update(op="cut", by=rng.choice(["name", "name", "number", "parameter"]))
            elif q < .78:
                o.update(op="assign", by=rng.choice(["codes", "dict", "dict"]))
            elif q < .84:
                o.update(op="clear", n=rng.choice([0, 1, 2]))
            elif q < .90:
                o.update(op="bad", what=rng.choice(["cut", "unreg_bool", "unreg_cat", "select", "label", "conflict", "clear", "good",
                                                    "length", "number", "long_bool", "long_cat", "mask"]))
            elif q < .94:
                o.update(op="summarize", force=rng.random() < .5)
            elif q < .96:
                o.update(op="churn", size=rng.choice([4, 30, 3000]))
            else:
                o.update(op="restart", state=rng.choice([None, None, rng.randrange(len(STATES))]), only=rng.random() < .25,
                         view=rng.random() < .3)
            if o["op"] in {"reg_bool", "unreg_bool", "reg_cat", "unreg_cat", "cut", "assign", "clear"} and rng.random() < .15:
                o["fault"] = {"seam": "h5", "k": rng.randrange(1, 5), "kind": rng.choice(["kbi", "kill", "EIO", "MEM"]),
                              "when": rng.choice(["before", "after"])}
            ops.append(o)
        return {"cfg": cfg, "state0": rng.choice([None, None, rng.randrange(len(STATES))]), "ops": ops}

    # ---------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        import mass
        self.mass, self.plan, self.ctx = mass, plan, ctx
        self.setup = TesSetup(plan["cfg"], ctx)
        self.only = None
        self.write_states(plan["state0"])
        self.g = self.open()
        M = mass.core.cut.CutFieldMixin
        sizes = {c: s.n if hasattr(s, "n") else len(s.records) for c, s in self.setup.streams.items()}
        sizes = {ds.channum: ds.nPulses for ds in self.g.datasets}
        self.m = Model(sizes, M.BUILTIN_BOOLEAN_CUT_FIELDS, M.BUILTIN_CATEGORICAL_CUT_FIELDS)
        self.sync_state_field()
        self.unregistered = False
        try:
            self.verify("after opening")
            for i, op in enumerate(plan["ops"]):
                getattr(self, "do_" + op["op"])(op)
                self.verify(f"after step {i} {json.dumps(op)[:160]}")
                ctx.event(op["op"], self.m.used(), bool(op.get("fault")))
        finally:
            close(self.g)

    def open(self):
        order = None if self.only is None else [0]
        return self.setup.open(self.mass, order=order)

    def write_states(self, which):
        self.state_labels = None
        if which is None:
            return
        from ..daq import T0_NS, StateStream
        s = StateStream()
        t = T0_NS - 10**9
        self.state_entries = []
        step = max(10, (self.ctx.sim_ns + 10**9) // (len(STATES[which]) + 1))
        for lab in STATES[which]:
            s.add(int(t), lab)
            self.state_entries.append((int(t), lab))
            t += step
        self.setup._put("run_experiment_state.txt", bytes(s.bytes))
        self.state_labels = [x for x in dict.fromkeys(STATES[which])]

    def sync_state_field(self):
        """Opening registers the state labels found in the state file; a known field gains the labels it lacks."""
        esf = self.g.experimentStateFile
        if esf is None:
            return
        labels = list(esf.labels)
        if "state" not in self.m.cats:
            self.m.add_cat("state", labels, "uncategorized")
            self.ctx.probe("state-field")
        else:
            order, default, vals = self.m.cats["state"]
            self.m.cats["state"] = (order + [x for x in dict.fromkeys(labels) if x not in order], default, vals)

    # ---- checks ---------------------------------------------------------------------------------
    def verify(self, when, group=None):
        m, g = self.m, group or self.g
        for ds in (g.datasets if group is None else g.datasets):
            c = ds.channum
            want = m.good(c)
            got = ds.good()
            if not np.array_equal(got, want) or not np.array_equal(ds.bad(), ~want):
                i = int(np.flatnonzero(got != want)[0]) if (got != want).any() else -1
                raise Violation("wrong-good", f"{when}: channel {c} pulse {i} is {'good' if got[i] else 'bad'}; cut by "
                                f"{[n for n in m.bools if m.bools[n][c][i]]}")
            cm = ds.cuts.cut_mask()
            names = set(cm.dtype.names)
            if names != set(m.bools) | set(m.cats):
                raise Violation("wrong-fields", f"{when}: registered fields differ: {sorted(names ^ (set(m.bools) | set(m.cats)))}")
            for n in m.bools:
                if not np.array_equal(cm[n], ~m.bools[n][c]):
                    raise Violation("wrong-boolean", f"{when}: channel {c} field {n!r} cuts {np.flatnonzero(~cm[n])[:8]}, "
                                    f"expected {np.flatnonzero(m.bools[n][c])[:8]}")
            for n, (order, _, vals) in m.cats.items():
                codes = g.cut_field_categories(n)
                if set(codes) != set(order) or len(set(codes.values())) != len(codes):
                    raise Violation("wrong-labels", f"{when}: field {n!r} has labels {codes}, expected {order}")
                back = {v: k for k, v in codes.items()}
                got = [back.get(x) for x in cm[n]]
                if got != vals[c]:
                    i = next(i for i in range(len(got)) if got[i] != vals[c][i])
                    raise Violation("wrong-category", f"{when}: channel {c} pulse {i} field {n!r} is {got[i]!r}, expected {vals[c][i]!r}")
                if (len(when) + c) % 3 == 0:
                    lab = order[len(when) % len(order)]
                    sel = ds.cuts.select_category(**{n: lab})
                    want = np.array([v == lab for v in vals[c]])
                    if not np.array_equal(sel, want):
                        raise Violation("wrong-selection", f"{when}: channel {c} selecting {n!r}={lab!r} gives {np.flatnonzero(sel)}")
                    if not np.array_equal(ds.good(**{n: lab}), want & m.good(c)):
                        raise Violation("wrong-selection", f"{when}: channel {c} good({n}={lab!r})")

    def refuse(self, what, f, *types):
        try:
            f()
        except types as e:
            self.ctx.probe("refused-unknown")
            return e
        except Exception as e:
            raise Violation("wrong-refusal", f"{what} raised {type(e).__name__}: {e}")
        raise Violation("not-refused", f"{what} was accepted")

    def attempt(self, op, f, apply, chans=None):
        """Run a request; when it is interrupted, other fields keep their values, and repeating it completes it."""
        fault = op.get("fault")
        if not fault:
            f()
            apply()
            return
        from ..faults import SimKill
        with self.ctx.armed(fault) as a:
            try:
                f()
            except (KeyboardInterrupt, SimKill, OSError, MemoryError):
                if not a.fired:
                    raise
            else:
                if a.fired:
                    raise Violation("fault-swallowed", f"{op['op']} returned normally although the cache could not be written")
        if a.fired:
            self.ctx.probe("interrupted")
            if op["r"] % 2:
                self.restart()
            f()
        apply()

    # ---- operations -----------------------------------------------------------------------------
    def do_reg_bool(self, op):
        m, names = self.m, [n for n in op["names"] if n not in self.m.cats]
        new = [n for n in names if n not in m.bools]
        if m.used() + len(new) > 32:
            self.refuse_too_many(lambda: self.g.register_boolean_cut_fields(*names))
            return
        if self.unregistered and new:
            self.ctx.probe("bits-reused-after-unregister")

        def apply():
            for n in new:
                m.add_bool(n)
        self.attempt(op, lambda: self.g.register_boolean_cut_fields(*names), apply)

    def refuse_too_many(self, f):
        try:
            f()
        except ValueError:
            self.ctx.probe("refused-too-many")
            return
        raise Violation("not-refused", "registering more fields than there are bits was accepted")

    def do_unreg_bool(self, op):
        m, names = self.m, op["names"]
        if any(n not in m.bools for n in names):
            self.refuse(f"unregistering {names}", lambda: self.g.unregister_boolean_cut_fields(*names), KeyError)
            return
        self.unregistered = True

        def f():
            todo = [n for n in names if n.encode() in self.g.boolean_cut_desc["name"]]   # an interrupted request may have finished
            if todo:
                self.g.unregister_boolean_cut_fields(*todo)

        def apply():
            for n in names:
                del m.bools[n]
        self.attempt(op, f, apply)

    def do_reg_cat(self, op):
        m, name = self.m, op["name"]
        if name in m.bools:
            return
        if name in m.cats:
            order, default, vals = m.cats[name]
            after = order + [x for x in dict.fromkeys(map(str, op["labels"])) if x not in order]
            if m.used() + m.bits(after) - m.bits(order) > 32:
                self.refuse_too_many(lambda: self.g.register_categorical_cut_field(name, op["labels"], op["default"]))
                return
            if after != order:
                self.ctx.probe("labels-added")
            self.attempt(op, lambda: self.g.register_categorical_cut_field(name, op["labels"], op["default"]),
                         lambda: m.cats.update({name: (after, default, vals)}))
            return
        order = list(dict.fromkeys([str(op["default"])] + op["labels"]))
        if m.used() + m.bits(order) > 32:
            self.refuse_too_many(lambda: self.g.register_categorical_cut_field(name, op["labels"], op["default"]))
            return
        self.attempt(op, lambda: self.g.register_categorical_cut_field(name, op["labels"], op["default"]),
                     lambda: m.add_cat(name, op["labels"], op["default"]))
        mask = [int(mk) for n, mk in self.g.categorical_cut_desc if n == name.encode()][0]
        if "01" in bin(mask)[2:].rstrip("0"):
            self.ctx.probe("scattered-category")
        if self.unregistered:
            self.ctx.probe("bits-reused-after-unregister")

    def do_unreg_cat(self, op):
        m, name = self.m, op["name"]
        if name not in m.cats:
            self.refuse(f"unregistering {name}", lambda: self.g.unregister_categorical_cut_field(name), KeyError)
            return
        self.unregistered = True

        def f():
            if name.encode() in self.g.categorical_cut_desc["name"]:
                self.g.unregister_categorical_cut_field(name)
        self.attempt(op, f, lambda: m.cats.pop(name))

    def pick(self, op):
        r = np.random.default_rng(op["r"])
        ds = self.g.datasets[r.integers(len(self.g.datasets))]
        return r, ds

    def do_cut(self, op):
        m = self.m
        r, ds = self.pick(op)
        if not m.bools:
            return
        name = sorted(m.bools)[r.integers(len(m.bools))]
        mask = r.random(ds.nPulses) < r.choice([0, .2, .5, 1])
        idx, chan = ds.index, ds.channum
        if op["by"] == "parameter":
            data = np.round(r.normal(size=ds.nPulses), 1)
            a, b = sorted(np.round(r.normal(size=2), 1))
            a, b = a if r.random() < .7 else None, b if r.random() < .7 else None
            form = r.integers(3)
            if form == 0:
                allowed = (a, b)
                mask = np.array([(a is not None and x <= a) or (b is not None and x >= b) for x in data])
            else:
                if a is None and b is None:
                    a = 0.0
                spans = [(a, b), (2.0, 2.5)]
                inside = np.array([any((lo is None or x >= lo) and (hi is None or x <= hi) for lo, hi in spans) for x in data])
                allowed = (["invert"] if form == 2 else []) + spans
                mask = inside if form == 2 else ~inside

            def f():
                self.g.datasets[idx].cuts.cut_parameter(data, allowed, name)
        else:
            which = name
            if op["by"] == "number":
                which = [i for i in range(32) if self.g.boolean_cut_desc[i]["name"] == name.encode()][0]

            def f():
                self.g.datasets[idx].cuts.cut(which, mask)

        def apply():
            m.bools[name][chan] |= mask
        self.attempt(op, f, apply)

    def do_assign(self, op):
        m = self.m
        r, ds = self.pick(op)
        if not m.cats:
            return
        name = sorted(m.cats)[r.integers(len(m.cats))]
        order, default, vals = m.cats[name]
        labs = [order[i] for i in r.integers(len(order), size=ds.nPulses)]
        idx, chan = ds.index, ds.channum
        if op["by"] == "codes":
            codes = self.g.cut_field_categories(name)
            v = np.array([codes[x] for x in labs], dtype=np.uint32)

            def f():
                self.g.datasets[idx].cuts.cut(name, v)
        else:
            some = [x for x in dict.fromkeys(labs) if r.random() < .8]
            d = {x: np.array([y == x for y in labs]) for x in some}
            labs = [x if x in some else default for x in labs]

            def f():
                self.g.datasets[idx].cuts.cut_categorical(name, d)

        def apply():
            vals[chan][:] = labs
        self.attempt(op, f, apply)

    def do_clear(self, op):
        m = self.m
        r, ds = self.pick(op)
        names = [sorted(m.bools)[i] for i in r.integers(len(m.bools), size=op["n"])] if m.bools else []
        idx, chan = ds.index, ds.channum

        def apply():
            for n in (names or m.bools):
                m.bools[n][chan][:] = False
        self.attempt(op, lambda: self.g.datasets[idx].cuts.clear_cut(*names), apply)

    def do_churn(self, op):
        """Free file space that holds something, as computing a filter anew does."""
        for ds in self.g.datasets:
            for i in range(4):
                ds.hdf5_group.create_dataset(f"scratch{i}", data=np.full(op["size"], 0xffffffff, dtype=np.uint32))
        self.g.hdf5_file.flush()
        for ds in self.g.datasets:
            for i in range(4):
                del ds.hdf5_group[f"scratch{i}"]

    def do_bad(self, op):
        m, g = self.m, self.g
        r, ds = self.pick(op)
        n = ds.nPulses
        w = op["what"]
        cat = sorted(m.cats)[r.integers(len(m.cats))] if m.cats else None
        field = sorted(m.bools)[r.integers(len(m.bools))] if m.bools else None
        some = r.random(n) < .5
        if w == "cut":
            self.refuse("cutting an unknown field", lambda: ds.cuts.cut("nosuch", some), ValueError)
        elif w == "unreg_bool":
            names = [x for x in (field, "nosuch") if x]
            self.refuse(f"unregistering {names}", lambda: g.unregister_boolean_cut_fields(*names), KeyError)
        elif w == "unreg_cat":
            self.refuse("unregistering an unknown category", lambda: g.unregister_categorical_cut_field("nosuch"), KeyError)
        elif w == "select":
            self.refuse("selecting an unknown category", lambda: ds.cuts.select_category(nosuch="a"), ValueError)
        elif w == "label" and cat:
            self.refuse("selecting an unknown label", lambda: ds.good(**{cat: "nosuch label"}), ValueError)
            self.refuse("assigning an unknown label", lambda: ds.cuts.cut_categorical(cat, {"nosuch label": some}), KeyError, ValueError)
        elif w == "conflict" and cat and len(m.cats[cat][0]) > 1:
            a, b = m.cats[cat][0][:2]
            ones = np.ones(n, bool)
            self.refuse("assigning one pulse to two labels", lambda: ds.cuts.cut_categorical(cat, {a: ones, b: ones}), ValueError)
        elif w == "clear":
            self.refuse("clearing an unknown field", lambda: ds.cuts.clear_cut("nosuch", *([field] if field else [])), ValueError)
        elif w == "good":
            self.refuse("good() of an unknown field", lambda: ds.good("nosuch"), ValueError)
            self.refuse("bad() of an unknown field", lambda: ds.bad("nosuch"), ValueError)
        elif w == "length" and field:
            self.refuse("a mask of the wrong length", lambda: ds.cuts.cut(field, np.ones(n + 1, bool)), AssertionError, ValueError)
        elif w == "number":
            free = [i for i in range(32) if g.boolean_cut_desc[i]["name"] == b""]
            for i in free[:1] + [32, -1]:
                self.refuse(f"cut number {i}", lambda i=i: ds.cuts.cut(i, some), ValueError)
        elif w == "long_bool" and m.used() < 32:
            self.refuse("a field name too long to be stored", lambda: g.register_boolean_cut_fields(LONG), ValueError)
        elif w == "long_cat" and m.used() < 30:
            self.refuse("a category name too long to be stored", lambda: g.register_categorical_cut_field(LONG, ["a"]), ValueError)
            self.refuse("a label too long to be stored", lambda: g.register_categorical_cut_field("brief", ["a", LONG]), ValueError)
        elif w == "mask":
            self.refuse("cut_mask of an unknown field", lambda: ds.cuts.cut_mask("nosuch"), ValueError)

    def do_summarize(self, op):
        """Summarising attributes each pulse to its experiment state."""
        g, m = self.g, self.m
        from ..daq import attribution
        for ds in g.datasets:
            done = bool(np.any(ds.p_pretrig_mean[:] != 0))
            ds.summarize_data(forceNew=op["force"])
            if (op["force"] or not done) and g.experimentStateFile is not None:
                t = ds.p_timestamp[:] * 1e9
                att = attribution([float(x) for x in t], self.state_entries, "auto", {})
                order, default, vals = m.cats["state"] if "state" in m.cats else (None, None, None)
                if vals is not None:
                    vals[ds.channum][:] = [x if x is not None else default for x in att]

    def restart(self):
        close(self.g)
        self.g = self.open()
        self.sync_state_field()
        self.ctx.probe("restart")

    def do_restart(self, op):
        m = self.m
        if op["state"] is not None:
            new = list(dict.fromkeys(STATES[op["state"]]))
            order = m.cats["state"][0] if "state" in m.cats else ["uncategorized"]
            after = order + [x for x in new if x not in order]
            need = m.bits(after) - (m.bits(order) if "state" in m.cats else 0)
            if m.used() + need <= 32:       # otherwise the state field cannot be registered, which opening reports
                if "state" in m.cats:
                    self.ctx.probe("state-file-changed")
                self.write_states(op["state"])
        if op["only"] and len(self.setup.files) > 1:
            self.only = None if self.only else True
            if self.only:
                self.ctx.probe("other-session-channel")
        if op["view"]:
            close(self.g)
            h = self.mass.core.channel_group_hdf5_only.TESGroupHDF5(self.setup.hdf5, read_only=True)
            try:
                self.ctx.probe("read-only-view")
                self.verify("in a read-only view of the cache", h)
            finally:
                h.hdf5_file.close()
        self.restart()

    def shrink_config(self, plan):
        c = plan["cfg"]
        if c["nchan"] > 1:
            yield dict(plan, cfg=dict(c, nchan=1))
        if plan["state0"] is not None:
            yield dict(plan, state0=None)
