"""P16: recipes under any history of edits, growth of the data, saving and loading."""
import os

import numpy as np

from ..daq import attribution, expected_labels, off_cfg
from ..engine import Violation, World
from ..faults import SimKill
from .off_group import OffSetup
from .off_reader import off_truth, same

LABELS = ["A", "B", "C", "START", "STOP", "IGNORE"]
SCALAR = ["unixnano", "framecount", "pretriggerMean", "residualStdDev", "pulseMean", "derivativeLike", "filtValue",
          "recordSamples"]
ARRAY = ["u", "v", "w", "n"]
NAMES = ["energy", "r1", "r2", "r3", "r4", "ratio", "p_x"]
CUTS = ["cutA", "cutB", "cut_c"]


class Scale:
    """A user's correction object: its method takes part as a function."""

    def __init__(self, k):
        self.k = k

    def apply(self, x):
        return x * self.k

    def __call__(self, x):
        return x * self.k + 1


def make_function(spec, args):
    """A user's function of len(args) arguments; `args` are the argument names to use.  (Python source, evaluated twice: once for
    the library, once for the model, so that the two share nothing.)"""
    kind, k = spec
    a = ", ".join(args)
    x = args[0] if args else "0"
    rest = args[1:]
    if kind == "sum":
        body = " + ".join(f"{k + i} * {n}" for i, n in enumerate(args)) or "0"
    elif kind == "prod":
        body = f"({x} - {k})" + "".join(f" * {n}" for n in rest)
    elif kind == "ratio":
        body = f"{x} / ({k + 1} + " + (" + ".join(f"abs({n})" for n in rest) or "1") + ")"
    elif kind == "less":
        body = f"{x} < " + (" + ".join([str(k * 150), *rest]))
    elif kind == "mod":
        body = "((" + " + ".join(args) + f") % {k + 2}) < 1"
    elif kind == "col":
        body = f"{x}[:, {k % 3}] - {x}[:, -1]" + "".join(f" + {n}" for n in rest)
    elif kind == "method":
        return Scale(k + .5).apply
    elif kind == "object":
        return Scale(k + .25)
    elif kind == "default":
        return eval(f"lambda {x}, gain={k + 2}: {x} * gain")
    elif kind == "closed":      # a function that cannot be saved
        g = (i for i in [k])
        return eval(f"lambda {a}: {x} + (0 if g is not None else 1)", {"g": g})
    else:
        raise KeyError(kind)
    return eval(f"lambda {a}: {body}")


def argnames(ings, named, n):
    return list(ings) if named else [f"arg{i}" for i in range(n)]


class Def:
    """What the documentation says a recipe is: a function and what its ingredients were when it was defined."""

    def __init__(self, f, ings, bound):
        self.f, self.ings, self.bound = f, ings, bound

    def value(self, raw):
        return self.f(*[self.bound[i].value(raw) if i in self.bound else raw[i] for i in self.ings])


class Book:
    def __init__(self, base):
        self.base, self.defs, self.props = set(base), {}, set()

    def copy(self):
        b = Book(self.base)
        b.defs, b.props = dict(self.defs), set(self.props)
        return b

    def refuses(self, name, ings, overwrite, nargs, named):
        if ings is None:
            return True
        if len(set(ings)) < len(ings) or len(ings) > nargs:
            return True
        if any(i not in self.base and i not in self.defs for i in ings):
            return True
        if name in self.defs and not overwrite:
            return True
        return name.startswith("!")

    def add(self, name, f, ings, prop):
        self.defs[name] = Def(f, list(ings), {i: self.defs[i] for i in ings if i in self.defs})
        (self.props.add if prop else self.props.discard)(name)


def pick_inds(rng):
    q = rng.random()
    e = [None, 0, 1, 2, 3, 5, 9, -1, -2, 1000]
    if q < .2:
        return {"form": "none"}
    if q < .4:
        return {"form": "slice", "s": [rng.choice(e), rng.choice(e), rng.choice([None, None, None, 1, 2, -1])]}
    if q < .6:
        return {"form": "slices", "s": [[rng.choice(e), rng.choice(e)] for _ in range(rng.randrange(0, 4))]}
    if q < .75:
        return {"form": "state", "i": rng.randrange(8)}
    if q < .9:
        return {"form": "states", "i": [rng.randrange(8) for _ in range(rng.randrange(0, 4))]}
    return {"form": "nocut"}


def gen_add(rng, base, known, cut=False):
    n = rng.choice([1, 1, 1, 2, 2, 3])
    mine = known[-3:] * 4 + known * 2 if rng.random() < .9 else NAMES + NAMES + CUTS[:1]
    pool = base + mine + (["coefs"] if base is SCALAR and not cut else [])
    ings = [rng.choice(pool) for _ in range(n)]
    if rng.random() < .08:
        ings[rng.randrange(n)] = "nonesuch"
    kind = rng.choice(["less", "less", "mod"]) if cut else rng.choice(["sum", "sum", "prod", "ratio", "method", "object",
                                                                       "default", "closed"])
    if "coefs" in ings:
        ings = ["coefs"] + [i for i in ings if i != "coefs"]
        kind = "col"
    if kind in {"method", "object", "default"}:
        ings = ings[:1]
    if kind == "closed" and rng.random() < .5:
        kind = "sum"
    name = rng.choice(CUTS) if cut else rng.choice(NAMES)
    if rng.random() < .04:
        name = rng.choice(["!" + name, "keep_cut"] if cut else ["!" + name])
    if name not in known and not name.startswith("!"):
        known.append(name)
    return {"op": "cutadd" if cut else "add", "name": name, "f": [kind, rng.randrange(0, 9)], "ings": ings,
            "named": rng.random() < .5, "overwrite": rng.random() < .6, "prop": rng.random() < .85,
            "default": rng.random() < .4, "chs": rng.choice([None, None, 0, 1])}


class Recipes(World):
    name = "recipes"
    real = ("mass.off.util (RecipeBook, Recipe)", "mass.off.recipe_classes", "mass.off.channels (Channel, ChannelGroup, "
            "ChannelFromNpArray)", "mass.off.off", "dill", "file system (tmpfs)")
    stub = ("DAQ program (OFF and state files growing on one clock)", "failing open()", "full disk", "Ctrl-C and process death "
            "during a save", "a new process (the properties recipes create are taken away again)")
    rule = ("random dependency graphs of recipes and cuts added, replaced and refused, evaluated through every index form while "
            "the data grow, saved and loaded with faults, in this and in a new process; compared with the composition of the "
            "functions that were current when the recipe was defined, applied to the encoded records")
    must_reach = ("replaced", "replaced-ingredient-in-use", "refused", "evaluated-cut", "evaluated-states", "evaluated-slices",
                  "saved", "save-failed", "loaded", "new-process", "depth3", "array", "save-interrupted", "grown", "load-refused")

    def generate(self, rng, tier):
        array = rng.random() < .2
        nch = 1 if array else rng.choice([1, 1, 2])
        base = off_cfg(rng)
        chans = [dict(base, seed=rng.randrange(2**31), row=i) for i in range(nch)]
        labels = rng.sample(LABELS, rng.randrange(1, 5))
        ops = [{"op": "label", "label": rng.choice(labels)}]
        for i in range(nch):
            ops.append({"op": "rec", "ch": i, "n": rng.randrange(1, 9)})
        for _ in range(rng.randrange(0, 4)):
            ops.append({"op": "label", "label": rng.choice(labels)})
            ops.append({"op": "rec", "ch": rng.randrange(nch), "n": rng.randrange(0, 6)})
        names = ARRAY if array else SCALAR
        known = []
        for _ in range(rng.randrange(8, 45)):
            r = rng.random()
            if r < .3:
                ops.append(gen_add(rng, names, known))
            elif r < .42:
                ops.append(gen_add(rng, names, known, cut=True))
            elif r < .45:
                ops.append({"op": "setdefault", "name": rng.choice([*CUTS, "cutNone", "energy", "cutMissing"]),
                            "group": rng.random() < .5, "ch": rng.randrange(2)})
            elif r < .75:
                mine = NAMES * 3 + CUTS if rng.random() < .1 else known * 5
                attrs = [rng.choice(names + mine + ["relTimeSec"] if rng.random() < .9 else mine + ["relTimeSec", "filtPhase", "coefs", "nonesuch"])
                         for _ in range(rng.choice([1, 1, 2, 3]))]
                cs = [c for c in known if c in CUTS] if rng.random() < .9 else CUTS
                cut = rng.choice([None, None, *cs, *["!" + c for c in cs], *["!!" + c for c in cs[:1]], "cutNone", "callable"])
                ops.append({"op": "get", "ch": rng.randrange(2), "attrs": attrs, "list": rng.random() < .4,
                            "inds": pick_inds(rng), "cut": cut, "k": rng.randrange(9)})
            elif r < .79:
                ops.append({"op": "prop", "ch": rng.randrange(2), "name": rng.choice(NAMES + ["relTimeSec", "filtPhase"])})
            elif r < .81:
                ops.append({"op": "hist", "ch": rng.randrange(2), "name": rng.choice(NAMES + ["filtValue", "u"]),
                            "inds": {"form": rng.choice(["none", "state"]), "i": rng.randrange(8)}})
            elif r < .86:
                ops.append({"op": "label", "label": rng.choice(labels)})
                ops.append({"op": "rec", "ch": rng.randrange(2), "n": rng.randrange(0, 5)})
                ops.append({"op": "refresh"})
            elif r < .93:
                q = rng.random()
                f = None
                if q < .15:
                    f = {"seam": "open", "k": rng.choice([1, 1, 2]), "kind": rng.choice(["EACCES", "ENOSPC", "EMFILE"])}
                elif q < .45:
                    f = {"seam": "disk", "k": rng.choice([0, 1, 100, rng.randrange(2000), rng.randrange(6000)])}
                elif q < .6:
                    f = {"seam": "line", "k": rng.randrange(1, 30), "kind": rng.choice(["kbi", "kill", "MEM"])}
                ops.append({"op": "save", "slot": rng.randrange(3), "how": rng.choice(["group", "book"]), "ch": rng.randrange(2),
                            "overwrite": rng.random() < .7, "fault": f})
            elif r < .97:
                ops.append({"op": "load", "slot": rng.randrange(3), "ch": rng.randrange(2), "fault":
                            {"seam": "open", "k": 1, "kind": "EIO"} if rng.random() < .15 else None})
            elif r < .985:
                ops.append({"op": rng.choice(["bad", "good", "good"])})
            else:
                ops.append({"op": "restart", "only": rng.random() < .4})
        return {"chans": chans, "ops": ops, "array": array}

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, ctx):
        from mass.off.channels import Channel, ChannelFromNpArray
        saved = [(c, set(vars(c))) for c in (Channel, ChannelFromNpArray)]

        def forget():
            for c, names in saved:
                for n in set(vars(c)) - names:
                    delattr(c, n)
        self.forget = forget
        try:
            self.run(plan, ctx)
        finally:
            forget()

    def raw(self, st, ch):
        """Everything the records of a channel say, as the simulated DAQ program encoded them."""
        n = st["n"][ch]
        if st["plan"]["array"]:
            return {k: st["array"][k].copy() for k in ARRAY}
        t, c = off_truth(st["env"].streams[ch], n)
        t = dict(t)
        t["coefs"] = c
        return t

    def open(self, st, only=False):
        import mass
        st["chs"] = list(st["env"].streams)[:1 if only else None]
        st["bad"] = set()
        env, plan = st["env"], st["plan"]
        esf = mass.off.ExperimentStateFile(filename=env.state_path, excludeStates="auto")
        st["labels"] = env.labels_on_disk()
        st["n"] = {ch: w.complete_records for ch, w in env.writers.items()}
        if plan["array"]:
            a = st["array"]
            ds = mass.off.channels.ChannelFromNpArray(a.copy(), 1, "arrays", esf, verbose=False)
            g = mass.off.channels.ChannelGroupFromNpArrays([ds], "arrays", verbose=False, experimentStateFile=esf)
        else:
            g = mass.off.ChannelGroup(list(env.names)[:len(st["chs"])], verbose=False, experimentStateFile=esf)
        st["g"] = g
        for ch in st["chs"]:
            base = ARRAY if plan["array"] else [*off_truth(env.streams[ch], 0)[0], "coefs"]
            b = Book(base)
            if plan["array"]:
                b.add("cutNone", lambda x: np.ones(len(x), dtype=bool), ["u"], True)
            else:
                t0 = env.streams[ch].records[0]["unixnano"]
                b.add("relTimeSec", lambda x, t0=t0: 1e-9 * (x - t0), ["unixnano"], True)
                b.add("filtPhase", lambda x, y: x / y, ["derivativeLike", "filtValue"], True)
                b.add("cutNone", lambda x: np.ones(len(x), dtype=bool), ["unixnano"], True)
            st["book"][ch] = b
            st["default"][ch] = "cutNone"

    def run(self, plan, ctx):
        env = OffSetup(plan, ctx)
        st = {"env": env, "plan": plan, "g": None, "book": {}, "default": {}, "chs": list(env.streams), "slots": {}, "ctx": ctx}
        if plan["array"]:
            rng = np.random.default_rng(plan["chans"][0]["seed"])
            n = int(rng.integers(1, 12))
            a = np.zeros(n, dtype=[("u", float), ("v", np.float32), ("w", np.int32), ("n", np.int64)])
            a["u"], a["v"] = rng.normal(1000, 300, n), rng.normal(10, 3, n)
            a["w"], a["n"] = rng.integers(-50, 50, n), rng.integers(0, 10**12, n)
            st["array"] = a
            ctx.probe("array")
        for op in plan["ops"]:
            k = op["op"]
            if k == "label":
                env.tick(1000)
                env.label(op["label"])
                continue
            if k == "rec":
                env.records(st["chs"][op["ch"] % len(st["chs"])], op["n"], 10**6)
                continue
            if st["g"] is None:
                env.flush_all()
                if not env.labels_on_disk() or any(w.complete_records < 1 for w in env.writers.values()):
                    return
                self.open(st)
            getattr(self, "do_" + k)(op, st, ctx)
            self.names_agree(st)
        if st["g"] is not None:
            self.all_values(st, "at the end")

    def names_agree(self, st):
        for ch in st["chs"]:
            got, want = list(st["g"][ch].recipes.keys()), list(st["book"][ch].defs)
            if got != want:
                raise Violation("wrong-book", f"channel {ch} has recipes {got}, expected {want}")
            if st["g"][ch]._default_cut_recipe_name != st["default"][ch]:
                raise Violation("wrong-default-cut", f"channel {ch}: {st['g'][ch]._default_cut_recipe_name}, expected "
                                f"{st['default'][ch]}")

    def all_values(self, st, what):
        for ch in st["chs"]:
            ds, book, raw = st["g"][ch], st["book"][ch], self.raw(st, ch)
            import mass
            for name in list(book.defs):
                want = book.defs[name].value(raw)
                got = ds.getAttr(name, mass.off.util.NoCutInds())
                if not same(got, want):
                    raise Violation("wrong-value", f"{what}: channel {ch} {name}: {np.asarray(got)[:5]}, expected "
                                    f"{np.asarray(want)[:5]}")

    # -- edits -----------------------------------------------------------------------------------
    def do_add(self, op, st, ctx):
        cut = op["op"] == "cutadd"
        chs = st["chs"] if op["chs"] is None else [st["chs"][op["chs"] % len(st["chs"])]]
        for ch in chs:
            ds, book = st["g"][ch], st["book"][ch]
            ings = list(op["ings"])
            kind = op["f"][0]
            if any(i in book.defs and "cut" in i for i in ings) and kind != "sum":
                ings = [i for i in ings if "cut" not in i] or [next(iter(book.base))]
            if kind == "col" and "coefs" not in book.base:
                kind = "sum"
            if not cut and kind in {"less", "mod"}:
                continue
            named = op["named"] and len(set(ings)) == len(ings) and all(i.isidentifier() for i in ings) and \
                kind not in {"method", "object"}
            args = argnames(ings, named, len(ings))
            f, mf = make_function([kind, op["f"][1]], args), make_function([kind, op["f"][1]], args)
            if named and kind == "default":
                named = False       # an optional argument is only left out when the ingredients are given
            name = op["name"]
            refused = book.refuses(name, ings, op["overwrite"], len(ings) + (kind == "default"), named)
            if cut and op["default"] and not name.startswith("cut"):
                refused = True
            given = None if named else ings
            try:
                if cut:
                    ds.cutAdd(name, f, given, overwrite=op["overwrite"], setDefault=op["default"])
                else:
                    ds.recipes.add(name, f, given, overwrite=op["overwrite"], createProperty=op["prop"])
                done = True
            except AssertionError:
                done = False
            if done == refused:
                raise Violation("wrongly-refused" if refused is False else "wrongly-accepted",
                                f"adding {name!r} with ingredients {given if given is not None else args} (overwrite={op['overwrite']}"
                                f", cut={cut}, default={op['default']}) was {'accepted' if done else 'refused'}")
            ctx.event(op["op"], name, done)
            if not done:
                ctx.probe("refused")
                continue
            if name in book.defs:
                ctx.probe("replaced")
                if any(name in d.bound for d in book.defs.values()):
                    ctx.probe("replaced-ingredient-in-use")
            book.add(name, mf, ings, True if cut else op["prop"])
            if any(d2.bound for d in book.defs[name].bound.values() for d2 in d.bound.values()):
                ctx.probe("depth3")
            if cut and op["default"]:
                st["default"][ch] = name
        self.all_values(st, f"after adding {op['name']}")

    do_cutadd = do_add

    def do_setdefault(self, op, st, ctx):
        name = op["name"]
        chs = self.good(st) if op["group"] else [st["chs"][op["ch"] % len(st["chs"])]]
        ok = name.startswith("cut") and all(name in st["book"][ch].defs for ch in chs)
        try:
            if op["group"]:
                st["g"].cutSetDefault(name)
            else:
                st["g"][chs[0]].cutSetDefault(name)
            done = True
        except AssertionError:
            done = False
        if done != ok:
            raise Violation("wrong-default-cut", f"making {name!r} the default cut was {'accepted' if done else 'refused'}")
        if done:
            for ch in chs:
                st["default"][ch] = name
        ctx.event("setdefault", name, done)

    # -- evaluation ------------------------------------------------------------------------------
    def states(self, st):
        return expected_labels(st["labels"], "auto", {})

    def rows(self, st, ch, inds, ctx):
        """-> (library's index argument, row numbers before cutting) or None when it does not apply."""
        n = len(st["array"]) if st["plan"]["array"] else st["n"][ch]
        form = inds["form"]
        if form == "none":
            return None, np.arange(n)
        if form == "nocut":
            import mass
            return mass.off.util.NoCutInds(), np.arange(n)
        if form == "slice":
            s = slice(*inds["s"])
            return s, np.arange(n)[s]
        if form == "slices":
            ss = [slice(*s) for s in inds["s"]]
            ctx.probe("evaluated-slices")
            return ss, np.concatenate([np.arange(n)[s] for s in ss] + [np.arange(0)]).astype(int)
        labels = self.states(st)
        if not labels or st["plan"]["array"] or ch in st["bad"]:       # the arrays of this world carry no times
            return None, np.arange(n)
        who = attribution(st["env"].times(ch, n), st["labels"], "auto", {})
        ctx.probe("evaluated-states")
        if form == "state":
            lab = labels[inds["i"] % len(labels)]
            return lab, np.array([i for i in range(n) if who[i] == lab], dtype=int)
        labs = []
        for i in inds["i"]:
            if labels[i % len(labels)] not in labs:
                labs.append(labels[i % len(labels)])
        # the records of a state are contiguous pieces, one after another; states come in the order given
        return labs, np.array([i for lab in labs for i in range(n) if who[i] == lab], dtype=int)

    def cut_mask(self, st, ch, op, raw, rows):
        cut = op["cut"]
        book = st["book"][ch]
        if cut == "callable":
            name = "w" if st["plan"]["array"] else "filtValue"
            k = op["k"] * 400
            return eval(f"lambda {name}: {name} < {k}"), (raw[name] < k)[rows]
        name = st["default"][ch] if cut is None else cut
        base = name.lstrip("!")
        if base not in book.defs:
            return cut, None
        m = np.asarray(book.defs[base].value(raw), dtype=bool)[rows]
        if (len(name) - len(base)) % 2:
            m = ~m
        return cut, m

    def do_get(self, op, st, ctx):
        ch = st["chs"][op["ch"] % len(st["chs"])]
        ds, book, raw = st["g"][ch], st["book"][ch], self.raw(st, ch)
        attrs = op["attrs"] if op["list"] else op["attrs"][:1]
        index, rows = self.rows(st, ch, op["inds"], ctx)
        cut, mask = self.cut_mask(st, ch, op, raw, rows)
        nocut = op["inds"]["form"] == "nocut"
        if nocut:
            cut, mask = None, np.ones(len(rows), dtype=bool)
        known = all(a in book.defs or a in book.base for a in attrs)
        empty_list = isinstance(index, list) and not index
        if mask is None and empty_list:
            return      # nothing to cut: whether the name is looked at is left open
        ok = mask is not None and known
        try:
            got = ds.getAttr(attrs if op["list"] else attrs[0], index, cut)
            done = True
        except Exception as e:
            if ok:
                raise
            if not isinstance(e, Exception):
                raise
            done = False
        what = f"getAttr({attrs}, {op['inds']}, {op['cut']}) of channel {ch} with {len(rows)} rows"
        ctx.event("get", op["inds"]["form"], op["cut"] is not None, done)
        if not ok:
            if done:
                raise Violation("unknown-accepted", f"{what} names something unknown but gave {got}")
            return
        got = got if op["list"] else [got]
        if len(got) != len(attrs):
            raise Violation("wrong-shape", f"{what} gave {len(got)} results")
        if mask.any() and not mask.all():
            ctx.probe("evaluated-cut")
        for a, g in zip(attrs, got):
            whole = book.defs[a].value(raw) if a in book.defs else raw[a]
            want = np.asarray(whole)[rows][mask]
            if not same(g, want):
                raise Violation("wrong-value", f"{what}: {a} is {np.asarray(g)[:6]} ({len(g)}), expected {want[:6]} ({len(want)})")

    @staticmethod
    def attribute(ds, name):
        try:
            return getattr(ds, name)
        except AttributeError as e:
            raise Violation("attribute-missing", f"a recipe of the book cannot be used as an attribute: {e}")

    def do_prop(self, op, st, ctx):
        ch = st["chs"][op["ch"] % len(st["chs"])]
        ds, book = st["g"][ch], st["book"][ch]
        name = op["name"]
        if name not in book.defs or name not in book.props:
            return
        got, want = self.attribute(ds, name), book.defs[name].value(self.raw(st, ch))
        ctx.event("prop", name)
        if not same(got, want):
            raise Violation("wrong-value", f"attribute {name} of channel {ch} is {np.asarray(got)[:6]}, expected {want[:6]}")

    def do_hist(self, op, st, ctx):
        ch = st["chs"][op["ch"] % len(st["chs"])]
        ds, book, raw = st["g"][ch], st["book"][ch], self.raw(st, ch)
        name = op["name"]
        if name not in book.defs and name not in book.base or st["default"][ch] not in book.defs:
            return
        index, rows = self.rows(st, ch, op["inds"], ctx)
        _, mask = self.cut_mask(st, ch, {"cut": None}, raw, rows)
        v = np.asarray(book.defs[name].value(raw) if name in book.defs else raw[name])
        if v.ndim != 1:
            return
        edges = np.array([-1e4, -10, 0, 1, 10, 100, 1000, 1500, 2500, 1e4])
        x, c = ds.hist(edges, name, index)
        if not same(c, np.histogram(v[rows][mask], edges)[0]) or not same(x, .5 * (edges[1:] + edges[:-1])):
            raise Violation("wrong-histogram", f"histogram of {name} of channel {ch}: {c}")
        ctx.event("hist", name)

    def do_refresh(self, op, st, ctx):
        if st["plan"]["array"]:
            return
        st["env"].flush_all()
        old = dict(st["n"])
        st["g"].refreshFromFiles()
        st["labels"] = st["env"].labels_on_disk()
        st["n"] = {ch: st["n"][ch] if ch in st["bad"] else w.complete_records for ch, w in st["env"].writers.items()}
        if st["n"] != old:
            ctx.probe("grown")
        ctx.event("refresh", sum(st["n"].values()))
        self.all_values(st, "after a refresh")

    # -- saving and loading ------------------------------------------------------------------------
    def do_save(self, op, st, ctx):
        path = ctx.path(f"book{op['slot']}.{op['how']}")
        key = (op["slot"], op["how"])
        ch = st["chs"][op["ch"] % len(st["chs"])]
        before = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                before = f.read()
        books = {c: st["book"][c].copy() for c in self.good(st)} if op["how"] == "group" else {ch: st["book"][ch].copy()}
        can = not any(self.unsavable(d) for b in books.values() for d in b.defs.values())
        allowed = op["how"] == "group" or op["overwrite"] or before is None
        try:
            with ctx.armed(op["fault"]) as armed:
                if op["how"] == "group":
                    st["g"].saveRecipeBooks(path)
                else:
                    st["g"][ch].recipes.to_file(path, overwrite=op["overwrite"])
            done = True
        except (SimKill, KeyboardInterrupt):
            done = False
            ctx.probe("save-interrupted")
        except Exception as e:
            if op["fault"] is None and can and allowed:
                raise
            ctx.event("save-error", type(e).__name__)
            done = False
        ctx.event("save", op["how"], done)
        if done:
            if op["fault"] and armed.fired and op["fault"]["seam"] == "open":
                raise Violation("error-swallowed", "the file could not be opened for saving, and no error was reported")
            if not allowed or not can:
                raise Violation("wrongly-accepted", f"saving a book {'over an existing file' if not allowed else ''} was accepted")
            st["slots"][key] = ([books], True)
            ctx.probe("saved")
            return
        if allowed and can and op["fault"]:
            ctx.probe("save-failed")
        now = None
        if os.path.exists(path):
            with open(path, "rb") as f:
                now = f.read()
        if now == before:
            return
        old, complete = st["slots"].get(key, ([], False))
        if now is None:
            raise Violation("saved-book-lost", f"a save that failed removed the book saved before at {os.path.basename(path)}")
        # interrupted after the file was in place: it has to be the new book then, or no book at all where there was none
        st["slots"][key] = ([*old, books], complete)
        self.load_both(st, path, key, ctx)

    def good(self, st):
        return [ch for ch in st["chs"] if ch not in st["bad"]]

    def do_bad(self, op, st, ctx):
        if len(st["chs"]) > 1:
            st["g"][st["chs"][1]].markBad("simulated")
            st["bad"] = {st["chs"][1]}

    def do_good(self, op, st, ctx):
        for ch in st["bad"]:
            st["g"][ch].markGood()
        st["bad"] = set()
        if not st["plan"]["array"]:
            self.do_refresh(op, st, ctx)

    def unsavable(self, d):
        if getattr(d.f, "__globals__", {}).get("g") is not None and not isinstance(d.f, Scale):
            return True
        return any(self.unsavable(b) for b in d.bound.values())

    def load_both(self, st, path, key, ctx):
        """After an interrupted save, a reader finds the earlier book or the new one."""
        import dill
        from mass.off.util import RecipeBook
        cands, complete = st["slots"][key]
        try:
            if key[1] == "group":
                with open(path, "rb") as f:
                    d = dill.load(f)
            else:
                d = {next(iter(cands[-1])): RecipeBook.from_file(path)}
        except Exception as e:
            if complete:
                raise Violation("saved-book-lost", f"after an interrupted save the book saved before no longer loads: {e!r}")
            with open(path, "rb") as f:
                size = len(f.read())
            ctx.event("unreadable", size > 0)
            st["slots"].pop(key)
            os.remove(path)
            return
        fits = [c for c in cands if self.same_books(st, d, c)]
        if not fits:
            raise Violation("wrong-book", "after an interrupted save the file loads as a book that was never saved")
        st["slots"][key] = ([fits[-1]], True)

    def same_books(self, st, d, books):
        if set(d) != set(books) and len(books) > 1:
            return False
        for (_, book), (ch, b) in zip(sorted(d.items()), sorted(books.items())):
            if list(book.keys()) != list(b.defs):
                return False
            raw = self.raw(st, ch)
            for name, x in b.defs.items():
                import mass
                src = st["g"][ch]._indexOffWithCuts(mass.off.util.NoCutInds())
                if not same(book.craft(name, src), x.value(raw)):
                    return False
        return True

    def do_load(self, op, st, ctx):
        for how in ("group", "book"):
            key = (op["slot"], how)
            if key not in st["slots"]:
                continue
            books = st["slots"][key][0][-1]
            path = ctx.path(f"book{op['slot']}.{how}")
            ch = st["chs"][op["ch"] % len(st["chs"])]
            try:
                with ctx.armed(op["fault"]) as armed:
                    if how == "group":
                        st["g"].loadRecipeBooks(path)
                    else:
                        from mass.off.util import RecipeBook
                        st["g"][ch].recipes = RecipeBook.from_file(path)
            except OSError:
                if not armed.fired:
                    raise
                self.all_values(st, "after a load that failed")
                return
            except KeyError:
                if how == "book" or set(books) <= set(st["chs"]):
                    raise
                ctx.probe("load-refused")
                self.all_values(st, "after a load that was refused")
                return
            if how == "group" and not set(books) <= set(st["chs"]):
                raise Violation("wrongly-accepted", f"books for channels {sorted(books)} were loaded into a group of {st['chs']}")
            if how == "group":
                for c, b in books.items():
                    st["book"][c] = b.copy()
            else:
                st["book"][ch] = next(iter(books.values())).copy()
            ctx.probe("loaded")
            ctx.event("load", how)
            # the default cut is the channel's own, and has to be chosen again where the book lacks it
            self.all_values(st, "after loading")
            for c in st["chs"]:
                b, raw = st["book"][c], self.raw(st, c)
                for name in b.props:
                    if name in b.defs and not same(self.attribute(st["g"][c], name), b.defs[name].value(raw)):
                        raise Violation("wrong-value", f"attribute {name} of channel {c} after loading")
            return

    def do_restart(self, op, st, ctx):
        self.forget()
        st["env"].flush_all()
        self.open(st, op.get("only"))
        ctx.probe("new-process")
        ctx.event("restart")
        self.all_values(st, "in a new process")
