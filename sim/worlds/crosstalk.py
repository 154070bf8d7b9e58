"""P19: neighbour lists and crosstalk flags of a TESGroup, under any arrival times, maps, repetitions and interruptions."""
import itertools

import numpy as np

from ..engine import Violation, World
from ..tes import TesSetup, close, tes_cfg

CATS = ["physical", "frequency", "µ map"]


def ranks(spans):
    """{squared distance: n} for every pair of places in a box of these spans."""
    d = {sum(x * x for x in v) for v in itertools.product(*[range(s + 1) for s in spans])}
    return {q: n for n, q in enumerate(sorted(d))}


def neighbours(places, chan):
    """{other channel: (squared distance, n)}: the definition."""
    dims = len(next(iter(places.values())))
    r = ranks([max(p[k] for p in places.values()) - min(p[k] for p in places.values()) for k in range(dims)])
    out = {}
    for c, p in places.items():
        q = sum((a - b) ** 2 for a, b in zip(p, places[chan]))
        out[c] = (q, r[q])
    return out


class Crosstalk(World):
    name = "crosstalk"
    real = ("mass.core.channel (set_nearest_neighbors_list, flag_crosstalking_pulses, summarize_data)", "mass.core.channel_group",
            "h5py/HDF5 cache files")
    stub = ("DAQ program (LJH files of 1-4 channels)", "failing, interrupting or last writes of the cache")
    rule = ("random channel maps (1-3 dimensions, channels missing or unknown), neighbour distances and veto windows, set and flagged "
            "in any order, repeated, forced anew, interrupted at any cache write and repeated, with closing and reopening and bad channels")
    must_reach = ("flagged", "unflagged", "overlap", "fault-in-list", "fault-in-flags", "repeated", "not-in-map", "by-category", "no-neighbour",
                  "reopened")

    def generate(self, rng, tier):
        cfg = tes_cfg(rng, nchan=rng.choice([1, 2, 3, 4, 4]), npulses=rng.choice([12, 15, 30]), nsamp=16, noise=False, states=False, version="2.2.0",
                      tail=0)
        cfg["npre"] = 6
        chans = [2 * i + 1 for i in range(cfg["nchan"])]
        maps = []
        for _ in range(rng.randrange(1, 4)):
            dims = rng.choice([1, 1, 2, 2, 3])
            names = [c for c in chans if rng.random() < .93] + [c for c in (2, 20, 31) if rng.random() < .4]
            rng.shuffle(names)
            names = names or [chans[0]]
            size = rng.choice([2, 3, 6])
            maps.append({str(c): [rng.randrange(size) for _ in range(dims)] for c in names})
        ops = []

        def fault(p):
            if rng.random() > p:
                return None
            return {"seam": "h5", "k": rng.randrange(1, 8), "kind": rng.choice(["kbi", "EIO", "ENOSPC", "kill"]), "when": rng.choice(["before", "after"])}
        used = []
        for _ in range(rng.randrange(1, 4)):
            m = rng.randrange(len(maps))
            used.append(m)
            ops.append({"op": "map", "m": m, "cat": CATS[len(used) - 1], "force": rng.random() < .3, "fault": fault(.25)})
        for _ in range(rng.randrange(1, 6)):
            ops.append({"op": "flag", "prior": rng.choice([0, 3, 40, 200, 2000]), "post": rng.choice([0, 3, 40, 200, 2000]),
                        "combine": rng.random() < .5, "dist": rng.choice([1, 1, 1, 2, [1, 2], [0, 1], [1, 2, 3], [5]]),
                        "force": rng.random() < .6, "fault": fault(.3), "key": rng.choice(["is_crosstalking", "is_crosstalking", "xt"])})
            if rng.random() < .2:
                ops.append(dict(ops[-1], fault=None))
        for o in ({"op": "reopen"}, {"op": "bad", "i": rng.randrange(4)}, {"op": "good", "i": rng.randrange(4)}):
            if rng.random() < .35:
                ops.insert(rng.randrange(len(ops) + 1), o)
        return {"cfg": cfg, "maps": maps, "ops": ops}

    def shrink_config(self, plan):
        for k, v in (("npulses", 12), ("nchan", 2), ("subdiv", 1)):
            if plan["cfg"][k] != v:
                yield dict(plan, cfg=dict(plan["cfg"], **{k: v}))

    def execute(self, plan, ctx):
        import mass
        S = TesSetup(plan["cfg"], ctx)
        paths = []
        for i, m in enumerate(plan["maps"]):
            p = ctx.path(f"map{i}.txt")
            with open(p, "w") as f:
                f.write("# channel and place\n" + "".join(f"{c} " + " ".join(map(str, v)) + "\n" for c, v in m.items()))
            paths.append(p)
        st = {"bad": set(), "maps": {}, "done": {}}
        g = S.open(mass)
        try:
            g.summarize_data()
            for op in plan["ops"]:
                if op["op"] == "reopen":
                    close(g)
                    g = S.open(mass)
                    ctx.probe("reopened")
                elif op["op"] in {"bad", "good"}:
                    c = S.chans[op["i"] % len(S.chans)]
                    if op["op"] == "bad":
                        g.set_chan_bad(c, "test")
                        st["bad"].add(c)
                    else:
                        g.set_chan_good(c)
                        st["bad"].discard(c)
                else:
                    g = self.step(op, plan, ctx, S, g, st, paths, mass)
                ctx.event(op["op"], sorted(st["bad"]))
        finally:
            close(g)

    def step(self, op, plan, ctx, S, g, st, paths, mass):
        """One step, perhaps interrupted (then repeated, in this session or the next)."""
        from ..faults import SimKill
        if op["fault"]:
            try:
                with ctx.armed(op["fault"]) as a:
                    self.call(op, S, g, paths)
                fired = a.fired
            except KeyboardInterrupt:
                fired = True
            except SimKill:
                fired = True
                close(g)
                g = S.open(mass)
            except OSError:
                fired = True
            if fired:
                ctx.probe("fault-in-" + {"map": "list", "flag": "flags"}[op["op"]])
                # a channel that failed for this reason is one the user takes back
                for c in list(g.why_chan_bad):
                    if c not in st["bad"] and any("simulated" in w for w in g.why_chan_bad[c]):
                        g.set_chan_good(c)
                self.call(op, S, g, paths)
                ctx.probe("repeated")
        else:
            self.call(op, S, g, paths)
        (self.check_map if op["op"] == "map" else self.check_flags)(op, plan, ctx, S, g, st)
        return g

    @staticmethod
    def tick(S, x):
        """x subframes and a half, in ms: nothing arrives exactly at the edge of a window."""
        return (x + .5) * S.cfg["timebase"] / S.cfg["subdiv"] * 1e3

    def call(self, op, S, g, paths):
        if op["op"] == "map":
            g.set_nearest_neighbors_list(paths[op["m"]], op["cat"], forceNew=op["force"])
        else:
            u = S.cfg["subdiv"]
            g.flag_crosstalking_pulses(self.tick(S, op["prior"] * u), self.tick(S, op["post"] * u), op["combine"], op["dist"], crosstalk_key=op["key"],
                                       forceNew=op["force"])

    def check_map(self, op, plan, ctx, S, g, st):
        places = {int(c): tuple(v) for c, v in plan["maps"][op["m"]].items()}
        for ch in S.chans:
            if ch in st["bad"]:
                continue
            ds = g.channel[ch]
            if ch not in places:
                ctx.probe("not-in-map")
                if ch not in g.why_chan_bad:
                    raise Violation("not-refused", f"channel {ch} is not in the map and not marked bad")
                st["bad"].add(ch)
                continue
            if ch in g.why_chan_bad:
                raise Violation("channel-failed", f"channel {ch}: {g.why_chan_bad[ch]}")
            want = neighbours(places, ch)
            got = ds.hdf5_group["nearest_neighbors"][op["cat"]]["neighbors_list"][:]
            if {int(a): (int(b), int(c)) for a, b, c in got} != want or len(got) != len(want):
                raise Violation("wrong-neighbours", f"channel {ch} in map {plan['maps'][op['m']]}: {got.tolist()} expected {want}")
            if tuple(getattr(ds, "position_" + op["cat"])[:]) != places[ch]:
                raise Violation("wrong-position", f"channel {ch}")
            st["maps"].setdefault(ch, {})[op["cat"]] = want

    def check_flags(self, op, plan, ctx, S, g, st):
        u = S.cfg["subdiv"]
        before, after = op["prior"] * u, op["post"] * u
        dist = op["dist"] if isinstance(op["dist"], list) else [op["dist"]]
        for ch in S.chans:
            if ch in st["bad"]:
                continue
            if ch in g.why_chan_bad:
                raise Violation("channel-failed", f"channel {ch}: {g.why_chan_bad[ch]}")
            cats = st["maps"].get(ch)
            ds = g.channel[ch]
            if not cats:
                if any(v[:].any() for v in ds.hdf5_group.get("crosstalk_flags", {}).values()):
                    raise Violation("flags-without-map", f"channel {ch}")
                continue
            t = [int(r["sub"]) for r in S.streams[ch].records]
            if any(b - a <= before + after for a, b in zip(t, t[1:])):
                ctx.probe("overlap")
            want = {}
            for cat, nb in cats.items():
                others = [c for c, (_, n) in nb.items() if n in dist and c in S.streams]
                if not others:
                    ctx.probe("no-neighbour")
                o = np.array(sorted(int(r["sub"]) for c in others for r in S.streams[c].records), dtype=np.int64)
                want[cat] = np.array([bool(np.any((o >= x - before) & (o <= x + after))) for x in t])
            total = np.any(list(want.values()), axis=0)
            fields = {op["key"]: total}
            if not op["combine"]:
                fields.update({f"{op['key']}_{cat}": v for cat, v in want.items()})
                ctx.probe("by-category")
            args = (before, after, tuple(dist), tuple(sorted(cats)), {c: sorted(v.items()) for c, v in cats.items()})
            key = (ch, op["key"])
            old = st["done"].get(key)
            if not op["force"] and old is not None and old["any"] and all(f in old["fields"] for f in fields):
                fields = {f: old["fields"][f] for f in fields}       # done before: as it was then
            for f, v in fields.items():
                got = getattr(ds, "p_" + f)[:]
                if got.dtype != bool or not np.array_equal(got, v):
                    bad = np.flatnonzero(np.asarray(got, bool) != v) if got.shape == v.shape else got.shape
                    raise Violation("wrong-flags", f"channel {ch} {f} (window -{before} +{after} subframes, neighbours {dist}, force {op['force']}): "
                                    f"pulses {bad[:10]} of {len(v)} wrong, {int(np.sum(v))} expected, {int(np.sum(got))} flagged")
            keep = dict((old or {"fields": {}})["fields"], **fields)
            st["done"][key] = {"args": args, "any": bool(keep[op["key"]].any()), "fields": keep}
            ctx.probe("flagged" if total.any() else "unflagged")
            if not total.all():
                ctx.probe("unflagged")


