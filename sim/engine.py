"""Core of the deterministic simulator: plans, execution contexts, verdicts, minimisation."""
import hashlib
import json
import os
import random
import shutil
import signal
import tempfile
import time as _time

from . import build, faults
from .loader import reseed_randomness


class Violation(Exception):
    """The property does not hold.  `kind` is a short stable label, `detail` says what was seen."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind, self.detail = kind, detail


class HarnessError(Exception):
    """The simulator itself is wrong; never reported as a violation."""


class SimHang(BaseException):
    pass


CPU_LIMIT_S = 90.0


class Ctx:
    """Everything one execution may use: scratch directory, virtual clock, counters, trace."""

    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.trace = []          # abstract event trace: determines "distinct interleavings"
        self.probes = {}         # named counters: proof that interesting states were reached
        self.faults_armed, self.faults_fired = {}, {}
        self.sim_ns = 0
        self.notes = []

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def event(self, *parts):
        self.trace.append(parts)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def advance(self, ns):
        self.sim_ns += int(ns)

    def count_fault(self, fault, fired, visits=None):
        key = f"{fault['seam']}:{fault.get('kind', '')}"
        self.faults_armed[key] = self.faults_armed.get(key, 0) + 1
        if fired:
            self.faults_fired[key] = self.faults_fired.get(key, 0) + 1

    def fault_fired(self, key):
        """Count an environment fault that the simulator applied directly (torn append, lost tail...)."""
        self.faults_armed[key] = self.faults_armed.get(key, 0) + 1
        self.faults_fired[key] = self.faults_fired.get(key, 0) + 1

    def armed(self, fault):
        return faults.Armed(fault, self, self.root)

    def digest(self):
        return hashlib.sha256(json.dumps(self.trace, default=str).encode()).hexdigest()[:16]


class World:
    """One simulated system.  Subclasses define `generate` and `execute`."""

    name = "world"
    real = ()      # components running real code
    stub = ()      # components the simulator stands in for
    rule = ""

    def generate(self, rng, tier):
        """-> plan: JSON-serialisable dict with a list plan['ops']."""
        raise NotImplementedError

    def execute(self, plan, ctx):
        """Run the plan; raise Violation when the property fails."""
        raise NotImplementedError

    def shrink_op(self, op):
        """Simpler variants of one operation."""
        out = []
        if isinstance(op, dict) and op.get("fault"):
            o = dict(op)
            o["fault"] = None
            out.append(o)
        return out

    def shrink_config(self, plan):
        return []


def library_frame(e):
    """'module.py:function' of the innermost library frame of an exception's traceback, or None."""
    prefix = os.path.join(os.path.realpath(build.REPO), "mass") + os.sep
    tb, where = e.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(prefix):
            where = f"{fn[len(prefix):]}:{tb.tb_frame.f_code.co_name}"
        elif fn.endswith(".pyx"):
            where = f"{fn}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return where


def _on_cpu(signum, frame):
    raise SimHang("CPU budget of one run exhausted")


def scratch_base():
    base = os.environ.get("VERIF_SCRATCH")
    if base:
        return base
    return "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


def run_plan(world, plan, cpu_limit=CPU_LIMIT_S):
    """Execute one plan.  Returns a result dict; never raises for violations."""
    root = tempfile.mkdtemp(prefix="vsim_", dir=os.environ.get("VERIF_RUN_DIR") or scratch_base())
    top = root
    if plan.get("dirname"):
        root = os.path.join(root, plan["dirname"])
        os.mkdir(root)
    ctx = Ctx(plan, root)
    res = {"seed": plan.get("seed"), "viol": None, "error": None}
    cwd = os.getcwd()
    reseed_randomness(plan.get("seed", 0) or 0)
    real_time = _time.time
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    try:
        os.chdir(root)
        world.execute(plan, ctx)
    except Violation as v:
        res["viol"] = {"kind": v.kind, "detail": v.detail[:2000].replace(root, "<scratch>")}
    except SimHang:
        res["viol"] = {"kind": "no-progress", "detail": f"an operation made no progress within {cpu_limit:.0f} s of CPU time"
                       f" (a run normally takes well under 2 s); last event {ctx.trace[-1:] }"}
    except (Exception, faults.SimKill, KeyboardInterrupt) as e:
        import traceback
        where = library_frame(e)
        if where is not None and not isinstance(e, (faults.SimKill, KeyboardInterrupt, MemoryError)):
            # Every exception a world expects is caught by the world, so this one is the library failing.
            res["viol"] = {"kind": f"library-raised-{type(e).__name__}",
                           "detail": f"unexpected {type(e).__name__}: {str(e)[:600]} at {where}; last event {ctx.trace[-1:]}"
                           .replace(root, "<scratch>")}
        elif isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError)):
            # The check could not even look at what the library gave it: something missing, of another kind or shape.
            fr = traceback.extract_tb(e.__traceback__)[-1]
            res["viol"] = {"kind": f"unusable-result-{type(e).__name__}",
                           "detail": f"what the library returned or wrote is not of the promised form: {type(e).__name__}: "
                           f"{str(e)[:600]} in {fr.name} ({os.path.basename(fr.filename)}:{fr.lineno}, {fr.line}); "
                           f"last event {ctx.trace[-1:]}".replace(root, "<scratch>")}
        else:
            res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        _time.time = real_time
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)
    res.update(digest=ctx.digest(), events=len(ctx.trace), probes=ctx.probes, armed=ctx.faults_armed,
               fired=ctx.faults_fired, sim_ns=ctx.sim_ns, notes=ctx.notes)
    return res


# The scratch directory of a run: mostly plain, sometimes named like what the library looks for in file names.
DIRNAMES = [None, None, None, None, "old_chan3", "x_chan7.d", "chan", "20181018_144520", "a b.off"]


def make_plan(world, seed, tier):
    rng = random.Random(f"{world.name}/{seed}")
    plan = world.generate(rng, tier)
    plan["seed"] = seed
    plan["world"] = world.name
    plan["dirname"] = rng.choice(DIRNAMES)
    # A plan must survive being written to a replay file unchanged.
    return json.loads(json.dumps(plan))


def minimise(world, plan, kind, budget_s=60.0, runner=None):
    """ddmin over plan['ops'] then simplify single operations, keeping the same violation kind."""
    runner = runner or (lambda p: run_plan(world, p))
    t0 = _time.monotonic()
    best = json.loads(json.dumps(plan))

    def fails(p):
        r = runner(p)
        return r["viol"] is not None and r["viol"]["kind"] == kind

    def left():
        return _time.monotonic() - t0 < budget_s

    n = 2
    while len(best["ops"]) >= 2 and left():
        ops = best["ops"]
        size = max(1, len(ops) // n)
        for i in range(0, len(ops), size):
            cand = dict(best, ops=ops[:i] + ops[i + size:])
            if left() and fails(cand):
                best = cand
                n = max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(ops), n * 2)
    changed = True
    while changed and left():
        changed = False
        for i in range(len(best["ops"])):
            for o in world.shrink_op(best["ops"][i]):
                if not left():
                    break
                cand = dict(best, ops=best["ops"][:i] + [o] + best["ops"][i + 1:])
                if fails(cand):
                    best, changed = cand, True
                    break
        for cand in ([dict(best, dirname=None)] if best.get("dirname") else []) + list(world.shrink_config(best)):
            if left() and fails(cand):
                best, changed = cand, True
                break
    return best
