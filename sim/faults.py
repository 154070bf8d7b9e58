"""Fault and crash seams.

Everything here is deterministic: a fault is named by (seam, k) and fires at the k-th visit of that seam
during the one operation it is armed for.  No seam depends on how the library is written inside; they sit at
the boundary to the interpreter, h5py and the kernel:

  line     the k-th source line of the library executed by the operation -> KeyboardInterrupt (Ctrl-C)
  h5       the k-th HDF5 mutation (dataset/attribute write, create, delete, flush) -> OSError, or KeyboardInterrupt
           (with "sticky": and every later one during the operation)
  chan     like line, but only lines executed on behalf of one channel (the outermost method of an object with that
           channel number is running), any kind of exception
  open     the k-th open() of a file inside the scratch directory -> OSError
  disk     the kernel refuses to let any file of this process grow past N bytes (RLIMIT_FSIZE): the write that
           crosses the limit is short (torn at exactly byte N), the next one fails
  fds      the kernel gives this process only k more file descriptors (RLIMIT_NOFILE): every open, map and HDF5 open
           after those fails with EMFILE
"""
import builtins
import errno
import io
import os
import resource
import signal
import sys

from . import build


class SimKill(BaseException):
    """The simulated process dies here."""


OTHER = {"VAL": ValueError, "KEY": KeyError, "RT": RuntimeError, "DIV": ZeroDivisionError, "STOP": StopIteration, "EXC": Exception,
         "IDX": IndexError, "ATTR": AttributeError, "ASSERT": AssertionError}
ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES,
         "ENOENT": errno.ENOENT}


def make_exc(kind):
    if kind == "kbi":
        return KeyboardInterrupt("simulated Ctrl-C")
    if kind == "kill":
        return SimKill("simulated process death")
    if kind == "MEM":
        return MemoryError("simulated allocation failure")
    if kind in OTHER:
        return OTHER[kind]("simulated failure")
    if kind == "text":
        return ValueError("simulated \u00b5 \x00 \udc80 failure \U0001f4a5")
    e = ERRNO[kind]
    return OSError(e, f"simulated {os.strerror(e)}")


class Armed:
    """Context manager: arm one fault for the body.  `fault` is None or a dict with 'seam','k','kind'."""

    def __init__(self, fault, ctx, root):
        self.fault, self.ctx, self.root = fault, ctx, root
        self.fired = False
        self.visits = 0

    def __enter__(self):
        f = self.fault
        if f is not None:
            self._start = getattr(self, "_on_" + f["seam"])
            self._start(f)
        return self

    def __exit__(self, *exc):
        if self.fault is not None:
            getattr(self, "_off_" + self.fault["seam"])()
            self.ctx.count_fault(self.fault, self.fired, self.visits)
        return False

    # -- line ------------------------------------------------------------------------------------
    def _on_line(self, f):
        prefix = os.path.join(os.path.realpath(build.REPO), "mass") + os.sep
        mon = sys.monitoring
        k, exc = f["k"], f["kind"]
        self._tool = 3
        mon.use_tool_id(self._tool, "verif-sim")

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            self.visits += 1
            if self.visits == k and not self.fired:
                self.fired = True
                raise make_exc(exc)
        mon.register_callback(self._tool, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(self._tool, mon.events.LINE)

    def _off_line(self):
        mon = sys.monitoring
        mon.set_events(self._tool, 0)
        mon.register_callback(self._tool, mon.events.LINE, None)
        mon.free_tool_id(self._tool)

    # -- chan ------------------------------------------------------------------------------------
    def _on_chan(self, f):
        prefix = os.path.join(os.path.realpath(build.REPO), "mass") + os.sep
        mon = sys.monitoring
        victims = {v["who"]: (v["k"], v["kind"]) for v in f.get("more", [])}
        victims[f["who"]] = (f["k"], f["kind"])
        visits = dict.fromkeys(victims, 0)
        self.hits = []                                      # channels hit, in order
        self._tool = 3
        mon.use_tool_id(self._tool, "verif-sim")
        self.where = None

        def whose(fr):
            """Number of the channel whose method runs outermost; None inside its marking or its clean-up."""
            ch = None
            while fr is not None:
                co = fr.f_code
                if co.co_argcount and co.co_varnames[0] == "self" and co.co_filename.startswith(prefix):
                    if co.co_name in {"markBad", "markGood", "__del__"}:
                        return None
                    obj = fr.f_locals.get("self")
                    if not isinstance(obj, dict):       # a group of channels is a dictionary of them
                        ch = getattr(obj, "__dict__", {}).get("channum", ch)
                fr = fr.f_back
            return ch

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return mon.DISABLE
            if len(self.hits) == len(victims):
                return None
            who = whose(sys._getframe(1))
            if who not in victims or who in self.hits:
                return None
            visits[who] += 1
            self.visits += 1
            k, exc = victims[who]
            if visits[who] == k:
                self.hits.append(who)
                if who == f["who"]:
                    self.fired = True
                    self.where = f"{code.co_name}:{line}"
                raise make_exc(exc)
            return None
        mon.register_callback(self._tool, mon.events.LINE, on_line)
        mon.restart_events()
        mon.set_events(self._tool, mon.events.LINE)

    def _off_chan(self):
        self._off_line()

    # -- h5 --------------------------------------------------------------------------------------
    def _on_h5(self, f):
        import h5py
        self._saved = []
        k, kind, when, under = f["k"], f["kind"], f.get("when", "before"), f.get("under")
        sticky = f.get("sticky", False)

        def path(obj, a):
            if isinstance(obj, h5py.AttributeManager):
                return (h5py.h5i.get_name(obj._id) or b"").decode() + ("/@" + str(a[0]) if a else "")
            name = (obj.name or "").rstrip("/")
            if isinstance(obj, h5py.Group) and a and isinstance(a[0], (str, bytes)):
                name += "/" + (a[0] if isinstance(a[0], str) else a[0].decode())
            return name

        def applies(obj, a):
            """Only what is stored for one channel, and not the record of why it is bad."""
            if isinstance(obj, h5py.File) and not a:
                return False
            p = path(obj, a) + "/"
            return p.startswith(under + "/") and "@why_bad" not in p

        def wrap(cls, name):
            real = cls.__dict__[name]

            def hooked(obj, *a, **kw):
                if self._depth > 0 or (under is not None and not applies(obj, a)):
                    return real(obj, *a, **kw)
                self._depth += 1
                try:
                    self.visits += 1
                    if sticky and self.fired:           # the trouble lasts: nothing more can be stored, nor cleaned up
                        raise make_exc(kind)
                    hit = self.visits == k and not self.fired
                    if hit and when == "before":
                        self.fired = True
                        raise make_exc(kind)
                    r = real(obj, *a, **kw)
                    if hit and not self.fired:
                        self.fired = True
                        raise make_exc(kind)
                    return r
                finally:
                    self._depth -= 1
            self._saved.append((cls, name, real))
            setattr(cls, name, hooked)
        self._depth = 0
        for cls, names in ((h5py.Dataset, ("__setitem__", "resize")),
                           (h5py.Group, ("__setitem__", "__delitem__", "move", "create_dataset", "create_group",
                                         "require_dataset", "require_group")),
                           (h5py.AttributeManager, ("__setitem__", "__delitem__", "create", "modify")),
                           (h5py.File, ("flush",))):
            for n in names:
                if n in cls.__dict__:
                    wrap(cls, n)

    def _off_h5(self):
        for cls, name, real in self._saved:
            setattr(cls, name, real)

    # -- open ------------------------------------------------------------------------------------
    def _on_open(self, f):
        k, kind, root = f["k"], f["kind"], os.path.realpath(self.root)
        real = builtins.open
        self._real_open = real, io.open

        def hooked(file, *a, **kw):
            try:
                p = os.path.realpath(os.fspath(file))
                if isinstance(p, bytes):
                    p = os.fsdecode(p)
            except TypeError:
                p = None
            if p is not None and p.startswith(root):
                self.visits += 1
                if self.visits == k and not self.fired:
                    self.fired = True
                    if kind == "daq":       # not a failure: the acquisition program writes at this very moment
                        builtins.open, io.open = self._real_open
                        try:
                            self.ctx.on_daq()
                        finally:
                            builtins.open = io.open = hooked
                    else:
                        raise make_exc(kind)
            return real(file, *a, **kw)
        builtins.open = hooked
        io.open = hooked

    def _off_open(self):
        builtins.open, io.open = self._real_open

    # -- disk ------------------------------------------------------------------------------------
    def _on_disk(self, f):
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self._lim = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (int(f["k"]), self._lim[1]))

    def _off_disk(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, self._lim)

    # -- fds -------------------------------------------------------------------------------------
    def _on_fds(self, f):
        """Whether the limit was hit is the caller's to find out (from the outcome)."""
        self._lim = resource.getrlimit(resource.RLIMIT_NOFILE)
        used = {int(n) for n in os.listdir("/proc/self/fd")}
        free, n = 0, 0
        while True:
            if n not in used or not _is_open(n):
                if free == f["k"]:
                    break
                free += 1
            n += 1
        resource.setrlimit(resource.RLIMIT_NOFILE, (n, self._lim[1]))

    def _off_fds(self):
        resource.setrlimit(resource.RLIMIT_NOFILE, self._lim)


def _is_open(fd):
    try:
        os.fstat(fd)
        return True
    except OSError:
        return False
