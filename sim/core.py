"""The simulator: one world = one seeded, exactly repeatable execution.

Owns every source of nondeterminism the properties depend on: which task runs next, every file
system call below the scratch root (and its faults), process death and restart, interrupts,
the operating system's random source, the clock, the locale's text encoding.
"""
import builtins
import collections
import dis
import datetime
import errno as errno_mod
import gc
import hashlib
import importlib
import io
import locale
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import uuid
import weakref

from . import pkg

SIM_DIR = os.path.dirname(os.path.abspath(__file__)) + os.sep

# real primitives, captured before anything is patched
R = {n: getattr(os, n) for n in (
    "open", "close", "read", "write", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "stat", "lstat",
    "listdir", "scandir", "chmod", "utime", "fsync", "fdatasync", "link", "symlink", "readlink", "truncate",
    "ftruncate", "access", "urandom", "getcwd", "fstat", "fchmod", "sync", "sendfile", "copy_file_range",
    "mknod", "mkfifo", "posix_fallocate", "pwrite", "writev", "pwritev") if hasattr(os, n)}
R_open = io.open
R_Lock = threading.Lock
R_RLock = threading.RLock
R_time = time.time
R_time_ns = time.time_ns
R_sleep = time.sleep
R_cpu = time.process_time
R_thread_cpu = time.thread_time
R_local = {n: getattr(time, n) for n in ("localtime", "gmtime", "ctime", "strftime")}
R_getpref = locale.getpreferredencoding
R_getenc = getattr(locale, "getencoding", None)
R_strxfrm, R_strcoll, R_localeconv = locale.strxfrm, locale.strcoll, locale.localeconv


def starved():
    """Whether this host is so busy that its processes get only part of the processor time they ask for."""
    wall = cpu = 0.0
    for _ in range(12):
        a, b = R_time(), R_thread_cpu()
        while R_thread_cpu() - b < 0.02 and R_time() - a < 2:
            pass
        wall += R_time() - a
        cpu += R_thread_cpu() - b
        R_sleep(0.01)
    return wall > 1.4 * cpu


def given_up(begun, cpu, limit):
    """Whether to stop waiting, at or after the limit: not while a busy host kept this process from running."""
    return R_time() - begun >= 4 * limit or R_cpu() - cpu >= limit / 2 or not starved()


class SimCrash(BaseException):
    """The simulated process was killed here."""


class SimHang(BaseException):
    """The step budget of one operation ran out."""


class SimDeadlock(BaseException):
    """No task can run."""


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemoryError(MemoryError):
    pass


INTERRUPTS = {"kbd": InjectedInterrupt, "mem": InjectedMemoryError}

ERRNOS = {
    "write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG", "ENOSPC", "EIO", "ESTALE", "EAGAIN", "ETIMEDOUT", "ENOMEM"],
    "open_w": ["EACCES", "EMFILE", "ENOSPC", "EROFS", "EPERM", "EINTR", "ENFILE", "EBUSY", "EDQUOT", "ESTALE"],
    "open_r": ["EACCES", "EMFILE", "EIO", "ENFILE", "EINTR", "EPERM", "ESTALE", "EBUSY"],
    "read": ["EIO", "ESTALE", "ETIMEDOUT", "EAGAIN"],
    "close": ["EIO", "ENOSPC", "EDQUOT", "EINTR", "ESTALE"],
    "mkdir": ["EACCES", "ENOSPC", "EROFS", "EMLINK", "EPERM", "EDQUOT", "EINTR", "EIO"],
    "replace": ["EACCES", "EIO", "ENOSPC", "EPERM", "EBUSY", "EROFS", "EDQUOT", "EINTR", "ESTALE"],
    "unlink": ["EACCES", "EIO", "EBUSY", "EPERM", "ESTALE"],
    "stat": ["EIO", "EACCES", "ESTALE", "ETIMEDOUT"],
    "fsync": ["EIO", "ENOSPC", "EDQUOT"],
    "chmod": ["EPERM", "EROFS", "EIO"],
    "list": ["EACCES", "EIO", "ESTALE"],
}
STICKY = {
    "ENOSPC": ("write", "mkdir", "open_w"), "EDQUOT": ("write", "mkdir", "open_w"),
    "EIO": ("write", "read", "fsync"), "EROFS": ("open_w", "mkdir", "replace", "unlink", "chmod"),
    "EACCES": ("open_w", "open_r", "mkdir"), "EMFILE": ("open_w", "open_r"), "ENFILE": ("open_w", "open_r"),
    "ESTALE": ("read",), "EFBIG": ("write",), "EPERM": ("chmod",), "EMLINK": ("mkdir",),
}

KINDS = sorted(ERRNOS)


class Proc(object):
    """A simulated process: own module copies, own text encoding, dies as a whole."""

    def __init__(self, world, name, enc="utf-8", cwd=None):
        self.world = world
        self.name = name
        self.enc = enc
        self.cwd = cwd
        self.dead = False
        self.pid = 4000 + len(world.procs)
        self.mods = pkg.fresh()

    def mod(self, name):
        return self.mods[pkg.PKG + "." + name]

    @property
    def rep(self):
        return self.mod("bpmn_diagram_rep")


class Task(object):
    def __init__(self, world, proc, name, entropy=None):
        self.world = world
        self.proc = proc
        self.name = name
        self.in_op = False
        self.faults = []
        self.counts = collections.Counter()
        self.lines = 0
        self.sites = {}
        self.opcodes = 0
        self.ios = 0
        self.fired = []
        self.entropy = entropy
        self.pid = proc.pid if proc is not None else None
        self.sticky = None
        self.go = R_Lock()
        self.go.acquire()
        self.done = False
        self.blocked = None
        self.error = None
        self.result = None
        self.thread = None
        self.short = None
        self.line_budget = None
        self.gran = "none"
        self.scope = "repo"
        self.hang = False
        self.notrace = 0

    # -- fault bookkeeping -------------------------------------------------------------
    def arm(self, faults, measure=None, short=None, gran=None, scope="repo", line_budget=None):
        self.faults = []
        self.counts = collections.Counter()
        self.lines = 0
        self.sites = {}
        self.opcodes = 0
        self.ios = 0
        self.fired = []
        self.short = random.Random(short) if short is not None else None
        self.scope = scope
        self.line_budget = line_budget
        if gran is not None:
            self.gran = gran
        for f in faults or []:
            f = dict(f)
            if f["k"] in ("err", "crash"):
                on = f.get("on")
                if "frac" in f:
                    total = None
                    if measure is not None:
                        if on:
                            total = sum(measure.get("io:" + k, 0) for k in on)
                        else:
                            total = measure.get("io", 0)
                    f["at"] = int(f["frac"] * (total if total else 8))
            elif f["k"] == "int":
                if "frac" in f:
                    total = (measure or {}).get("line", 0)
                    f["at"] = 1 + int(f["frac"] * (total if total else 200))
                    sites = (measure or {}).get("sites")
                    if "site" in f and sites:
                        # every source line is as likely as any other, however often it runs
                        first, last = sites[min(int(f["frac"] * len(sites)), len(sites) - 1)]
                        f["at"] = first if f["site"] < 0.5 else last if f["site"] < 0.7 else \
                            first + int((f["site"] - 0.7) / 0.3 * (last - first))
            self.faults.append(f)

    def measured(self):
        m = {"io": sum(self.counts.values()), "line": self.lines,
             "points": sum(self.counts.values()) + self.lines + self.opcodes, "sites": list(self.sites.values())}
        for k, v in self.counts.items():
            m["io:" + k] = v
        return m

    def _fire(self, f, label):
        f["done"] = True
        self.fired.append(label)
        self.world.fired[label] += 1
        self.world.log("FAULT", self.name, label)

    # -- points ------------------------------------------------------------------------
    def io_point(self, kind, path, n=0):
        """Called before every simulated system call. Returns the number of bytes to let through before
        failing (for a torn write) and the exception, or None."""
        w = self.world
        if self.proc.dead:
            raise SimCrash()
        w.steps += 1
        w.log("io", self.name, kind, path, n)
        self.ios += 1
        if self.ios > 100000:
            self.hang = True
            raise SimHang()
        if w.watch is not None:
            w.watch(self, kind)
        if w.sched is not None:
            w.sched.yield_point(self, "io")
        if self.proc.dead:
            raise SimCrash()
        idx_all = sum(self.counts.values())
        if self.sticky is not None and kind in STICKY.get(self.sticky, ()):
            self.counts[kind] += 1
            w.fired["sticky-" + self.sticky] += 1
            return 0, OSError(getattr(errno_mod, self.sticky), os.strerror(getattr(errno_mod, self.sticky)), path)
        act = None
        for f in self.faults:
            if f.get("done") or f["k"] not in ("err", "crash"):
                continue
            on = f.get("on")
            if on:
                if kind not in on:
                    continue
                idx = sum(self.counts[k] for k in on)
            else:
                idx = idx_all
            if idx != f["at"]:
                continue
            cut = int(f.get("cut", 0.0) * n)
            if f["k"] == "crash":
                self._fire(f, "crash@" + kind)
                act = (cut, "crash")
            else:
                name = f.get("errno") or ERRNOS[kind][f.get("r", 0) % len(ERRNOS[kind])]
                self._fire(f, "%s@%s" % (name, kind))
                if f.get("sticky"):
                    self.sticky = name
                code = getattr(errno_mod, name)
                act = (cut, OSError(code, os.strerror(code), path))
            break
        self.counts[kind] += 1
        return act

    def line_point(self, frame):
        w = self.world
        if self.proc.dead:
            raise SimCrash()
        self.lines += 1
        w.steps += 1
        if self.line_budget is not None and self.lines > self.line_budget:
            self.hang = True
            raise SimHang()
        if w.sched is None:
            site = (frame.f_code, frame.f_lineno)
            seen = self.sites.get(site)
            if seen is not None:
                seen[1] = self.lines
            elif frame.f_code.co_filename.startswith(pkg.PKG_DIR):
                self.sites[site] = [self.lines, self.lines]
        for f in self.faults:
            if f["k"] == "int" and not f.get("done") and f["at"] <= self.lines and not (w.fds and self.lines <= w.fd_line + 8) \
                    and frame.f_lasti not in no_interrupt(frame.f_code):
                self._fire(f, "interrupt-" + f.get("exc", "kbd"))
                raise INTERRUPTS[f.get("exc", "kbd")]("injected")
            if f["k"] == "crash_line" and not f.get("done") and f["at"] == self.lines:
                self._fire(f, "crash@line")
                self.proc.dead = True
                raise SimCrash()
        if w.sched is not None and frame.f_code.co_name != "<module>":
            w.sched.yield_point(self, "line")

    def opcode_point(self):
        """Between two bytecodes: only a place to switch (raising here is not safe in this interpreter)."""
        w = self.world
        self.opcodes += 1
        w.steps += 1
        if w.sched is not None and not self.proc.dead:
            try:
                w.sched.yield_point(self, "line")
            except SimDeadlock:
                pass  # raised again at the next line

    def tracer(self):
        prefix = pkg.PKG_DIR + os.sep
        opcodes = self.gran == "opcode"
        want_all = self.scope == "all"

        def local(frame, event, arg):
            if event == "line":
                self.line_point(frame)
            elif event == "opcode":
                self.opcode_point()
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(prefix) or (want_all and not fn.startswith(SIM_DIR) and not fn.startswith("<")):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob


_no_interrupt = {}


def no_interrupt(code):
    """Instructions at which an exception raised by a trace function is not what an asynchronous exception would be.
    The interpreter raises those inside calls and on loop back edges, so never at the entry of an exception handler,
    between the end of a protected block and the first call of its clean-up (the exit of a with statement, the first
    line of a finally block), or at the instruction without effect that stands for "try:"."""
    out = _no_interrupt.get(code)
    if out is not None:
        return out
    out = set()
    table = dis._parse_exception_table(code)

    def handler(offset):
        return next((e.target for e in table if e.start <= offset < e.end), None)

    def inside(offset):
        """Handlers an exception at this offset meets, innermost first."""
        chain = []
        h = handler(offset)
        while h is not None and h not in chain:
            chain.append(h)
            h = handler(h)
        return chain
    ins = [i for i in dis.get_instructions(code) if i.opname != "CACHE"]
    for n, i in enumerate(ins):
        if i.opname in ("PUSH_EXC_INFO", "NOP"):
            out.add(i.offset)
        elif [(x.opname, x.argval) for x in ins[n:n + 3]] == [("LOAD_CONST", None)] * 3:
            call = [x for x in ins[n + 3:n + 5] if x.opname != "PRECALL"]
            if call and call[0].opname == "CALL" and call[0].arg == 2:
                out.add(i.offset)
        elif n:
            before, here = inside(ins[n - 1].offset), inside(i.offset)
            if before and before[0] not in here and here == before[len(before) - len(here):]:
                out.add(i.offset)
    _no_interrupt[code] = out
    return out


class Outcome(object):
    """What a call into the code under test did."""
    __slots__ = ("ok", "value", "exc", "crashed", "hang", "measure", "fired", "keep")

    def __init__(self):
        self.ok = False
        self.value = None
        self.exc = None
        self.crashed = False
        self.hang = False
        self.measure = None
        self.fired = ()
        self.keep = None

    def describe(self):
        if self.ok:
            return "returned"
        if self.crashed:
            return "killed"
        if self.hang:
            return "did not finish within its step budget"
        return "raised %s" % self.exc


def exc_text(e, root):
    return ("%s: %s" % (type(e).__name__, e)).replace(root, "<root>")[:300]


class World(object):
    def __init__(self, bufsize=8192, root=None, house=None, odd=None):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.top = self.root = root or tempfile.mkdtemp(prefix="vsim-", dir=base)
        if house:       # the directory everything lives in has an unusual name
            self.root = os.path.join(self.top, house)
            os.mkdir(self.root)
        self.odd = odd or "@"
        self.root_slash = self.root + os.sep
        self.bufsize = bufsize
        self.h = hashlib.sha256()
        self.steps = 0
        self.fired = collections.Counter()
        self.states = set()
        self.sched = None
        self.by_ident = {}
        self.fds = {}
        self.fd_line = 0
        self.drop = True
        self.raws = weakref.WeakSet()     # files the code under test opened
        self.clock_ns = 1700000000 * 10 ** 9
        self.procs = []
        self.kept = []
        self.tail = collections.deque(maxlen=60)
        self.thin = None
        self.watch = None     # invariant evaluated before every simulated system call
        self.entropy_default = random.Random(0)
        self.flat_ctime = False

    # -- log ---------------------------------------------------------------------------
    def log(self, *a):
        s = "|".join(str(x) for x in a).replace(self.root, "<root>")
        self.h.update(s.encode("utf-8", "backslashreplace"))
        self.h.update(b"\n")
        self.tail.append(s)

    def digest(self):
        return self.h.hexdigest()

    def state(self, *a):
        """Records a distinct state by a stated measure."""
        self.states.add(hashlib.sha256(repr(a).replace(self.root, "<root>").encode("utf-8", "backslashreplace")).hexdigest()[:16])

    # -- processes -----------------------------------------------------------------------
    def proc(self, name, enc="utf-8"):
        p = Proc(self, name, enc)
        self.procs.append(p)
        return p

    def task(self, proc, name, entropy=None):
        return Task(self, proc, name, entropy)

    def current(self):
        t = self.by_ident.get(threading.get_ident())
        if t is not None and t.in_op:
            return t
        return None

    # -- calling the code under test -------------------------------------------------------
    def call(self, task, fn, faults=None, measure=None, short=None, gran=None, scope="repo", trace=None,
             line_budget=None, keep_exc=False):
        """Runs one call into the code under test with the given faults armed."""
        task.arm(faults, measure, short, gran, scope, line_budget)
        need_trace = trace if trace is not None else (
            any(f["k"] in ("int", "crash_line") for f in task.faults) or line_budget is not None
            or (self.sched is not None and task.gran in ("line", "opcode")))
        ident = threading.get_ident()
        prev = self.by_ident.get(ident)
        self.by_ident[ident] = task
        out = Outcome()
        if self.sched is None:
            pkg.activate(task.proc.mods)
        old_trace = sys.gettrace()
        task.in_op = True
        try:
            if task.proc.dead:
                raise SimCrash()
            if need_trace:
                sys.settrace(task.tracer())
            try:
                out.value = fn()
            finally:
                if need_trace:
                    sys.settrace(old_trace)
            if task.proc.dead:
                raise SimCrash()
            out.ok = True
        except SimCrash:
            out.crashed = True
        except SimHang:
            out.hang = True
        except SimDeadlock as e:
            if self.sched is not None:
                raise
            out.exc = "SimDeadlock: waits for ever: %s" % e
        except BaseException as e:
            if task.proc.dead:
                out.crashed = True
            else:
                out.exc = exc_text(e, self.root)
                if keep_exc:
                    self.kept.append(e)
                elif self.drop:
                    _drop(e)
        finally:
            task.in_op = False
            if prev is None:
                self.by_ident.pop(ident, None)
            else:
                self.by_ident[ident] = prev
            if self.sched is None and task.proc.mods is not None:
                self._harvest(task.proc)
        out.measure = task.measured()
        out.fired = tuple(task.fired)
        task.sticky = None
        task.faults = []
        self.log("ret", task.name, "ok" if out.ok else out.describe())
        return out

    @staticmethod
    def _harvest(proc):
        for k in list(sys.modules):
            if k not in proc.mods and (k == pkg.PKG or k.startswith(pkg.PKG + ".")):
                proc.mods[k] = sys.modules[k]

    def kill(self, proc):
        proc.dead = True
        self.log("kill", proc.name)

    # -- paths ---------------------------------------------------------------------------
    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def nm(self, name):
        """How a file the checks call so is named in this run."""
        return self.odd.replace("@", name)

    def covers(self, path):
        if isinstance(path, int) or path is None:
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            try:
                p = p.decode()
            except UnicodeDecodeError:
                return False
        if not p.startswith("/"):
            p = os.path.join(R["getcwd"](), p)
        return p == self.root or p.startswith(self.root_slash)

    def cleanup(self):
        shutil.rmtree(self.top, ignore_errors=True)


def _drop(e):
    """Forget the frames an exception keeps alive, as leaving an except block does."""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        e.__traceback__ = None
        nxt = e.__context__
        e.__context__ = None
        e.__cause__ = None
        e = nxt


# -- the disk seam --------------------------------------------------------------------------

class SimRaw(io.RawIOBase):
    """An unbuffered file on the simulated disk: a real file in the scratch root, whose every read, write
    and close is a yield point and a fault point."""

    def __init__(self, world, task, real, path):
        io.RawIOBase.__init__(self)
        self._w = world
        self._proc = task.proc
        self._real = real
        self._path = path
        world.raws.add(self)

    name = property(lambda self: self._path)
    mode = property(lambda self: self._real.mode)

    def readable(self):
        return self._real.readable()

    def writable(self):
        return self._real.writable()

    def seekable(self):
        return self._real.seekable()

    def fileno(self):
        return self._real.fileno()

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return self._real.seek(pos, whence)

    def tell(self):
        return self._real.tell()

    def truncate(self, size=None):
        if self._proc.dead:
            return size
        t = self._w.current()
        if t is not None:
            act = t.io_point("write", self._path, 0)
            if act is not None:
                _act(t, act)
        return self._real.truncate(size)

    def readinto(self, b):
        t = self._w.current()
        if self._proc.dead:
            raise SimCrash()
        if t is not None:
            act = t.io_point("read", self._path, len(b))
            if act is not None:
                _act(t, act)
            if t.short is not None and len(b) > 1 and t.short.random() < 0.5:
                mv = memoryview(b)[:max(1, int(len(b) * t.short.random()))]
                self._w.fired["short-read"] += 1
                return self._real.readinto(mv)
        return self._real.readinto(b)

    def write(self, b):
        mv = memoryview(b).cast("B")
        n = len(mv)
        if self._proc.dead:
            return n
        t = self._w.current()
        if t is not None:
            act = t.io_point("write", self._path, n)
            if act is not None:
                if act[0]:
                    self._real.write(mv[:act[0]])
                _act(t, act)
            if t.short is not None and n > 1 and t.short.random() < 0.5:
                k = max(1, int(n * t.short.random()))
                self._w.fired["short-write"] += 1
                return self._real.write(mv[:k])
        return self._real.write(mv)

    def close(self):
        if self.closed:
            return
        dead = self._proc.dead
        try:
            io.RawIOBase.close(self)
        finally:
            self._real.close()
        if dead:
            return
        t = self._w.current()
        if t is not None and t.proc is self._proc:
            act = t.io_point("close", self._path, 0)
            if act is not None:
                _act(t, act)


def _act(t, act):
    if act[1] == "crash":
        t.proc.dead = True
        raise SimCrash()
    raise act[1]


ACTIVE = {"world": None}


def _task_for(*paths):
    w = ACTIVE["world"]
    if w is None:
        return None
    t = w.current()
    if t is None:
        return None
    for p in paths:
        if w.covers(p) or (isinstance(p, int) and p in w.fds):
            return t
    return None


def _point(t, kind, path, n=0):
    act = t.io_point(kind, str(path), n)
    if act is not None:
        _act(t, act)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = ACTIVE["world"]
    t = w.current() if w is not None else None
    tracked_fd = isinstance(file, int) and w is not None and file in w.fds
    if t is None or not (tracked_fd or w.covers(file)):
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwxa+")
    if not rawmode or (binary and (encoding is not None or errors is not None or newline is not None)) \
            or len(set("rwxa") & set(mode)) != 1:
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)  # let it raise
    path = w.fds[file] if tracked_fd else os.fspath(file)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not tracked_fd:
        _point(t, "open_r" if rawmode == "r" else "open_w", path)
    real = io.FileIO(file, rawmode, closefd=closefd, opener=opener)
    if tracked_fd and closefd:
        w.fds.pop(file, None)
    raw = SimRaw(w, t, real, path)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = False
    size = buffering
    if buffering == 1 and not binary:
        line_buffering = True
        size = -1
    if size <= 1:
        size = w.bufsize
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif rawmode == "r":
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    if encoding in (None, "locale"):
        encoding = t.proc.enc
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def _wrap1(name, kind):
    real = R[name]

    def f(path, *a, **k):
        t = _task_for(path)
        if t is not None:
            if isinstance(path, int):
                _point(t, kind, ACTIVE["world"].fds.get(path, path))
            else:
                _point(t, kind, path)
        return _flat(real(path, *a, **k)) if kind == "stat" else real(path, *a, **k)
    f.__name__ = name
    return f


def _flat(st):
    """A file system whose clock ticks so slowly that changes of the status do not show."""
    w = ACTIVE["world"]
    if w is None or not w.flat_ctime or not isinstance(st, os.stat_result):
        return st
    cls, (seq, more) = st.__reduce__()
    more = dict(more, st_ctime=more.get("st_mtime", st.st_mtime), st_ctime_ns=st.st_mtime_ns)
    return cls(tuple(seq[:9]) + (int(st.st_mtime),) + tuple(seq[10:]), more)


def _fstat(fd):
    return _flat(R["fstat"](fd))


def _wrap2(name, kind):
    real = R[name]

    def f(src, dst, *a, **k):
        t = _task_for(src, dst)
        if t is not None:
            _point(t, kind, "%s -> %s" % (src, dst))
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    t = _task_for(path)
    if t is None:
        return R["open"](path, flags, mode, dir_fd=dir_fd)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    _point(t, "open_w" if wr else "open_r", path)
    fd = R["open"](path, flags, mode, dir_fd=dir_fd)
    ACTIVE["world"].fds[fd] = os.fsdecode(path)
    ACTIVE["world"].fd_line = t.lines       # a bare number has no owner yet: no interrupt before code could give it one
    return fd


def _os_write(fd, data):
    t = _task_for(fd)
    if t is None:
        return R["write"](fd, data)
    mv = memoryview(data).cast("B")
    act = t.io_point("write", ACTIVE["world"].fds[fd], len(mv))
    if act is not None:
        if act[0]:
            R["write"](fd, mv[:act[0]])
        _act(t, act)
    if t.short is not None and len(mv) > 1 and t.short.random() < 0.5:
        ACTIVE["world"].fired["short-write"] += 1
        return R["write"](fd, mv[:max(1, int(len(mv) * t.short.random()))])
    return R["write"](fd, mv)


def _os_close(fd):
    w = ACTIVE["world"]
    t = _task_for(fd)
    if t is None:
        if w is not None:
            w.fds.pop(fd, None)
        return R["close"](fd)
    p = w.fds.pop(fd)
    R["close"](fd)
    _point(t, "close", p)


def _urandom(n):
    w = ACTIVE["world"]
    if w is None:
        return R["urandom"](n)
    t = w.by_ident.get(threading.get_ident())
    if w.thin is not None:
        return w.thin(n, t)
    rng = t.entropy if t is not None and t.entropy is not None else w.entropy_default
    return bytes(rng.getrandbits(8) for _ in range(n))


def _getpid():
    """Every simulated process has its own."""
    w = ACTIVE["world"]
    t = w.by_ident.get(threading.get_ident()) if w is not None else None
    return t.pid if t is not None and t.pid is not None else R_getpid()


def _seed(self, a=None, version=2):
    """A generator that seeds itself from the operating system gets the simulated random source."""
    if a is None and ACTIVE["world"] is not None:
        a = int.from_bytes(_urandom(32), "big")
    return R_seed(self, a, version)


R_getpid, R_seed = os.getpid, random.Random.seed


def _time_ns():
    w = ACTIVE["world"]
    if w is None:
        return R_time_ns()
    w.clock_ns += 1000
    return w.clock_ns


def _time():
    return _time_ns() / 1e9 if ACTIVE["world"] is not None else R_time()


def _local(name):
    real = R_local[name]

    def f(*a):
        if ACTIVE["world"] is None or len(a) > (name == "strftime"):
            return real(*a)
        if name == "strftime":
            return real(a[0], R_local["localtime"](_time()))
        return real(_time())
    f.__name__ = name
    return f


def _ticks(real, scale):
    def f():
        return real() if ACTIVE["world"] is None else _time_ns() / scale if scale > 1 else _time_ns()
    return f


R_datetime, R_date = datetime.datetime, datetime.date


class SimDatetime(R_datetime):
    """Only the package's own imports of datetime get these."""

    @classmethod
    def now(cls, tz=None):
        return R_datetime.fromtimestamp(_time(), tz)

    @classmethod
    def utcnow(cls):
        return R_datetime.fromtimestamp(_time(), datetime.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return R_datetime.fromtimestamp(_time())


class SimDate(R_date):
    @classmethod
    def today(cls):
        return R_date.fromtimestamp(_time())


def _sleep(s):
    w = ACTIVE["world"]
    if w is None or w.current() is None:
        return R_sleep(s)
    w.clock_ns += int(s * 1e9)
    t = w.current()
    if w.sched is not None:
        w.sched.yield_point(t, "io")


def _enc():
    w = ACTIVE["world"]
    t = w.current() if w is not None else None
    return t.proc.enc if t is not None else None


def _getpref(do_setlocale=True):
    return _enc() or R_getpref(do_setlocale)


def _getenc():
    return _enc() or R_getenc()


def _elsewhere():
    """Whether the simulated process runs under another locale than the host's."""
    e = _enc()
    return e is not None and e.lower().replace("-", "") != "utf8"


def _strxfrm(s):
    return R_strxfrm(s.swapcase() if _elsewhere() else s)


def _strcoll(a, b):
    return R_strcoll(a.swapcase(), b.swapcase()) if _elsewhere() else R_strcoll(a, b)


def _localeconv():
    d = R_localeconv()
    return dict(d, decimal_point=",", thousands_sep=".", grouping=[3, 0]) if _elsewhere() else d


class SimLock(object):
    """A lock made by the code under test: contention is a scheduling decision, never a real block."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        w = ACTIVE["world"]
        t = w.by_ident.get(threading.get_ident()) if w is not None else None
        me = t if t is not None else "outside"
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or w is None or w.sched is None or t is None:
                if not blocking:
                    return False
                if timeout is not None and timeout >= 0:
                    if w is not None:
                        w.clock_ns += int(timeout * 1e9)
                    return False
                raise SimDeadlock("lock is never released")
            if timeout is not None and timeout >= 0:
                w.clock_ns += int(timeout * 1e9)
                w.sched.yield_point(t, "io", force=True)
                if self.owner is not None:
                    return False
                continue
            w.sched.block(t, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            w = ACTIVE["world"]
            if w is not None and w.sched is not None:
                w.sched.unblock(self)

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def _lock_factory(real, reentrant):
    def f(*a, **k):
        if ACTIVE["world"] is not None:
            g = sys._getframe(1).f_globals.get("__name__", "")
            if g == pkg.PKG or g.startswith(pkg.PKG + "."):
                return SimLock(reentrant)
        return real(*a, **k)
    return f


_installed = False


def install():
    """Puts the seams in place (once per host process); they pass everything through until a world is active."""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    for n, k in (("mkdir", "mkdir"), ("rmdir", "unlink"), ("unlink", "unlink"), ("remove", "unlink"),
                 ("stat", "stat"), ("lstat", "stat"), ("listdir", "list"), ("scandir", "list"), ("chmod", "chmod"),
                 ("utime", "chmod"), ("fsync", "fsync"), ("fdatasync", "fsync"), ("truncate", "write"),
                 ("ftruncate", "write"), ("access", "stat"), ("readlink", "stat"), ("fchmod", "chmod")):
        if n in R:
            setattr(os, n, _wrap1(n, k))
    # shutil copies with sendfile/copy_file_range behind our back: make it fall back to read and write
    shutil._USE_CP_SENDFILE = False
    if hasattr(shutil, "_USE_CP_COPY_FILE_RANGE"):
        shutil._USE_CP_COPY_FILE_RANGE = False
    for n in ("rename", "replace", "link", "symlink"):
        setattr(os, n, _wrap2(n, "replace"))
    os.fstat = _fstat
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.urandom = _urandom
    os.getpid = _getpid
    random._urandom = _urandom
    random.Random.seed = _seed
    random.seed = random._inst.seed
    uuid._generate_time_safe = None
    uuid._UuidCreate = None
    time.time = _time
    time.time_ns = _time_ns
    time.sleep = _sleep
    for n in R_local:
        setattr(time, n, _local(n))
    for n in ("monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, n, _ticks(getattr(time, n), 1e9))
        setattr(time, n + "_ns", _ticks(getattr(time, n + "_ns"), 1))
    for n in ("pandas", "networkx", "pydotplus"):     # extension types derive from the real classes
        importlib.import_module(n)
    datetime.datetime, datetime.date = SimDatetime, SimDate
    locale.getpreferredencoding = _getpref
    locale.strxfrm, locale.strcoll, locale.localeconv = _strxfrm, _strcoll, _localeconv
    if R_getenc is not None:
        locale.getencoding = _getenc
    threading.Lock = _lock_factory(R_Lock, False)
    threading.RLock = _lock_factory(R_RLock, True)
    sys.unraisablehook = lambda *a: None
    threading.excepthook = lambda *a: None


_frozen = []


class active(object):
    """with active(world): the seams belong to this world."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        install()
        if not _frozen:
            gc.collect()
            gc.freeze()     # what is loaded by now stays; collecting between runs becomes cheap
            _frozen.append(1)
        gc.collect()
        gc.disable()
        random.seed(12345)
        tempfile._name_sequence = None
        uuid._last_timestamp = None
        uuid._node = 0x0242ac110002
        self.home = R["getcwd"]()
        self.tempdir = tempfile.tempdir
        tempfile.tempdir = self.world.path("tmp")
        R["mkdir"](tempfile.tempdir)
        ACTIVE["world"] = self.world
        self.mods = pkg.purge()
        return self.world

    def __exit__(self, *a):
        w = self.world
        w.kept = []
        for p in w.procs:
            p.mods = None
        ACTIVE["world"] = None
        os.chdir(self.home)
        tempfile.tempdir = self.tempdir
        pkg.purge()
        sys.modules.update(self.mods)
        gc.enable()
        w.cleanup()
        return False


# -- the scheduler ------------------------------------------------------------------------------

class Sched(object):
    """Real threads, parked and released one at a time. ``switches`` decides every interleaving: a list of
    [gap, choice] - after ``gap`` further yield points control passes to the ``choice``-th other runnable task.
    When the list is used up each task runs to its end."""

    def __init__(self, world, switches, gran="line", max_steps=2000000):
        self.w = world
        self.switches = [tuple(s) for s in switches]
        self.pos = 0
        self.gap = self.switches[0][0] if self.switches else -1
        self.gran = gran
        self.tasks = []
        self.cur = None
        self.done = threading.Event()
        self.deadlock = False
        self.nswitch = 0
        self.npoints = 0
        self.max_steps = max_steps
        self.sig = hashlib.sha256()

    def spawn(self, task, fn):
        task.gran = self.gran
        self.tasks.append(task)

        def body():
            task.go.acquire()
            try:
                if self.deadlock:
                    return
                task.result = fn(task)
            except SimDeadlock:
                pass
            except BaseException as e:  # a harness error, or a Violation raised inside the task
                task.error = e
            finally:
                sys.settrace(None)
                task.done = True
                self._leave(task)
        task.thread = threading.Thread(target=body, daemon=True)

    def _runnable(self, but=None):
        return [t for t in self.tasks if not t.done and t.blocked is None and t is not but]

    def _enter(self, t):
        prev = self.cur
        if prev is not None and prev is not t and prev.proc.mods is not None and prev.proc is not t.proc:
            World._harvest(prev.proc)
        if prev is None or prev.proc is not t.proc:
            pkg.activate(t.proc.mods)
        self.cur = t
        self.w.log("run", t.name)
        self.sig.update(t.name.encode())
        t.go.release()

    def _leave(self, t):
        nxt = self._runnable()
        if nxt:
            i = 0
            if self.pos < len(self.switches):
                i = self.switches[self.pos][1] % len(nxt)
            self._enter(nxt[i])
        elif all(x.done for x in self.tasks):
            self.done.set()
        else:
            self._die()

    def _die(self):
        self.deadlock = True
        for x in self.tasks:
            if not x.done:
                x.blocked = None
        live = [x for x in self.tasks if not x.done]
        if live:
            self._enter(live[0])
        else:
            self.done.set()

    def _advance(self):
        self.pos += 1
        self.gap = self.switches[self.pos][0] if self.pos < len(self.switches) else -1

    def yield_point(self, t, kind, force=False):
        if self.deadlock:
            raise SimDeadlock()
        if self.cur is not t:
            return
        if self.gran == "io" and kind != "io":
            return
        self.npoints += 1
        if not force:
            if self.gap < 0:
                return
            if self.gap > 0:
                self.gap -= 1
                return
        choice = self.switches[self.pos][1] if self.pos < len(self.switches) else 0
        if not force or self.pos < len(self.switches):
            self._advance()
        others = self._runnable(but=t)
        if not others:
            return
        self.nswitch += 1
        self._to(t, others[choice % len(others)])

    def _to(self, t, nxt):
        self.w.log("switch", t.name, nxt.name, self.npoints)
        self.sig.update(b"%d" % self.npoints)
        self._enter(nxt)
        tr = sys.gettrace()
        t.go.acquire()
        if self.deadlock:
            raise SimDeadlock()
        del tr

    def block(self, t, lock):
        t.blocked = lock
        others = self._runnable(but=t)
        if not others:
            t.blocked = None
            self.deadlock = True
            raise SimDeadlock()
        self.w.log("block", t.name)
        self._to(t, others[0])

    def unblock(self, lock):
        for x in self.tasks:
            if x.blocked is lock:
                x.blocked = None

    def run(self, timeout=80):
        self.w.sched = self
        try:
            for t in self.tasks:
                t.thread.start()
            if self.tasks:
                first = self.tasks[0]
                self._enter(first)
                begun, cpu = R_time(), R_cpu()
                while not self.done.wait(timeout if R_time() - begun < timeout else 5):
                    if given_up(begun, cpu, timeout):
                        raise Violation("no-progress", "threads made no progress for %d s" % timeout)
                for t in self.tasks:
                    t.thread.join(10)
        finally:
            if self.cur is not None and self.cur.proc.mods is not None:
                World._harvest(self.cur.proc)
            self.w.sched = None
        for t in self.tasks:
            if t.error is not None:
                raise t.error
