"""Process-wide settings of the host program: what they are, and putting them back.

Runs share one interpreter, so every run starts from the same settings whatever the code under test did to them."""
import atexit
import copyreg
import csv
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings
import xml.etree.ElementTree as ET

_getcwd = os.getcwd
SIGNALS = [getattr(signal, n) for n in ("SIGINT", "SIGTERM", "SIGPIPE", "SIGHUP", "SIGUSR1", "SIGCHLD")]


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def quick():
    """What another thread of the program would notice at once."""
    return {"working directory": _getcwd(), "umask": umask(), "environment": dict(os.environ),
            "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
            "signal handlers": [signal.getsignal(s) for s in SIGNALS],
            "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
            "switch interval": sys.getswitchinterval()}


def _pandas_options():
    pd = sys.modules.get("pandas")
    try:
        from pandas._config import config
        return repr(config._global_config)
    except Exception:
        return pd and pd.get_option("display.max_rows")


def full():
    s = quick()
    s.update({"random generator": hash(random.getstate()), "csv field limit": csv.field_size_limit(), "csv dialects": csv.list_dialects(),
              "decimal context": repr(decimal.getcontext()), "warning filters": [repr(f) for f in warnings.filters],
              "XML prefixes": dict(ET._namespace_map),
              "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.getLoggerClass(),
                          logging.raiseExceptions, logging.lastResort), "warning hook": warnings.showwarning,
              "module path": list(sys.path), "exception hooks": (sys.excepthook, threading.excepthook, sys.displayhook),
              "default socket timeout": socket.getdefaulttimeout(), "garbage collector": (gc.isenabled(), gc.get_threshold()),
              "temporary directory": tempfile.tempdir, "profiling": (sys.getprofile(),),
              "integer string limit": getattr(sys, "get_int_max_str_digits", int)(),
              "exit handlers": getattr(atexit, "_ncallbacks", int)(), "pickling table": sorted(map(repr, copyreg.dispatch_table)),
              "thread stack size": threading.stack_size(), "priority": os.getpriority(os.PRIO_PROCESS, 0),
              "resource limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_FSIZE, resource.RLIMIT_STACK)],
              "built-in names": sorted(__builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)),
              "pandas options": _pandas_options()})
    np = sys.modules.get("numpy")
    if np is not None:
        s["floating-point error handling"] = dict(np.geterr())
        st = np.random.get_state()
        s["numpy's random generator"] = hash((st[0], st[1].tobytes()) + tuple(st[2:]))
    return s


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def save():
    ctx = decimal.getcontext()
    np = sys.modules.get("numpy")
    return {"umask": umask(), "env": dict(os.environ), "limit": sys.getrecursionlimit(), "random": random.getstate(),
            "field": csv.field_size_limit(), "decimal": ctx.copy(), "filters": warnings.filters[:], "ns": dict(ET._namespace_map),
            "level": logging.root.level, "handlers": list(logging.root.handlers), "disable": logging.root.manager.disable,
            "signals": [signal.getsignal(s) for s in SIGNALS], "path": sys.path[:],
            "dialects": csv.list_dialects(), "streams": (sys.stdin, sys.stdout, sys.stderr),
            "hooks": (sys.excepthook, threading.excepthook, sys.displayhook), "interval": sys.getswitchinterval(),
            "locale": locale.setlocale(locale.LC_ALL), "timeout": socket.getdefaulttimeout(),
            "digits": getattr(sys, "get_int_max_str_digits", int)(), "stack": threading.stack_size(),
            "copyreg": dict(copyreg.dispatch_table), "gc": (gc.isenabled(), gc.get_threshold()), "np": np and np.geterr(),
            "nprandom": np and np.random.get_state(), "logs": (logging.raiseExceptions, logging.lastResort), "show": warnings.showwarning}


def restore(s):
    os.umask(s["umask"])
    if dict(os.environ) != s["env"]:
        for k in list(os.environ):
            if k not in s["env"]:
                del os.environ[k]
        os.environ.update(s["env"])
    sys.setrecursionlimit(s["limit"])
    random.setstate(s["random"])
    csv.field_size_limit(s["field"])
    decimal.setcontext(s["decimal"].copy())
    if warnings.filters[:] != s["filters"]:
        warnings.filters[:] = s["filters"]
        getattr(warnings, "_filters_mutated", lambda: None)()
    if ET._namespace_map != s["ns"]:
        ET._namespace_map.clear()
        ET._namespace_map.update(s["ns"])
    logging.root.setLevel(s["level"])
    logging.root.handlers[:] = s["handlers"]
    logging.disable(s["disable"])
    if threading.current_thread() is threading.main_thread():
        for sig, h in zip(SIGNALS, s["signals"]):
            if h is not None and signal.getsignal(sig) is not h:
                signal.signal(sig, h)
    sys.path[:] = s["path"]
    for d in csv.list_dialects():
        if d not in s["dialects"]:
            csv.unregister_dialect(d)
    sys.stdin, sys.stdout, sys.stderr = s["streams"]
    sys.excepthook, threading.excepthook, sys.displayhook = s["hooks"]
    sys.setswitchinterval(s["interval"])
    if locale.setlocale(locale.LC_ALL) != s["locale"]:
        locale.setlocale(locale.LC_ALL, s["locale"])
    socket.setdefaulttimeout(s["timeout"])
    if hasattr(sys, "set_int_max_str_digits"):
        sys.set_int_max_str_digits(s["digits"])
    threading.stack_size(s["stack"])
    copyreg.dispatch_table.clear()
    copyreg.dispatch_table.update(s["copyreg"])
    (gc.enable if s["gc"][0] else gc.disable)()
    gc.set_threshold(*s["gc"][1])
    np = sys.modules.get("numpy")
    if np is not None and s["np"]:
        np.seterr(**s["np"])
        np.random.set_state(s["nprandom"])
    logging.raiseExceptions, logging.lastResort = s["logs"]
    warnings.showwarning = s["show"]
