"""C18: library calls leave the host program's process-wide state alone."""
import csv
import decimal
import logging
import random as _random
import signal
import warnings
import xml.etree.ElementTree as ET

from .. import editor, hoststate as H, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("a host program with settings of its own (working directory, umask, environment, locale, recursion limit, random "
        "generator, signal handlers, warning filters, csv and decimal limits, XML prefixes, logging, standard streams) calls the "
        "library, which is hit by storage errors, interrupts and allocation failures; the settings are compared before every "
        "simulated system call and after every operation; non-trivial = distinct event log of a run in which a fault fired")
STATES = "hash of (operation, fault fired, how the operation ended, the host's settings)"
REAL = C.REAL
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)"]
ASSUMES = C.ASSUMES + ["an interrupt arrives inside the library's own lines", "modules are imported before (imports may register things)"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2])
    origins = [C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16)) for _ in range(n)]
    big = rng.random() < 0.07
    if big:
        origins[0] = C.gen_origin(rng, ("doc",), sizes=(60, 100, 130, 200))
    ops = []
    for _ in range(rng.randint(2, 8) if not big else rng.randint(8, 14)):
        r = rng.random()
        d = rng.randint(0, n - 1)
        if r < 0.45:
            op = {"op": "export", "d": d, "fmt": rng.choice(["xml", "nodi", "csv", "csv", "dot", "png"]), "file": rng.randint(0, 2),
                  "rel": rng.random() < 0.5}
            kinds = ("err", "err", "close", "int", "int")
        elif r < 0.70:
            op = {"op": "load", "d": d, "how": rng.choice(["whole", "whole", "torn", "missing"]), "cut": rng.random()}
            kinds = ("err", "int", "int")
        elif r < 0.80 and not big:
            op, kinds = {"op": "layout", "d": d}, ("int",)
        elif r < 0.90:
            op, kinds = {"op": "metric", "d": d, "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS * (3 if big else 1))}, ("int",)
        elif r < 0.95:
            op, kinds = {"op": "query", "d": d, "q": C.gen_query(rng)}, ("int",)
        else:
            op, kinds = {"op": "edit", "d": d, "edits": [editor.gen_edit(rng, invalid=0.2) for _ in range(rng.randint(1, 4))]}, ("int",)
        op["faults"] = C.gen_faults(rng, kinds, p_none=0.25)
        ops.append(op)
    host = {"umask": rng.choice([0o022, 0o027, 0o077, 0]), "env": rng.choice([{}, {"LC_ALL": "C"}, {"TMPDIR": "tmp"}]),
            "limit": rng.choice([1000, 1500, 3000, 12345]), "seed": rng.randint(0, 99), "field": rng.choice([131072, 10 ** 6, 5000000]),
            "prec": rng.choice([28, 9, 50]), "warn": rng.choice(["default", "ignore", "once"]), "ns": rng.choice(["", "bpmn", "ns0", "x"]),
            "level": rng.choice([10, 20, 30]), "trap": rng.random() < 0.3}
    return {"origins": origins, "ops": ops, "host": host, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


class Host(object):
    """Applies the host program's settings and puts the real ones back."""

    def __init__(self, w, plan):
        self.w, self.h = w, plan["host"]

    def __enter__(self):
        h = self.h
        self.saved = H.save()
        os.makedirs(self.w.path("home"), exist_ok=True)
        os.chdir(self.w.path("home"))
        os.umask(h["umask"])
        os.environ.update({k: self.w.path(v) if v == "tmp" else v for k, v in h["env"].items()})
        core.sys.setrecursionlimit(h["limit"])
        _random.seed(h["seed"])
        csv.field_size_limit(h["field"])
        decimal.getcontext().prec = h["prec"]
        warnings.simplefilter(h["warn"])
        if h["ns"] and not h["ns"].startswith("ns"):
            ET.register_namespace(h["ns"], "http://host.example/%s" % h["ns"])
        logging.root.setLevel(h["level"])
        if h["trap"]:
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
        return self

    def __exit__(self, *a):
        os.chdir("/")
        H.restore(self.saved)
        return False


def run(w, plan):
    C.stub_png()
    with Host(w, plan):
        return host(w, plan)


def host(w, plan):
    p = w.proc("p")
    t = w.task(p, "p", ent(plan["ent"]))
    bad = []
    was = [None, ""]

    def watch(task, kind):
        if not bad:
            d = H.differ(was[0], H.quick())
            if d:
                bad.append(Violation("changed-meanwhile", "while %s runs the program's %s is changed" % (was[1], " and ".join(d))))

    def call(fn, what="a load", **k):
        before = H.full()
        was[:] = [before and H.quick(), what]
        w.watch = watch
        o = w.call(t, fn, **k)
        w.watch = None
        if bad:
            raise bad[0]
        d = H.differ(before, H.full())
        if d and not o.hang:
            raise Violation("changed", "%s that %s changed the program's %s" % (what, o.describe(), " and ".join(d)))
        return o
    out = w.path("home", "out") + "/"
    os.makedirs(out)
    eds = [C.make(s, p, lambda fn, **k: call(fn, "building or loading", **k), w.path("in%d" % i)) for i, s in enumerate(plan["origins"])]
    hits = 0
    for op in plan["ops"]:
        ed = eds[op["d"]] if op["d"] < len(eds) else None
        k = op["op"]
        what = "a " + k
        if k == "load":
            f = C.origin_files(plan["origins"][op["d"]]) if op["d"] < len(plan["origins"]) else None
            if f is None or not f[0]:
                continue
            data = f[1]
            if op["how"] == "torn":
                data = data[:int(len(data) * op["cut"])]
            path = w.path("src" + f[0])
            if op["how"] != "missing":
                write_file(path, data)
            elif os.path.exists(path):
                os.unlink(path)

            def fn():
                dg = p.rep.BpmnDiagramGraph()
                (dg.load_diagram_from_xml_file if f[0] == ".bpmn" else dg.load_diagram_from_csv_file)(path)
        elif ed is None:
            continue
        elif k == "export":
            fn = C.export_fn(p, ed.dg, op["fmt"], "out/" if op["rel"] else out, "f%d" % op["file"])
            what = "a %s export" % op["fmt"]
        elif k == "layout":
            lay = p.mod("bpmn_diagram_layouter")
            fn = lambda: lay.generate_layout(ed.dg)
        elif k == "metric":
            fn = C.metric_fn(p, ed.dg, op["name"])
        elif k == "query":
            fn = C.query_fn(ed.dg, op["q"], M.snap(ed.dg))
        else:
            ed.call = lambda fn, **kw: call(fn, "an edit", **kw)
            for e in op["edits"]:
                ed.apply(e)
            continue
        budget = 30000 if k in ("metric", "layout") else C.LINE_BUDGET
        o = call(fn, what, trace=True, line_budget=budget)
        if o.hang:
            break
        if op["faults"]:
            o = call(fn, what, faults=op["faults"], measure=o.measure, line_budget=budget)
            w.state(what, o.fired, o.describe().split(":")[0], plan["host"])
            hits += len(o.fired)
    return {"shape": [hits] if hits else None}
