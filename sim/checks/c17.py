"""C17: nothing outlives an operation: files, temporary files, threads, diagrams."""
import gc
import threading
import weakref

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one program exports, loads, lays out, measures, queries and edits several diagrams, with storage errors, errors on "
        "close, interrupts and allocation failures inside; after each operation the open files, descriptors, threads and "
        "temporary files are counted, and at the end every diagram the caller let go of must be gone; non-trivial = distinct "
        "event log of a run in which a fault fired")
STATES = "hash of (operation, fault fired, how the operation ended)"
REAL = C.REAL
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)"]
ASSUMES = C.ASSUMES + ["an interrupt arrives inside the library's own lines", "the caller lets go of the exception it caught",
                       "unreachable cycles are collected (the garbage collector runs)"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2])
    origins = [C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16)) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        d = rng.randint(0, n - 1)
        if r < 0.45:
            op = {"op": "export", "d": d, "fmt": rng.choice(["xml", "nodi", "csv", "dot", "png"]), "file": rng.randint(0, 2),
                  "miss": rng.random() < 0.2}
            if rng.random() < 0.2:
                op["spoil"] = C.gen_spoil(rng)
            kinds = ("err", "err", "close", "int", "int")
        elif r < 0.70:
            op = {"op": "load", "d": d, "how": rng.choice(["whole", "whole", "torn", "missing", "garbled"]), "cut": rng.random()}
            kinds = ("err", "int", "int")
        elif r < 0.78:
            op, kinds = {"op": "layout", "d": d}, ("int",)
        elif r < 0.88:
            op, kinds = {"op": "metric", "d": d, "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS)}, ("int",)
        elif r < 0.94:
            op, kinds = {"op": "query", "d": d, "q": C.gen_query(rng)}, ("int",)
        else:
            op, kinds = {"op": "edit", "d": d, "edits": [editor.gen_edit(rng, invalid=0.2) for _ in range(rng.randint(1, 4))]}, ("int",)
        op["faults"] = C.gen_faults(rng, kinds, p_none=0.25)
        op["short"] = rng.randint(0, 9999) if rng.random() < 0.15 else None
        ops.append(op)
    return {"origins": origins, "ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def descriptors():
    return len(core.R["listdir"]("/proc/self/fd"))


def run(w, plan):
    C.stub_png()
    w.drop = False      # if the library keeps the exception, it keeps the frames and so the diagram
    p = w.proc("p")
    t = w.task(p, "p", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t, fn, **k)
    out = w.path("out") + "/"
    os.makedirs(out)
    eds, refs = [], []
    for i, s in enumerate(plan["origins"]):
        ed = C.make(s, p, call, w.path("in%d" % i))
        eds.append(ed)
        if ed is not None:
            refs.append(("the diagram", weakref.ref(ed.dg), weakref.ref(ed.dg.diagram_graph)))
            ed = None
    gc.collect()
    fds, threads = descriptors(), threading.active_count()
    hits = 0

    def nothing_left(what, o, files):
        if o.hang:
            return
        gc.collect()
        still = [r._path for r in w.raws if not r.closed]
        if still or w.fds:
            raise Violation("open-file", "%s that %s left %d file(s) open" % (what, o.describe(), len(still) + len(w.fds)))
        if descriptors() != fds:
            raise Violation("descriptor", "%s that %s left %d descriptor(s) open" % (what, o.describe(), descriptors() - fds))
        if threading.active_count() != threads:
            raise Violation("thread", "%s that %s left a thread running" % (what, o.describe()))
        if not o.ok and any("unlink" in x or "EROFS" in x or "EIO" in x for x in o.fired):
            return      # not even the removal of a file works
        new = set(C.tree(w.root)) - files
        if o.ok or not any(x["k"] == "int" for x in now["faults"]):
            if new:
                raise Violation("temporary-file", "%s that %s left %d temporary file(s)" % (what, o.describe(), len(new)))
    for op in plan["ops"]:
        now = op
        ed = eds[op["d"]] if op["d"] < len(eds) else None
        k = op["op"]
        files = set(C.tree(w.root))
        what = "a " + k
        probe = None
        if k == "load":
            f = C.origin_files(plan["origins"][op["d"]]) if op["d"] < len(plan["origins"]) else None
            if f is None or not f[0]:
                continue
            data = f[1]
            if op["how"] == "torn":
                data = data[:int(len(data) * op["cut"])]
            elif op["how"] == "garbled":
                c = int(len(data) * op["cut"])
                data = data[:c] + b"\x00\xff<" + data[c + 3:]
            path = w.path("src" + f[0])
            if op["how"] != "missing":
                write_file(path, data)
            elif os.path.exists(path):
                os.unlink(path)
            files = set(C.tree(w.root))

            def fn():
                dg = p.rep.BpmnDiagramGraph()
                refs.append(("a diagram loaded", weakref.ref(dg), weakref.ref(dg.diagram_graph)))
                (dg.load_diagram_from_xml_file if f[0] == ".bpmn" else dg.load_diagram_from_csv_file)(path)
            what = "a load (%s file)" % op["how"]
        elif ed is None:
            continue
        elif k == "export":
            base = out + ("new/dir/" if op["miss"] else "")
            fn = C.export_fn(p, ed.dg, op["fmt"], base, "f%d" % op["file"])
            if op["fmt"] in ("dot", "png") and op["miss"]:
                fn = C.export_fn(p, ed.dg, op["fmt"], out, "f%d" % op["file"])
            what = "a %s export" % op["fmt"]
            files |= {os.path.relpath(C.target(op["fmt"], b, "f%d" % op["file"]), w.root) for b in (base, out)}
        elif k == "layout":
            lay = p.mod("bpmn_diagram_layouter")
            fn = lambda: lay.generate_layout(ed.dg)
        elif k == "metric":
            fn = C.metric_fn(p, ed.dg, op["name"])
        elif k == "query":
            fn = C.query_fn(ed.dg, op["q"], M.snap(ed.dg))
        else:
            for e in op["edits"]:
                x = ed.apply(e)
                if x is not None and x is not True:
                    nothing_left("an edit", x, files)
            continue
        budget = 30000 if k in ("metric", "layout") else C.LINE_BUDGET
        undo = C.spoil(ed.dg, op["spoil"]) if op.get("spoil") else None
        o = call(fn, trace=True, line_budget=budget)
        m, o.value = o.measure, None
        if o.hang:
            if undo:
                undo()
            continue
        now = dict(op, faults=[])
        nothing_left(what, o, files)
        now = op
        if op["faults"] or op["short"] is not None:
            o = call(fn, faults=op["faults"], measure=m, short=op["short"], line_budget=budget)
            o.value = None
            w.state(what, o.fired, o.describe().split(":")[0])
            hits += len(o.fired)
            nothing_left(what, o, files)
            for x in set(C.tree(w.root)) - files:      # an interrupted export may leave its temporary file
                os.unlink(os.path.join(w.root, x))
        if undo:
            undo()
    del eds[:]
    ed = fn = o = undo = None
    gc.collect()
    for what, a, b in refs:
        if a() is not None or b() is not None:
            raise Violation("kept", "%s is still referenced by the library after the caller let go of it" % what)
    return {"diagrams": len(refs), "shape": [hits] if hits else None}
