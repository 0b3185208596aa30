"""C07: work on different diagrams never interferes, under any interleaving."""
from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1100, "thorough": 25000}
RULE = ("two to four threads of one program each build, load, edit, query, lay out, analyse and export their own diagrams "
        "under a seeded scheduler that may switch at any source line, bytecode or system call; every result, file and "
        "diagram is compared with the same script run alone in a fresh program; non-trivial = distinct event log of a "
        "run with at least one switch")
STATES = "hash of the sequence of (thread, position) at which control changed hands"
REAL = C.REAL + ["real Python threads (parked and released one at a time by the simulator)"]
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)", "thread scheduling", "threading.Lock/RLock of the package"]
ASSUMES = C.ASSUMES + ["the interpreter executes one bytecode of one thread at a time (GIL)"]


def gen(rng, tier, i):
    n = rng.choice([2, 2, 2, 3, 4])
    gran = rng.choice(["line", "line", "line", "opcode", "io"])
    same = C.gen_origin(rng, ("doc", "csv", "new", "block"), sizes=(2, 4, 8), edits=(2, 12)) if rng.random() < 0.4 else None
    kindset = rng.choice([("doc", "csv", "new", "block"), ("doc", "csv", "new", "block"), ("csv",), ("doc",), ("new", "block")])
    mix = rng.choice([None, None, None, "layout", "metric", "export", "load", "edit"])
    tasks = []
    if rng.random() < 0.45:
        return focused(rng)
    for k in range(n):
        o = same if same is not None and rng.random() < 0.8 else C.gen_origin(rng, kindset, sizes=(2, 4, 8), edits=(2, 12))
        if o["from"] == "doc" and rng.random() < 0.3:
            o = dict(o, doc=M.vary(rng, o["doc"]))
        ops = []
        for _ in range(rng.randint(0, 5)):
            kind = mix if mix and rng.random() < 0.7 else rng.choice(
                ["export", "export", "layout", "metric", "metric", "query", "edit", "load", "reload"])
            if kind == "export":
                ops.append({"op": kind, "fmt": rng.choice(["xml", "xml", "nodi", "csv", "dot", "png"]),
                            "faults": C.gen_faults(rng, ("err", "close")) if rng.random() < 0.1 else []})
            elif kind == "metric":
                ops.append({"op": kind, "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS)})
            elif kind == "query":
                ops.append({"op": kind, "q": C.gen_query(rng)})
            elif kind == "edit":
                ops.append({"op": kind, "edits": [editor.gen_edit(rng, invalid=0.1) for _ in range(rng.randint(1, 4))]})
            elif kind == "load":
                ops.append({"op": kind, "origin": C.gen_origin(rng, ("doc", "csv"), sizes=(2, 4, 8))})
            else:
                ops.append({"op": kind})
        tasks.append({"origin": o, "ops": ops})
    return {"tasks": tasks, "gran": gran, "switches": C.gen_rel_switches(rng), "bufsize": C.gen_bufsize(rng),
            "ent": rng.randint(0, 1 << 30)}


def focused(rng):
    """The threads' diagrams exist already; all of them do the same kind of thing at the same time."""
    what = rng.choice(["csv", "csv", "xml", "xml", "nodi", "dot", "png", "layout", "layout", "metric", "metric", "query", "query", "query",
                       "load", "load", "csvload", "edit", "reload"])
    kinds = {"csv": ("csv", "block"), "csvload": ("csv",), "layout": ("csv", "block", "doc", "new"),
             "load": ("doc",)}.get(what, ("doc", "csv", "new", "block"))
    same = C.gen_origin(rng, kinds, sizes=(3, 6, 10), edits=(2, 12)) if rng.random() < (0.6 if what == "query" else 0.3) else None
    metric = rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS * 3)
    query = C.gen_query(rng) if rng.random() < 0.6 else None
    tasks = []
    for _ in range(rng.choice([2, 2, 2, 3])):
        o = same or C.gen_origin(rng, kinds, sizes=(3, 6, 10), edits=(2, 12))
        if same is not None and same["from"] == "doc" and rng.random() < 0.7:
            o = dict(same, doc=M.vary(rng, same["doc"]))     # same identifiers, other content
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if what != "query" else rng.randint(3, 12)):
            if what in ("csv", "xml", "nodi", "dot", "png"):
                ops.append({"op": "export", "fmt": what, "faults": []})
            elif what == "metric":
                ops.append({"op": what, "name": metric if rng.random() < 0.8 else rng.choice(C.METRICS + C.DRAW * 2)})
            elif what == "query":
                ops.append({"op": what, "q": query if query and rng.random() < 0.8 else C.gen_query(rng)})
            elif what in ("load", "csvload"):
                ops.append({"op": "load", "origin": C.gen_origin(rng, ("csv",) if what == "csvload" else ("doc",), sizes=(2, 4, 8))})
            elif what == "edit":
                ops.append({"op": what, "edits": [editor.gen_edit(rng, invalid=0.1) for _ in range(rng.randint(1, 4))]})
            else:
                ops.append({"op": what})
        tasks.append({"origin": o, "ops": ops})
    return {"tasks": tasks, "gran": rng.choice(["line", "line", "line", "opcode"]), "switches": C.gen_rel_switches(rng),
            "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30), "focus": True}


class Log(list):
    points = 0


def script(w, plan, k, proc, task, directory, log, gran, skip):
    """One thread's life; appends everything observable to log. ``skip``: what did not finish alone.
    A generator: what follows the first yield happens after the diagram exists."""
    spec = plan["tasks"][k]
    if (k, None) in skip:
        log.append("no diagram")
        return
    measures = {}

    def call(fn, **kw):
        if kw.get("line_budget", 0) > 40000:
            kw["line_budget"] = 40000       # layout
        kw.setdefault("line_budget", 400000)
        o = w.call(task, fn, trace=True, gran=gran, **kw)
        log.points += o.measure["io" if plan["gran"] == "io" else "points"]
        return o
    ed = C.make(spec["origin"], proc, call, directory + "in%d" % k)
    if ed is None:
        log.append("no diagram")
        skip.add((k, None))
        return
    if plan.get("focus"):
        log.points = 0
    yield
    for j, op in enumerate(spec["ops"]):
        o = None
        kind = op["op"]
        if (k, j) in skip:
            log.append("%s not finished" % kind)
            if kind == "layout":
                return
            continue
        if kind == "export":
            name = "t%d_%d" % (k, j)
            o = call(C.export_fn(proc, ed.dg, op["fmt"], directory, name), faults=op["faults"],
                     measure={"io": 9, "io:write": 2, "io:close": 1, "io:open_w": 1})
        elif kind == "layout":
            lay = proc.mod("bpmn_diagram_layouter")
            o = call(lambda: lay.generate_layout(ed.dg), line_budget=40000)
            if o.hang:
                log.append("layout not finished")
                skip.add((k, j))
                return
            ed.m = M.snap(ed.dg)
        elif kind == "metric":
            o = call(C.metric_fn(proc, ed.dg, op["name"]), line_budget=12000)
        elif kind == "query":
            o = call(C.query_fn(ed.dg, op["q"], M.snap(ed.dg)))
        elif kind == "edit":
            for e in op["edits"]:
                x = ed.apply(e)
                if x is not None and x is not True:
                    log.append("edit " + C.outcome_text(x))
        elif kind == "load":
            e2 = C.make(op["origin"], proc, call, directory + "ld%d_%d" % (k, j), layout_csv=False)
            ed = e2 if e2 is not None else ed
        elif kind == "reload":
            name = "r%d_%d" % (k, j)
            o = call(C.export_fn(proc, ed.dg, "xml", directory, name))
            if o.ok:
                dg = proc.rep.BpmnDiagramGraph()
                o = call(lambda: dg.load_diagram_from_xml_file(directory + name))
                if o.ok:
                    ed = editor.Editor(dg, call)
                    ed.m = M.snap(dg)
        if o is not None:
            if o.hang:
                log.append("%s not finished" % kind)
                skip.add((k, j))
                continue
            else:
                log.append("%s %s" % (kind, C.outcome_text(o)))
        log.append(M.raw(ed.dg))


def run(w, plan):
    C.stub_png()
    n = len(plan["tasks"])
    alone, points = [], 0
    skip = set()
    for k in range(n):
        p = w.proc("alone%d" % k)
        t = w.task(p, "alone%d" % k, ent("%s-%d" % (plan["ent"], k)))
        log = Log()
        d = w.path("alone%d" % k) + "/"
        os.makedirs(d)
        for _ in script(w, plan, k, p, t, d, log, "io" if plan["gran"] == "io" else "line", skip):
            pass
        points += log.points
        alone.append((log, C.tree(d)))
    if n < 1:
        return {}
    if plan["gran"] == "opcode":
        points *= 6     # bytecodes per traced line, roughly
    p = w.proc("shared")
    d = w.path("together") + "/"
    os.makedirs(d)
    logs = [Log() for _ in range(n)]
    tasks = [w.task(p, "t%d" % k, ent("%s-%d" % (plan["ent"], k))) for k in range(n)]
    lives = [script(w, plan, k, p, tasks[k], d, logs[k], plan["gran"], skip) for k in range(n)]
    if plan.get("focus"):
        for life in lives:
            next(life, None)
    sched = core.Sched(w, C.abs_switches(plan["switches"], points), gran=plan["gran"])
    for k in range(n):
        sched.spawn(tasks[k], lambda task, k=k: [None for _ in lives[k]])
    sched.run()
    w.state(sched.sig.hexdigest())
    if sched.deadlock:
        raise Violation("deadlock", "threads working on different diagrams block each other for ever")
    files = C.tree(d)
    for k in range(n):
        ca, cb = C.Canon(), C.Canon()
        la, fa = alone[k]
        lb = logs[k]
        for j, (x, y) in enumerate(zip(la, lb)):
            x, y = ca.text(x.replace("alone%d/" % k, "")), cb.text(y.replace("together/", ""))
            if x != y:
                i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                raise Violation("interference", "thread %d: step %d (%s) differs from the thread run alone: ...%r instead of ...%r"
                                % (k, j, x.split(" ")[0][:20], y[max(0, i - 30):i + 60], x[max(0, i - 30):i + 60]))
        if len(la) != len(lb):
            raise Violation("interference", "thread %d took %d steps, alone %d" % (k, len(lb), len(la)))
        for name in sorted(fa):
            if name[:2] in ("in", "ld"):
                continue    # input the harness wrote
            x = C.Canon().text(fa[name].decode("utf-8", "surrogateescape"))
            y = files.get(name)
            y = None if y is None else C.Canon().text(y.decode("utf-8", "surrogateescape"))
            if x != y:
                raise Violation("file-interference", "file %s of thread %d differs from the one written alone" % (name, k))
    extra = set(x for x in files if x[:2] not in ("in", "ld")) - set(x for _, fa in alone for x in fa)
    if extra:
        raise Violation("file-interference", "%d unexpected file(s) appeared" % len(extra))
    return {"switches_taken": sched.nswitch, "sig": sched.sig.hexdigest()[:16], "shape": [sched.nswitch] if sched.nswitch else None}
