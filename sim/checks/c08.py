"""C08: queries, metrics and exports never change the diagram."""
from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2000, "thorough": 30000}
RULE = ("one diagram is shared by one to four threads that query, measure and export it under a seeded scheduler (switches "
        "at any source line, bytecode or system call), some of them interrupted, out of memory or hit by storage errors; "
        "afterwards the diagram must be exactly as before and every completed call must have given what it gives alone; "
        "non-trivial = distinct event log of a run with at least one switch or fault")
STATES = "hash of (operation, fault fired, how it ended)"
REAL = C.REAL + ["real Python threads (parked and released one at a time by the simulator)"]
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)", "thread scheduling", "threading.Lock/RLock of the package"]
ASSUMES = C.ASSUMES + ["the interpreter executes one bytecode of one thread at a time (GIL)"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    gran = rng.choice(["line", "line", "opcode", "io"]) if n > 1 else "line"
    tasks = []
    mix = rng.choice([None, None, "export", "metric", "query"])
    for k in range(n):
        ops = []
        for _ in range(rng.randint(1, 5) if n > 1 else rng.randint(4, 14)):
            kind = mix if mix and rng.random() < 0.7 else rng.choice(["export", "export", "metric", "metric", "query"])
            op = {"op": kind, "faults": []}
            if kind == "export":
                op["fmt"] = rng.choice(["xml", "xml", "nodi", "csv", "csv", "dot", "png"])
                op["faults"] = C.gen_faults(rng, ("err", "close", "int", "int"), p_none=0.6)
            else:
                if kind == "metric":
                    op["name"] = rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS * 2)
                else:
                    op["q"] = C.gen_query(rng)
                if rng.random() < 0.3:
                    op["faults"] = C.gen_faults(rng, ("int",))
            ops.append(op)
        if gran == "opcode":
            # raising out of a trace function while others stand between two bytecodes crashes this interpreter
            for op in ops:
                op["faults"] = [f for f in op["faults"] if f["k"] != "int"]
        tasks.append({"ops": ops})
    return {"origin": C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16)), "tasks": tasks,
            "spoil": C.gen_spoil(rng) if rng.random() < 0.1 else None,
            "gran": gran, "switches": C.gen_rel_switches(rng) if n > 1 else [], "bufsize": C.gen_bufsize(rng),
            "ent": rng.randint(0, 1 << 30)}


def fn_for(p, dg, op, m, directory, name):
    if op["op"] == "export":
        return C.export_fn(p, dg, op["fmt"], directory, name)
    if op["op"] == "metric":
        return C.metric_fn(p, dg, op["name"])
    return C.query_fn(dg, op["q"], m)


def result(op, o, directory, name):
    if op["op"] == "export" and o.ok:
        data = read_file(C.target(op["fmt"], directory, name))
        return "wrote %r" % (data,)
    return C.outcome_text(o)


def run(w, plan):
    C.stub_png()
    p = w.proc("p")
    t0 = w.task(p, "main", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t0, fn, **k)
    ed = C.make(plan["origin"], p, call, w.path("in"))
    if ed is None:
        return {}
    dg = ed.dg
    m = M.snap(dg)
    if plan.get("spoil"):      # some of the calls fail by themselves
        C.spoil(dg, plan["spoil"])
    raw = M.raw(dg)
    ref_dir, out = w.path("ref") + "/", w.path("out") + "/"
    os.makedirs(ref_dir)
    os.makedirs(out)
    refs, points = {}, 0
    hits = 0
    # what every call gives when nothing else is going on, on a twin of the diagram
    import copy
    twin = copy.deepcopy(dg)
    for k, t in enumerate(plan["tasks"]):
        for j, op in enumerate(t["ops"]):
            name = "t%d_%d" % (k, j)
            o = w.call(t0, fn_for(p, twin, op, m, ref_dir, name), trace=True, gran="line", line_budget=12000 if op["op"] == "metric" else 400000)
            refs[k, j] = (result(op, o, ref_dir, name), o.measure, o.hang)
            points += o.measure["io" if plan["gran"] == "io" else "points"]
            if M.raw(twin) != raw:
                raise Violation("changed", "%s changed the diagram (%s)" % (what(op), o.describe()))
    need(M.raw(dg) == raw, "changed", "the library changed a diagram it was not called on")

    def body(k):
        def go(task):
            done = []
            for j, op in enumerate(plan["tasks"][k]["ops"]):
                name = "t%d_%d" % (k, j)
                want, measure, hang = refs[k, j]
                if hang:
                    continue
                o = w.call(task, fn_for(p, dg, op, m, out, name), faults=op["faults"], measure=measure, trace=True,
                           gran=plan["gran"], line_budget=12000 if op["op"] == "metric" else 400000)
                done.append((op, o, want, hang, result(op, o, out, name)))
                if len(plan["tasks"]) == 1 and M.raw(dg) != raw:
                    raise Violation("changed", "%s, which %s%s, changed the diagram" % (
                        what(op), o.describe(), " after " + ", ".join(o.fired) if o.fired else ""))
            return done
        return go
    if plan["gran"] == "opcode":
        points *= 6     # bytecodes per traced line, roughly
    sched = core.Sched(w, C.abs_switches(plan["switches"], points), gran=plan["gran"])
    tasks = []
    for k in range(len(plan["tasks"])):
        t = w.task(p, "t%d" % k, ent("%s-%d" % (plan["ent"], k)))
        tasks.append(t)
        sched.spawn(t, body(k))
    sched.run()
    if sched.deadlock:
        raise Violation("deadlock", "read-only callers of one diagram block each other for ever")
    if M.raw(dg) != raw:
        raise Violation("changed", "after concurrent queries, metrics and exports the diagram is not what it was")
    for t in tasks:
        for op, o, want, hang, got in t.result:
            w.state(what(op), o.fired, o.describe().split(":")[0])
            hits += len(o.fired)
            if hang or o.hang:
                continue
            if (o.ok or not o.fired) and got != want:
                raise Violation("result", "%s gave %s, alone it gives %s" % (what(op), clip(got, want), clip(want, got)))
    return {"hits": hits, "switches_taken": sched.nswitch, "sig": sched.sig.hexdigest()[:16] if sched.nswitch else None,
            "shape": [hits, sched.nswitch] if hits or sched.nswitch else None}


def what(op):
    return op["fmt"] + " export" if op["op"] == "export" else op.get("name") or "/".join(str(x) for x in op["q"])


def clip(a, b):
    if len(a) < 160:
        return a
    i = next((i for i, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
    return "...%s..." % a[max(0, i - 40):i + 80]
