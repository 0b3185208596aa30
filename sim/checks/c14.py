"""C14: layout changes only geometry, whatever interrupts it."""
import copy

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("a diagram (supported, cyclic or unsupported by layout) is laid out again and again, with edits, exports and reloads in "
        "between, the layout being interrupted or out of memory at a seeded line, alone or while other threads query and "
        "measure the same diagram under a seeded scheduler; after every layout everything but positions and waypoints must "
        "be as before; non-trivial = distinct event log of a run with a fault, a layout that failed on its own, or a switch")
STATES = "hash of (how the layout ended, fault, line at which it was interrupted / 16)"
REAL = C.REAL + ["real Python threads (parked and released one at a time by the simulator)"]
STUB = C.STUB + ["thread scheduling"]
ASSUMES = C.ASSUMES + ["the interpreter executes one bytecode of one thread at a time (GIL)"]
BUDGET = 25000


def gen(rng, tier, i):
    simple = ["task", "subProcess", "exclusiveGateway", "parallelGateway", "startEvent", "endEvent",
              "intermediateCatchEvent", "intermediateThrowEvent"]
    kw = {}
    if rng.random() < 0.5:
        kw = {"types": simple, "collab": False}
    origin = C.gen_origin(rng, ("doc", "doc", "csv", "csv", "block", "block", "new"), sizes=(1, 2, 4, 8), edits=(2, 16), **kw)
    ops = []
    conc = rng.random() < 0.3
    for _ in range(rng.randint(1, 2) if conc else rng.randint(2, 7)):
        r = rng.random()
        if r < 0.75 or conc:
            f = []
            if rng.random() < (0.4 if conc else 0.7):
                f = [{"k": "int", "frac": 1.0 - rng.random() ** rng.choice([1, 3]) * 0.999 if rng.random() < 0.5 else rng.random(),
                      "exc": rng.choice(["kbd", "kbd", "mem"])}]
                if rng.random() < 0.5:
                    f[0]["site"] = rng.random()
            ops.append({"op": "layout", "faults": f, "scope": rng.choice(["repo", "repo", "repo", "all"])})
        elif r < 0.9:
            ops.append({"op": "edit", "edits": [editor.gen_edit(rng) for _ in range(rng.randint(1, 4))]})
        else:
            ops.append({"op": "export", "fmt": rng.choice(["xml", "nodi", "dot"]), "faults": C.gen_faults(rng, ("err", "int"), p_none=0.5)})
    plan = {"origin": origin, "ops": ops, "bufsize": 8192, "ent": rng.randint(0, 1 << 30), "tasks": [], "switches": []}
    if conc:
        for op in ops:
            op["scope"] = "repo"
        plan["tasks"] = [{"ops": [gen_look(rng) for _ in range(rng.randint(1, 6))]} for _ in range(rng.randint(1, 2))]
        plan["switches"] = C.gen_rel_switches(rng)
    return plan


LOOK = ["get_nodes_count", "get_all_gateways", "get_gateway_counts", "get_events_counts", "get_activities_counts",
        "TNE_metric", "NOA_metric", "NumberOfNodes_metric", "GatewayHeterogenity_metric",
        "CoefficientOfNetworkComplexity_metric", "AverageGatewayDegree_metric"]


def gen_look(rng):
    if rng.random() < 0.4:
        return {"m": rng.choice(LOOK)}
    q = C.gen_query(rng)
    while q[0] == "get_nodes_positions":
        q = C.gen_query(rng)
    return {"q": q}


def bare(v):
    """A query result without geometry."""
    if isinstance(v, dict):
        return {k: bare(x) for k, x in v.items() if k not in ("x", "y", "waypoints")}
    if isinstance(v, (list, tuple)):
        return [bare(x) for x in v]
    return v


def run(w, plan):
    p = w.proc("p")
    t0 = w.task(p, "main", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t0, fn, **k)
    ed = C.make(plan["origin"], p, call, w.path("in"), layout_csv=False)
    if ed is None:
        return {}
    dg = ed.dg
    lay = p.mod("bpmn_diagram_layouter")
    hits = failed = done = 0
    measure = {}

    def measured():
        twin = copy.deepcopy(dg)
        o = w.call(t0, lambda: lay.generate_layout(twin), trace=True, line_budget=BUDGET)
        oa = w.call(t0, lambda: lay.generate_layout(copy.deepcopy(dg)), trace=True, scope="all", line_budget=BUDGET * 4)
        measure["repo"] = dict(o.measure)
        measure["all"] = dict(oa.measure)
        if o.hang:
            measure["repo"]["line"] = 1500
            measure["all"]["line"] = 6000
        return o

    def laid(o, structure, full, fired):
        """Checks one finished layout."""
        how = "was interrupted (%s)" % ", ".join(fired) if fired and not o.ok else o.describe()
        now = M.structure(dg)
        if now != structure:
            i = next((i for i, (a, b) in enumerate(zip(structure, now)) if a != b), min(len(now), len(structure)))
            raise Violation("structure", "a layout that %s changed more than positions and waypoints: ...%s... became ...%s..." % (
                how, structure[max(0, i - 60):i + 60], now[max(0, i - 60):i + 60]))
        if o.exc is not None and not fired and M.raw(dg) != full:
            raise Violation("geometry", "a layout that %s moved nodes or waypoints" % how)
        w.state(how, o.measure["line"] // 16)

    if not plan["tasks"]:
        for j, op in enumerate(plan["ops"]):
            if op["op"] == "edit":
                for e in op["edits"]:
                    x = ed.apply(e)
                    if x is not None and x is not True:
                        C.expect_ok(x, "edit-failed", "edit %s" % e[0])
                measure.clear()
            elif op["op"] == "export":
                o = call(C.export_fn(p, dg, op["fmt"], w.path("out") + "/", "f%d" % j), faults=op["faults"],
                         measure={"io": 10, "line": 400})
                hits += len(o.fired)
            else:
                structure, full = M.structure(dg), M.raw(dg)
                if not measure:
                    measured()
                    need(M.raw(dg) == full, "other", "laying out a copy of the diagram changed the diagram")
                o = w.call(t0, lambda: lay.generate_layout(dg), faults=op["faults"], measure=measure[op["scope"]],
                           scope=op["scope"], trace=True, line_budget=BUDGET * (4 if op["scope"] == "all" else 1))
                laid(o, structure, full, o.fired)
                hits += len(o.fired)
                failed += 1 if o.exc is not None and not o.fired else 0
                done += 1 if o.ok else 0
        return {"hits": hits, "failed": failed, "completed": done, "shape": [hits, failed] if hits or failed else None}

    m = M.snap(dg)
    structure = M.structure(dg)
    first = measured()
    points = first.measure["points"] * len(plan["ops"])
    refs = {}

    def look(op):
        return C.metric_fn(p, dg, op["m"]) if "m" in op else C.query_fn(dg, op["q"], m)
    for k, t in enumerate(plan["tasks"]):
        for j, op in enumerate(t["ops"]):
            o = w.call(t0, look(op), trace=True, line_budget=BUDGET)
            refs[k, j] = "hang" if o.hang else "ok %s" % C.show(bare(o.value)) if o.ok else C.outcome_text(o)
            points += o.measure["points"]

    def layouts(task):
        for op in plan["ops"]:
            o = w.call(task, lambda: lay.generate_layout(dg), faults=op["faults"], measure=measure["repo"], trace=True,
                       line_budget=BUDGET)
            laid(o, structure, None, o.fired or ("concurrency",))
        return len(o.fired) if plan["ops"] else 0

    def looker(k):
        def go(task):
            for j, op in enumerate(plan["tasks"][k]["ops"]):
                o = w.call(task, look(op), trace=True, line_budget=BUDGET)
                got = "hang" if o.hang else "ok %s" % C.show(bare(o.value)) if o.ok else C.outcome_text(o)
                if got != refs[k, j]:
                    raise Violation("looked", "%s during a layout gave %s, without it %s" % (
                        op.get("m") or op["q"][0], got[:160], refs[k, j][:160]))
        return go
    sched = core.Sched(w, C.abs_switches(plan["switches"], points), gran="line")
    t = w.task(p, "layout", ent("%s-l" % plan["ent"]))
    sched.spawn(t, layouts)
    for k in range(len(plan["tasks"])):
        sched.spawn(w.task(p, "q%d" % k, ent("%s-%d" % (plan["ent"], k))), looker(k))
    sched.run()
    if sched.deadlock:
        raise Violation("deadlock", "a layout and queries block each other for ever")
    need(M.structure(dg) == structure, "structure", "after a layout with concurrent queries more than geometry has changed")
    return {"switches_taken": sched.nswitch, "sig": sched.sig.hexdigest()[:16] if sched.nswitch else None, "hits": t.result or 0,
            "shape": [sched.nswitch, t.result] if sched.nswitch or t.result else None}
