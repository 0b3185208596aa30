"""C13: edits are atomic and queries always match the history."""
import copy

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("histories of accepted and rejected edits, direct attribute changes, failing and killed saves, layouts, restarts and "
        "reloads on up to two diagrams, each mirrored by a reference model; after every operation every query is compared "
        "with the model; non-trivial = distinct event log of a run with at least one rejected edit, fault or restart")
STATES = "hash of (number of nodes, flows, rejected edits, restarts) after every operation"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES + ["at most one flow between two nodes (see the known finding)"]

TYPES = ["task", "userTask", "subProcess", "startEvent", "endEvent", "exclusiveGateway", "inclusiveGateway", "parallelGateway",
         "participant", "dataObject", "nothing"]


def gen(rng, tier, i):
    ops = []
    inv = rng.choice([0.15, 0.35, 0.6])

    def origin(d):
        return {"op": "origin", "d": d, "origin": C.gen_origin(rng, ("doc", "new", "new", "block"), sizes=(2, 4, 8, 16), edits=(1, 10))}
    ops.append(origin(0))
    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        d = rng.randint(0, 1)
        if r < 0.08:
            ops.append(origin(d))
        elif r < 0.12:      # the same object, for another diagram
            ops.append({"op": "renew", "d": d, "edits": [["proc", "p", False, False, "None"]] +
                        [editor.gen_edit(rng) for _ in range(rng.randint(0, 8))]})
        elif r < 0.60:
            ops.append({"op": "edit", "d": d, "edits": [editor.gen_edit(rng, invalid=inv) for _ in range(rng.randint(1, 8))]})
        elif r < 0.78:
            ops.append({"op": "save", "d": d, "file": rng.randint(0, 1), "fmt": rng.choice(["xml", "xml", "xml", "nodi", "csv", "dot"]),
                        "faults": C.gen_faults(rng, p_none=0.4)})
        elif r < 0.86:
            ops.append({"op": "load", "d": d, "file": rng.randint(0, 1), "reuse": rng.random() < 0.25})
        elif r < 0.905:
            ops.append({"op": "odd", "d": d, "call": rng.randint(0, 999), "value": rng.randint(0, 999), "node": rng.randint(0, 99)})
        elif r < 0.93:
            ops.append({"op": "metric", "d": d, "name": rng.choice(C.METRICS + C.DRAW * 2)})
        elif r < 0.96:
            ops.append({"op": "layout", "d": d})
        else:
            ops.append({"op": "restart", "kill": rng.random() < 0.5})
    return {"ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def check_queries(dg, m, call, when, absent=("nothing", "")):
    """Every query against the model."""
    def q(what, fn):
        o = call(lambda: C.plain(fn()))
        if not o.ok:
            raise Violation("query-failed", "%s: %s %s" % (when, what, o.describe()))
        return o.value

    def bad(what, msg):
        raise Violation("query", "%s %s %s" % (when, what, msg))

    def same_ids(what, got, want):
        got = sorted(map(str, got))
        want = sorted(map(str, want))
        if got != want:
            miss = [x for x in want if x not in got]
            more = [x for x in got if x not in want] or [x for x in got if got.count(x) > want.count(x)]
            bad(what, "reports %d elements instead of %d (missing %s, unexpected %s)" % (len(got), len(want), miss[:2], more[:2]))

    def nodes(what, got, want):
        got = list(got)
        same_ids(what, [n for n, _ in got], want)
        for n, a in got:
            if a is not live[n] and a != live[n]:
                bad(what, "reports other attributes for node %r" % (n,))
    live = dg.diagram_graph.nodes
    N, F = m["nodes"], m["flows"]
    df = M.diff(m, M.snap(dg))
    if df:
        raise Violation("model", "%s the diagram differs from its history: %s" % (when, "; ".join(df)))
    nodes("get_nodes()", q("get_nodes", lambda: dg.get_nodes()), N)
    for t in sorted(set(TYPES) | set(a.get("type") for a in N.values())):
        want = [n for n, a in N.items() if a.get("type") == t]
        nodes("get_nodes(%r)" % t, q("get_nodes", lambda: dg.get_nodes(t)), want)
        same_ids("get_nodes_id_list_by_type(%r)" % t, q("ids", lambda: dg.get_nodes_id_list_by_type(t)), want)
    for p in sorted(set(m["procs"]) | set(a.get("process") for a in N.values()) | {"nowhere"}, key=str):
        nodes("get_nodes_list_by_process_id(%r)" % p, q("by process", lambda: dg.get_nodes_list_by_process_id(p)),
              [n for n, a in N.items() if a.get("process") == p])
        same_ids("get_flows_list_by_process_id(%r)" % p,
                 [f[2].get("id") for f in q("flows by process", lambda: dg.get_flows_list_by_process_id(p))],
                 [f for f, a in F.items() if a.get("process") == p])
    for n in N:
        got = q("get_node_by_id", lambda: dg.get_node_by_id(n))
        if got is None or got[0] != n or got[1] != live[n]:
            bad("get_node_by_id(%r)" % n, "reports %s" % (None if got is None else repr(got[0])))
    for x in absent:
        if x not in N and q("get_node_by_id", lambda: dg.get_node_by_id(x)) is not None:
            bad("get_node_by_id(%r)" % x, "reports a node that does not exist")
    flows = q("get_flows", lambda: list(dg.get_flows()))
    same_ids("get_flows()", [f[2].get("id") for f in flows], F)
    for f, a in F.items():
        got = q("get_flow_by_id", lambda: dg.get_flow_by_id(f))
        if got is None or got[2].get("id") != f or {got[0], got[1]} != {a["sourceRef"], a["targetRef"]}:
            bad("get_flow_by_id(%r)" % f, "reports %s" % (None if got is None else repr(got[:2])))
    for x in absent:
        if x not in F and q("get_flow_by_id", lambda: dg.get_flow_by_id(x)) is not None:
            bad("get_flow_by_id(%r)" % x, "reports a flow that does not exist")
    if all("x" in a and "y" in a for a in N.values()):
        want = {n: (float(a["x"]), float(a["y"])) for n, a in N.items()}
        got = q("get_nodes_positions", lambda: dg.get_nodes_positions())
        if got != want:
            bad("get_nodes_positions()", "reports %d positions that are not the nodes' (%d nodes)" % (len(got), len(want)))
    for f, (name, s, t) in m["seq"].items():
        for n, key in ((s, "outgoing"), (t, "incoming")):
            for x, a in N.items():
                k = (a.get(key) or []).count(f)
                if k != (1 if x == n else 0):
                    raise Violation("references", "%s flow %r is listed %d time(s) as %s of node %r" % (when, f, k, key, x))


def odd_call(dg, ed, op):
    odd = [None, 5, [], {}, object, "", "nowhere", 1.5, True, b"x", ("a", "b")][op["value"] % 11]
    pid = next(iter(ed.m["procs"]), "p")
    nodes = [n for n, a in ed.m["nodes"].items() if "outgoing" in a and "incoming" in a] or ["a"]
    n = nodes[op["node"] % len(nodes)]
    free = next((x for x in nodes if x != n and not ed.pair_taken(x, n)), "b")
    calls = [
        ("default of an exclusive gateway", lambda: dg.add_exclusive_gateway_to_diagram(pid, default=odd)),
        ("default of an inclusive gateway", lambda: dg.add_inclusive_gateway_to_diagram(pid, default=odd)),
        ("name of a task", lambda: dg.add_task_to_diagram(pid, task_name=odd)),
        ("id of a task", lambda: dg.add_task_to_diagram(pid, node_id=odd)),
        ("id of a subprocess", lambda: dg.add_subprocess_to_diagram(pid, "s", node_id=odd)),
        ("process of a task", lambda: dg.add_task_to_diagram(odd, "t")),
        ("process of a start event", lambda: dg.add_start_event_to_diagram(odd, "t")),
        ("flags of a subprocess", lambda: dg.add_subprocess_to_diagram(pid, "s", is_expanded=odd, triggered_by_event=odd)),
        ("definition of a start event", lambda: dg.add_start_event_to_diagram(pid, start_event_definition=odd)),
        ("definition of an end event", lambda: dg.add_end_event_to_diagram(pid, end_event_definition=odd)),
        ("direction of a parallel gateway", lambda: dg.add_parallel_gateway_to_diagram(pid, gateway_direction=odd)),
        ("direction of an exclusive gateway", lambda: dg.add_exclusive_gateway_to_diagram(pid, gateway_direction=odd)),
        ("direction of an inclusive gateway", lambda: dg.add_inclusive_gateway_to_diagram(pid, gateway_direction=odd)),
        ("name of a gateway", lambda: dg.add_parallel_gateway_to_diagram(pid, gateway_name=odd)),
        ("source of a flow", lambda: dg.add_sequence_flow_to_diagram(pid, odd, n, "f")),
        ("target of a flow", lambda: dg.add_sequence_flow_to_diagram(pid, n, odd, "f")),
        ("process of a flow", lambda: dg.add_sequence_flow_to_diagram(odd, n, free, "f")),
        ("process of a flow", lambda: dg.add_sequence_flow_to_diagram("nowhere", n, free, "f")),
        ("name of a flow", lambda: dg.add_sequence_flow_to_diagram(pid, n, free, odd)),
        ("id of a task, taken", lambda: dg.add_task_to_diagram(pid, "t", node_id=n)),
        ("id of a gateway, taken", lambda: dg.add_parallel_gateway_to_diagram(pid, "t", gateway_direction=odd, node_id=n)),
        ("type of a node", lambda: dg.add_flow_node_to_diagram(pid, odd, "x")),
        ("process of a gateway", lambda: dg.add_exclusive_gateway_to_diagram(odd, "x")),
        ("id of a start event", lambda: dg.add_start_event_to_diagram(pid, node_id=odd)),
        ("id of an end event", lambda: dg.add_end_event_to_diagram(pid, node_id=odd)),
        ("flags of a start event", lambda: dg.add_start_event_to_diagram(pid, parallel_multiple=odd, is_interrupting=odd)),
        ("flags of a process", lambda: dg.add_process_to_diagram("p", process_is_closed=odd, process_is_executable=odd)),
        ("name of a diagram", lambda: dg.create_new_diagram_graph(odd)),
        ("name of a process", lambda: dg.add_process_to_diagram(odd)),
        ("type of a process", lambda: dg.add_process_to_diagram("p", process_type=odd)),
    ]
    return calls[op["call"] % len(calls)]


def run(w, plan):
    st = {"n": 0}

    def boot():
        st["n"] += 1
        p = w.proc("p%d" % st["n"])
        return p, w.task(p, p.name, ent("%s-%d" % (plan["ent"], st["n"])))
    p, t = boot()
    call = lambda fn, **k: w.call(t, fn, **k)
    live, disk = {}, {}
    rejected = restarts = hits = 0
    d = w.path("out") + "/"
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        o = None
        ed = live.get(op.get("d"))
        if k == "origin":
            live.pop(op["d"], None)
            ed = C.make(op["origin"], p, call, w.path("in%d" % j))
            if ed is not None:
                live[op["d"]] = ed
        elif k == "restart":
            if op["kill"]:
                w.kill(p)
            p, t = boot()
            live = {}
            restarts += 1
        elif k == "load":
            want = disk.get(op["file"])
            if want is not None:
                dg = p.rep.BpmnDiagramGraph()
                if op.get("reuse") and ed is not None:
                    C.expect_ok(ed.create(""), "edit-failed", "starting another diagram")
                    dg = ed.dg
                C.expect_ok(call(lambda: dg.load_diagram_from_xml_file(d + "f%d" % op["file"])), "load-failed", "loading a saved file")
                df = M.diff(M.saved(want), M.loaded(M.snap(dg)))
                if df:
                    raise Violation("reload", "a saved diagram came back different: " + "; ".join(df))
                ed = editor.Editor(dg, call)
                ed.m = M.snap(dg)
                live[op["d"]] = ed
        elif ed is None:
            continue
        elif k == "renew":
            C.expect_ok(ed.create("again"), "edit-failed", "starting another diagram")
            check_queries(ed.dg, ed.m, call, "after starting another diagram")
            for e in op["edits"]:
                x = ed.apply(e)
                if x is not None and x is not True:
                    C.expect_ok(x, "edit-failed", "edit %s" % e[0])
        elif k == "edit":
            for e in op["edits"]:
                if e[0].startswith("bad"):
                    before = M.raw(ed.dg)
                    x = ed.apply(e)
                    if x is None:
                        continue
                    rejected += 1
                    if x.ok:
                        raise Violation("accepted", "an invalid edit (%s) was accepted" % (
                            "gateway direction %r" % e[4] if e[0] == "badgate" else "flow with a node that is not in the diagram"))
                    if M.raw(ed.dg) != before:
                        raise Violation("half-done", "a rejected edit (%s) changed the diagram" % (
                            "gateway direction %r" % e[4] if e[0] == "badgate" else "flow with a node that is not in the diagram"))
                else:
                    x = ed.apply(e)
                    if x is not None and x is not True:
                        C.expect_ok(x, "edit-failed", "edit %s" % e[0])
                    if ed.problems:
                        raise Violation("result", ed.problems[0])
        elif k == "save":
            if op["fmt"] == "xml" and not editor.exportable(M.snap(ed.dg)):
                continue
            name = "f%d" % op["file"] if op["fmt"] == "xml" else "%s%d" % (op["fmt"], op["file"])
            n = len(ed.m["nodes"]) + len(ed.m["flows"])
            o = call(C.export_fn(p, ed.dg, op["fmt"], d, name), faults=op["faults"],
                     measure={"io": 12, "line": 60 + 30 * n, "io:write": 3, "io:close": 2, "io:open_w": 2, "io:mkdir": 1, "io:replace": 1})
            hits += len(o.fired)
            if op["fmt"] == "xml":
                if o.ok:
                    disk[op["file"]] = M.snap(ed.dg)
                else:
                    disk.pop(op["file"], None)      # which version it holds is another property's concern
        elif k == "odd":
            # arguments of a kind no caller should pass: the call may accept or reject them, on a copy of the diagram
            dg = copy.deepcopy(ed.dg)
            before = M.raw(dg)
            name, fn = odd_call(dg, ed, op)
            x = call(fn)
            if not x.ok:
                rejected += 1
                if M.raw(dg) != before:
                    raise Violation("half-done", "a rejected edit (%s, %s) changed the diagram" % (name, x.describe()))
        elif k == "metric":
            call(C.metric_fn(p, ed.dg, op["name"]), line_budget=20000)
        elif k == "layout":
            lay = p.mod("bpmn_diagram_layouter")
            x = call(lambda: lay.generate_layout(ed.dg), line_budget=60000)
            ed.m = geometry(ed.m, M.snap(ed.dg))
        if o is not None and o.crashed:
            p, t = boot()
            live = {}
            restarts += 1
        for slot, e in sorted(live.items()):
            # also identifiers the diagram may get later
            absent = ["nothing", "", "n1", "Task_2"] + [x[4] for y in plan["ops"][j + 1:j + 3] for x in y.get("edits", []) if x[0] == "node" and x[4]]
            for other in list(live.values()) + [type("", (), {"m": z}) for z in disk.values()]:
                absent += list(other.m["nodes"])[:3] + list(other.m["flows"])[:3]
            check_queries(e.dg, e.m, call, "after step %d (%s)" % (j, k), absent)
        w.state([(len(e.m["nodes"]), len(e.m["flows"])) for e in live.values()], rejected, restarts)
    return {"rejected": rejected, "restarts": restarts, "hits": hits,
            "shape": [rejected, restarts, hits] if rejected or restarts or hits else None}


def geometry(m, real):
    """The model with the positions the layout chose."""
    m = editor.clone(m)
    for n, a in m["nodes"].items():
        for g in ("x", "y"):
            if n in real["nodes"] and g in real["nodes"][n]:
                a[g] = real["nodes"][n][g]
    for f, a in m["flows"].items():
        if f in real["flows"] and "waypoints" in real["flows"][f]:
            a["waypoints"] = real["flows"][f]["waypoints"]
    return m
