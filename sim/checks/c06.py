"""C06: repeated save and restart cycles do not drift."""
import collections
import xml.etree.ElementTree as eTree

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1200, "thorough": 30000}
RULE = ("a diagram is saved, the program is killed or ends, a new one loads the file and saves it again, for up to eight "
        "generations, with failing and killed saves, exports to other formats, queries and metrics in between; "
        "non-trivial = distinct event log of a run with at least two generations")
STATES = "hash of (generation, operations in between and how they ended)"
REAL = C.REAL
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)"]
ASSUMES = C.ASSUMES + ["text limited to what XML 1.0 can hold; at most one flow between two nodes; every element has its "
                       "shape or edge"]

BUDGET = 25000


def gen(rng, tier, i):
    gens = []
    big = rng.random() < 0.05
    for _ in range(rng.randint(2, 4) if rng.random() < 0.85 else rng.randint(5, 8)):
        between = []
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            if r < 0.45:
                between.append({"op": "export", "fmt": rng.choice(["xml", "nodi", "csv", "dot", "png"]),
                                "file": rng.randint(0, 1), "faults": C.gen_faults(rng, ("err", "close", "int"), p_none=0.5)})
            elif r < 0.75:
                between.append({"op": "metric", "name": rng.choice(C.METRICS + C.LAYOUT_METRICS * 3),
                                "faults": [{"k": "int", "frac": rng.random()}] if rng.random() < 0.2 else []})
            else:
                between.append({"op": "query", "q": C.gen_query(rng)})
        gens.append({"items": between, "fails": [C.gen_faults(rng, ("err", "crash", "int", "close"))
                                                 for _ in range(rng.choice([0, 0, 1, 2]))],
                     "same": rng.random() < 0.6, "restart": rng.random() < 0.8,
                     "short": rng.randint(0, 999) if rng.random() < 0.2 else None})
    o = C.gen_origin(rng, ("doc", "doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16, 30, 60) if big else (2, 4, 8, 16, 30))
    return {"origin": o, "sessions": gens, "metrics": [rng.choice(C.METRICS + C.LAYOUT_METRICS) for _ in range(5)],
            "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def metrics(p, call, dg, names):
    out = []
    for n in names:
        o = call(C.metric_fn(p, dg, n), line_budget=BUDGET)
        if o.hang:
            out.append("not finished")
        elif n in ("get_all_gateways",):
            out.append("%d" % len(o.value) if o.ok else C.outcome_text(o))
        elif n.startswith("compute_longest"):
            # several paths may be longest; their length is the metric
            if o.ok and isinstance(o.value, tuple):
                out.append("ok " + C.show([len(o.value[0]), o.value[1]]))
            else:
                out.append("ok %d" % len(o.value) if o.ok else C.outcome_text(o))
        else:
            out.append(C.outcome_text(o))
    return out


def lines(data):
    return sorted(x.strip() for x in data.decode("utf-8").split("\n") if x.strip())


def content(data):
    """Every element with its attributes and, if it holds no other elements, its exact text."""
    out = []
    for e in eTree.fromstring(data).iter():
        out.append((e.tag, tuple(sorted(e.attrib.items())), (e.text or "") if not len(e) else ""))
    return sorted(out)


def drift(a, b):
    ca, cb = collections.Counter(a), collections.Counter(b)
    gone, new = list((ca - cb).elements()), list((cb - ca).elements())
    return "%d line(s) gone, %d new; gone: %s; new: %s" % (len(gone), len(new), [g[:110] for g in gone[:2]], [g[:110] for g in new[:2]])


def run(w, plan):
    C.stub_png()
    n = [0]

    def boot():
        n[0] += 1
        p = w.proc("p%d" % n[0])
        return p, w.task(p, p.name, ent("%s-%d" % (plan["ent"], n[0])))
    p, t = boot()
    call = lambda fn, **k: w.call(t, fn, **k)
    ed = C.make(plan["origin"], p, call, w.path("in"))
    if ed is None or not editor.exportable(M.snap(ed.dg)):
        return {}
    dg = ed.dg
    d = w.path("out") + "/"
    C.expect_ok(call(C.export_fn(p, dg, "xml", d, w.nm("first"))), "export-failed", "the first export")
    first = lines(read_file(d + w.nm("first")))
    first_content = content(read_file(d + w.nm("first")))
    base = metrics(p, call, dg, plan["metrics"])
    file = w.nm("first")
    done = 0
    for g, s in enumerate(plan["sessions"]):
        # a later program
        if s["restart"]:
            w.kill(p)
            p, t = boot()
        dg = p.rep.BpmnDiagramGraph()
        C.expect_ok(call(lambda: dg.load_diagram_from_xml_file(d + file), short=s["short"]), "load-failed",
                    "loading generation %d" % g)
        ms = metrics(p, call, dg, plan["metrics"])
        for name, x, y in zip(plan["metrics"], base, ms):
            if x != y and "not finished" not in (x, y):
                raise Violation("metric-drift", "%s of generation %d is %s, was %s" % (name, g + 1, y[:120], x[:120]))
        m = M.snap(dg)
        for op in s["items"]:
            if op["op"] == "export":
                o = call(C.export_fn(p, dg, op["fmt"], w.path("other") + "/", "z%d" % op["file"]), faults=op["faults"])
            elif op["op"] == "metric":
                o = call(C.metric_fn(p, dg, op["name"]), faults=op["faults"], line_budget=BUDGET)
            else:
                o = call(C.query_fn(dg, op["q"], m))
            w.state(g, op["op"], op.get("fmt") or op.get("name"), o.fired, o.ok)
        target = file if s["same"] else w.nm("gen%d" % g)
        for faults in s["fails"]:
            o = call(C.export_fn(p, dg, "xml", d, target), faults=faults,
                     measure={"io": 12, "line": 300 + 30 * len(m["nodes"]), "io:write": 3, "io:open_w": 2, "io:close": 2})
            w.state(g, "save", o.fired, o.ok)
            if o.crashed:
                p, t = boot()
                dg = p.rep.BpmnDiagramGraph()
                C.expect_ok(call(lambda: dg.load_diagram_from_xml_file(d + file)), "load-failed",
                            "loading generation %d after a crash" % g)
        C.expect_ok(call(C.export_fn(p, dg, "xml", d, target), short=s["short"]), "export-failed", "a later export")
        file = target
        now = lines(read_file(d + file))
        if now != first:
            raise Violation("drift", "generation %d of the file differs from the first: %s" % (g + 1, drift(first, now)))
        now = content(read_file(d + file))
        if now != first_content:
            new = [x for x in now if x not in first_content] or now
            raise Violation("drift", "generation %d of the file holds other text than the first, e.g. %s" % (
                g + 1, repr(new[0])[:160]))
        done += 1
    return {"generations": done, "shape": [done] if done >= 2 else None}
