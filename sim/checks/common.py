"""Pieces shared by the checks."""
import os
import random
import threading

from .. import core, editor, model as M
from ..core import Violation

REAL = ["bpmn_python (whole package, executed from the repository's working tree)", "networkx", "pandas",
        "xml.etree / xml.dom.minidom / expat", "io.Buffered*/TextIOWrapper", "a real file system directory"]
STUB = ["system calls below the scratch root (interposed: real effect, simulated failure, order and death)",
        "os.urandom", "clock", "locale encoding", "the plotting calls of networkx and matplotlib (recorded)"]
ASSUMES = ["a crash is the death of the process: what reached the operating system survives (no power loss)",
           "networkx, pandas, expat and the Python standard library behave as documented",
           "one process's module state is what a restart resets; third-party module state is shared"]

FORMATS = ["xml", "nodi", "csv", "dot", "png"]


def gen_faults(rng, kinds=("err", "crash", "int", "close"), p_none=0.0):
    """A fault list for one operation."""
    if rng.random() < p_none:
        return []
    k = rng.choice(list(kinds))
    if k == "err":
        f = {"k": "err", "frac": rng.random(), "r": rng.randint(0, 359), "cut": rng.choice([0, 0, rng.random(), 1.0])}
        if rng.random() < 0.4:
            f["sticky"] = True
        if rng.random() < 0.5:
            f["on"] = rng.choice([["write"], ["write"], ["open_w"], ["close"], ["mkdir"], ["replace"],
                                  ["read"], ["open_r"]])
        return [f]
    if k == "close":
        return [{"k": "err", "frac": rng.random(), "r": rng.randint(0, 59), "on": ["close"]}]
    if k == "crash":
        f = {"k": "crash", "frac": rng.random(), "cut": rng.choice([0, rng.random(), rng.random(), 1.0])}
        if rng.random() < 0.5:
            f["on"] = ["write"]
        return [f]
    f = {"k": "int", "frac": rng.random(), "exc": rng.choice(["kbd", "kbd", "mem"])}
    if rng.random() < 0.5:
        f["site"] = rng.random()
    return [f]


def gen_bufsize(rng):
    return rng.choice([8192, 8192, 8192, 64, 256, 1024, 4096])


def ent(seed):
    """An operating-system random source: a seeded stream of never repeating 16-byte values."""
    return random.Random("entropy-%s" % (seed,))


def export_fn(proc, dg, fmt, directory, name):
    """The call that writes one document; directory ends with a separator."""
    if fmt == "xml":
        return lambda: dg.export_xml_file(directory, name)
    if fmt == "nodi":
        return lambda: dg.export_xml_file_no_di(directory, name)
    if fmt == "csv":
        return lambda: dg.export_csv_file(directory, name)
    vis = proc.mod("bpmn_diagram_visualizer")
    if fmt == "dot":
        return lambda: vis.bpmn_diagram_to_dot_file(dg, directory + name)
    if fmt == "png":
        return lambda: vis.bpmn_diagram_to_png(dg, directory + name)
    raise ValueError(fmt)


def target(fmt, directory, name):
    return directory + name + {"dot": ".dot", "png": ".png"}.get(fmt, "")


def stub_png():
    """The rendering program (graphviz) is replaced by a function of the drawing's text."""
    import pydotplus
    if not getattr(pydotplus.graphviz.Dot, "_vsim", False):
        def create(self, prog=None, format="ps"):
            # (its own to_string() needs exponential time to quote some long texts)
            def plain(o):
                if isinstance(o, dict):
                    return [(str(k), plain(o[k])) for k in o if not str(k).startswith("parent")]
                if isinstance(o, (list, tuple)):
                    return [plain(x) for x in o]
                return str(o)
            return b"\x89PNG" + repr(plain(self.obj_dict)).encode("utf-8")
        pydotplus.graphviz.Dot.create = create
        pydotplus.graphviz.Dot._vsim = True


def read_file(path):
    """What is on the simulated disk, read by the harness."""
    try:
        with core.R_open(path, "rb") as f:
            return f.read()
    except FileNotFoundError:
        return None


def write_file(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with core.R_open(path, "wb") as f:
        f.write(data)


def need(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def expect_ok(o, kind, what):
    if not o.ok:
        raise Violation(kind, "%s %s although nothing failed" % (what, o.describe()))


def build_doc_file(w, path, doc, style):
    write_file(path, M.write_doc(doc, style))


LINE_BUDGET = 400000

# -- diagrams and where they come from -----------------------------------------------------------

PLAIN_TYPES = M.TASKS[:1] * 4 + ["subProcess", "exclusiveGateway", "parallelGateway", "inclusiveGateway", "startEvent",
                                 "endEvent", "intermediateCatchEvent", "intermediateThrowEvent", "eventBasedGateway",
                                 "complexGateway"]


def gen_origin(rng, kinds=("doc", "csv", "new"), sizes=(2, 4, 8, 16), edits=(2, 20), ids=True, **kw):
    """Where a diagram comes from (JSON)."""
    from .. import csvmodel
    k = rng.choice(list(kinds))
    if k == "doc":
        return {"from": "doc", "doc": M.gen_doc(rng, size=rng.choice(list(sizes)), selfloops=rng.random() < 0.3, **kw),
                "style": M.gen_style(rng)}
    if k == "csv":
        return {"from": "csv", "proc": csvmodel.gen(rng)}
    if k == "block":
        return {"from": "block", "proc": csvmodel.gen(rng, plain=rng.random() < 0.3)}
    return {"from": "new", "name": M.gen_text(rng),
            "edits": [["proc", M.gen_text(rng), rng.random() < .5, rng.random() < .5, rng.choice(M.PTYPES)]] +
            [editor.gen_edit(rng, ids=ids) for _ in range(rng.randint(*edits))]}


def origin_files(origin):
    """[(suffix, bytes)] the origin needs on disk, or None when it is empty."""
    from .. import csvmodel
    if origin["from"] == "doc":
        doc = M.tidy(origin["doc"])
        if not doc["processes"]:
            return None
        return ".bpmn", M.write_doc(doc, origin["style"])
    if origin["from"] == "csv":
        return ".csv", csvmodel.render(csvmodel.tidy(origin["proc"])).encode("utf-8")
    return "", b""


def make(origin, proc, call, path, layout_csv=True, quiet=False):
    """Builds or loads the diagram inside the simulation. Returns an Editor, or None if the origin is degenerate.
    ``path`` is a file name stem on the simulated disk the harness may put input files at."""
    from .. import csvmodel
    files = origin_files(origin)
    if files is None:
        return None
    suffix, data = files
    ed = editor.Editor(proc.rep.BpmnDiagramGraph(), call)
    k = origin["from"]
    if k == "doc" or k == "csv":
        write_file(path + suffix, data)
        if k == "doc":
            o = call(lambda: ed.dg.load_diagram_from_xml_file(path + suffix))
        else:
            o = call(lambda: ed.dg.load_diagram_from_csv_file(path + suffix))
        expect_ok(o, "load-failed", "loading a generated %s file" % suffix[1:])
        if k == "csv" and layout_csv:
            lay = proc.mod("bpmn_diagram_layouter")
            o = call(lambda: lay.generate_layout(ed.dg), line_budget=LINE_BUDGET)
            if not o.ok:
                return None
        ed.m = M.snap(ed.dg)
        return ed
    if k == "block":
        expect_ok(ed.create(""), "edit-failed", "create")
        csvmodel.build(ed, csvmodel.tidy(origin["proc"]), lambda o: expect_ok(o, "edit-failed", "building"))
        return ed
    expect_ok(ed.create(origin["name"]), "edit-failed", "create")
    for e in origin["edits"]:
        o = ed.apply(e)
        if o is not None and o is not True:
            expect_ok(o, "edit-failed", "edit %s" % e[0])
    return ed


SPOILT = ["\ud800", "a\udfffb", None, 7, ["x"], "absent"]


def gen_spoil(rng):
    """Content a program put into a diagram that an export cannot write: it fails by itself, anywhere on the way."""
    return [rng.choice(["node", "node", "node", "flow", "flow", "process", "diagram", "plane"]), rng.randint(0, 99),
            rng.randint(0, 5), rng.choice(SPOILT)]


def spoil(dg, s):
    """Puts it there; returns the function that takes it out again, or None if there is no such place."""
    where, i, j, v = s
    if where == "node":
        xs = [a for _, a in dg.diagram_graph.nodes(data=True)]
        keys = ["node_name", "x", "width", "type", "node_name", "y"]
    elif where == "flow":
        xs = [a for _, _, a in dg.diagram_graph.edges(data=True)]
        keys = ["name", "id", "waypoints", "name", "sourceRef", "name"]
    elif where == "process":
        xs, keys = list(dg.process_elements.values()), ["name", "isClosed", "processType"]
    elif where == "diagram":
        xs, keys = [dg.diagram_attributes], ["name", "id"]
    else:
        xs, keys = [dg.plane_attributes], ["id", "bpmnElement"]
    if not xs:
        return None
    d, k = xs[i % len(xs)], keys[j % len(keys)]
    if k not in d:
        return None
    before = list(d.items())

    def undo():
        d.clear()
        d.update(before)
    if v == "absent":
        del d[k]
    else:
        d[k] = [(v, "1"), ("1", v)] if k == "waypoints" else v
    return undo


METRICS = ["get_nodes_count", "get_all_gateways", "get_gateway_counts", "get_events_counts", "get_activities_counts",
           "all_activities_count", "all_gateways_count", "all_control_flow_elements_count", "all_events_count",
           "TNSE_metric", "TNIE_metric", "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric",
           "NumberOfNodes_metric", "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric",
           "AverageGatewayDegree_metric", "DurfeeSquare_metric", "PerfectSquare_metric"]
DRAW = ["visualize_diagram"]
LAYOUT_METRICS = ["count_crossing_points", "count_segments", "compute_longest_path", "compute_longest_path_tasks"]
QUERIES = [["get_nodes"], ["get_nodes", "task"], ["get_nodes", "exclusiveGateway"], ["get_nodes", "startEvent"],
           ["get_flows"], ["get_nodes_positions"], ["get_nodes_id_list_by_type", "task"],
           ["get_nodes_id_list_by_type", "subProcess"], ["node", 0], ["flow", 0], ["pnodes", 0], ["pflows", 0]]


def metric_fn(proc, dg, name):
    if name in DRAW:
        return lambda: drawn(lambda: getattr(proc.mod("bpmn_diagram_visualizer"), name)(dg))
    mod = proc.mod("diagram_layout_metrics" if name in LAYOUT_METRICS else "bpmn_diagram_metrics")
    return lambda: plain(getattr(mod, name)(dg))


_canvas = {}


def stub_drawing():
    """The plotting functions record what they are asked to draw."""
    import networkx as nx
    if getattr(nx, "_vsim_draw", False):
        return
    nx._vsim_draw = True

    def stand_in(name):
        def draw(G, pos=None, *args, **kw):
            got = [name, ["%s %s" % x for x in dict(pos or {}).items()]]
            for a in list(args) + [kw[k] for k in sorted(kw)]:
                got.append(["%s %s" % x for x in a.items()] if isinstance(a, dict) else
                           [str(x) for x in a] if isinstance(a, (list, tuple, set, frozenset)) or hasattr(a, "__next__") else str(a))
            _canvas.setdefault(threading.get_ident(), []).append(got)
        draw.__name__ = name
        return draw
    for n in ("draw", "draw_networkx", "draw_networkx_nodes", "draw_networkx_edges", "draw_networkx_labels",
              "draw_networkx_edge_labels"):
        setattr(nx, n, stand_in(n))


def drawn(fn):
    """The drawing a call makes, as a value."""
    me = threading.get_ident()
    _canvas.pop(me, None)
    try:
        fn()
        return _canvas.get(me, [])
    finally:
        _canvas.pop(me, None)


def plain(v):
    """Lazy results are consumed inside the call."""
    return list(v) if hasattr(v, "__next__") else v


def query_fn(dg, q, m):
    """A query call; ids are picked from the model m."""
    k = q[0]
    if k == "node":
        ids = list(m["nodes"])     # in order of creation
        i = ids[q[1] % len(ids)] if ids else "none"
        return lambda: dg.get_node_by_id(i)
    if k == "flow":
        ids = list(m["flows"])
        i = ids[q[1] % len(ids)] if ids else "none"
        return lambda: dg.get_flow_by_id(i)
    if k in ("pnodes", "pflows"):
        ids = list(m["procs"]) + [n for n, a in m["nodes"].items() if a.get("type") == "subProcess"]
        i = ids[q[1] % len(ids)] if ids else "none"
        if k == "pnodes":
            return lambda: dg.get_nodes_list_by_process_id(i)
        return lambda: dg.get_flows_list_by_process_id(i)
    if k == "get_nodes":
        return lambda: list(dg.get_nodes(*q[1:]))
    if k == "get_flows":
        return lambda: list(dg.get_flows())
    return lambda: plain(getattr(dg, k)(*q[1:]))


def gen_query(rng):
    q = list(rng.choice(QUERIES if rng.random() < 0.6 else QUERIES[-4:]))
    if q[0] in ("node", "flow", "pnodes", "pflows"):
        q[1] = rng.randint(0, 99)
    return q


def show(v):
    """A value returned by the library, as text."""
    if isinstance(v, float):
        return "%.9g" % v
    if isinstance(v, dict):
        # whatever their order, but not by generated identifiers, which differ between the runs that are compared
        return "{%s}" % ", ".join(sorted(("%r: %s" % (k, show(x)) for k, x in v.items()), key=lambda t: UUID.sub("U", t)))
    if isinstance(v, (list, tuple)):
        return "[%s]" % ", ".join(show(x) for x in v)
    return _re.sub(r" at 0x[0-9a-f]+", "", repr(v))


def outcome_text(o):
    return "ok %s" % show(o.value) if o.ok else ("hang" if o.hang else "raised %s" % (o.exc or "").split(":")[0])


import re as _re  # noqa: E402

UUID = _re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|[0-9a-f]{32}")


class Canon(object):
    """Renames generated identifiers by order of appearance, so runs can be compared."""

    def __init__(self):
        self.names = {}

    def add(self, ids):
        for i in ids:
            if isinstance(i, str) and i not in self.names:
                self.names[i] = "G%d" % len(self.names)

    def text(self, s):
        for i in sorted(self.names, key=len, reverse=True):
            if len(i) > 8:
                s = s.replace(i, self.names[i])
        return UUID.sub(lambda m: self.names.setdefault(m.group(0), "U%d" % len(self.names)), s)


def gen_switches(rng, tasks, points, n=None):
    """Interleaving decisions: where control passes on and to whom, in one of several styles."""
    style = rng.random()
    if n is None:
        n = rng.choice([1, 2, 3, 5, 10, 20, 60])
    if style < 0.25:      # few preemptions far apart
        return [[int(rng.random() ** 2 * points), rng.randint(0, 7)] for _ in range(rng.randint(1, 3))]
    if style < 0.5:       # bursts of single steps
        out = [[int(rng.random() * points), rng.randint(0, 7)]]
        return out + [[rng.randint(0, 2), rng.randint(0, 7)] for _ in range(n * 4)]
    if style < 0.75:      # round robin with one period
        k = rng.randint(1, 40)
        return [[k, 0] for _ in range(n * 6)]
    return [[int(rng.expovariate(1.0 / max(2.0, points / (n + 1.0)))), rng.randint(0, 7)] for _ in range(n)]


def gen_rel_switches(rng, n=None):
    """Interleaving decisions whose gaps are either absolute or (floats) fractions of the whole run."""
    style = rng.random()
    if n is None:
        n = rng.choice([1, 2, 3, 5, 10, 20, 40])
    who = lambda: rng.randint(0, 7)
    if style < 0.25:      # few preemptions anywhere
        return [[rng.random() ** 1.5 * 0.999, who()] for _ in range(rng.randint(1, 3))]
    if style < 0.5:       # bursts of single steps
        out = []
        for _ in range(rng.randint(1, 3)):
            out.append([rng.random() * 0.5, who()])
            out += [[rng.randint(0, 3), who()] for _ in range(n * 3)]
        return out
    if style < 0.75:      # round robin with one period
        k = rng.choice([rng.randint(1, 9), rng.randint(10, 80), rng.randint(80, 400)])
        return [[rng.random() * 0.3, 0]] + [[k, 0] for _ in range(n * 6)]
    return [[min(0.9, rng.expovariate(n + 1.0)), who()] for _ in range(n)]


def abs_switches(switches, points):
    return [[int(g * points) if isinstance(g, float) else g, c] for g, c in switches]


def tree(root):
    """Every file below root: {relative name: bytes}."""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = read_file(p)
    return out


_warm = []


def warm_up():
    """Fills the caches of the standard library and third parties (lazy imports, compiled patterns) so that the
    number of traced lines is the same in every run of this host process."""
    if _warm:
        return
    _warm.append(1)
    from .. import hoststate, pkg
    stub_png()
    stub_drawing()
    pkg.fresh()     # whatever modules do to the process when they are imported
    settings = hoststate.save()
    try:
        _warm_up()
    finally:
        hoststate.restore(settings)


def _warm_up():
    for s in range(2):
        rng = random.Random(s)
        w = core.World()
        with core.active(w):
            p = w.proc("warm")
            t = w.task(p, "warm")
            call = lambda fn, **k: w.call(t, fn, **dict(k, trace=True, scope="all"))
            # the interpreter starts delivering opcode events only after the first frame that asked for them
            for gran in ("opcode", "opcode", "line"):
                call(lambda: p.rep.BpmnDiagramGraph().create_new_diagram_graph("warm"), gran=gran)
            for k in ("doc", "csv", "new", "block"):
                try:
                    ed = make(gen_origin(rng, (k,)), p, call, w.path("in" + k))
                except Exception:
                    continue
                if ed is None:
                    continue
                for fmt in FORMATS:
                    d = w.path("o") + "/"
                    os.makedirs(d, exist_ok=True)
                    for f in ([], [{"k": "err", "at": 3}], [{"k": "err", "at": 1, "on": ["write"]}],
                              [{"k": "int", "at": 50}]):
                        call(export_fn(p, ed.dg, fmt, d, "f" + k), faults=f)
                lay = p.mod("bpmn_diagram_layouter")
                call(lambda: lay.generate_layout(ed.dg), line_budget=20000)
                for m in METRICS + DRAW + LAYOUT_METRICS:
                    call(metric_fn(p, ed.dg, m), line_budget=4000)
                for f in ("x", "y"):
                    call(lambda: p.rep.BpmnDiagramGraph().load_diagram_from_xml_file(d + "missing"))
                    call(lambda: p.rep.BpmnDiagramGraph().load_diagram_from_csv_file(d + "missing"))
                    call(lambda: p.rep.BpmnDiagramGraph().load_diagram_from_csv_file(d + "f" + k))
    del core._frozen[:]
