"""C01: a diagram saved as BPMN XML survives any crash and restart."""
from .. import editor, model as M
from .common import *  # noqa
from . import common as C
from .. import csvmodel

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("seeded histories of sessions: diagrams built through the API, loaded from generated BPMN files or CSV, edited, "
        "laid out, saved to a few files with faults, killed and restarted; non-trivial = distinct event log of a run in "
        "which at least one acknowledged save was reloaded after a restart")
STATES = "hash of (set of files on disk, which version each may hold, live diagrams) after every operation"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES + [
    "text limited to what XML 1.0 can hold; carriage returns only in attributes; at most one flow between two nodes; "
    "every element has its shape or edge"]

FILES = ["a.bpmn", "b.bpmn", "sub/c.bpmn", "d e é.xml"]


def gen(rng, tier, i):
    ops = []
    faulty = rng.random() < 0.75
    big = rng.random() < 0.1
    n = rng.randint(6, 16) if not big else rng.randint(16, 40)

    def origin(d):
        r = rng.random()
        if r < 0.45:
            size = rng.choice([2, 4, 8, 16, 30]) if rng.random() < 0.9 else 60
            return {"op": "import", "d": d, "doc": M.gen_doc(rng, size=size, selfloops=True), "style": M.gen_style(rng)}
        if r < 0.55:
            return {"op": "csv", "d": d, "proc": csvmodel.gen(rng)}
        return {"op": "new", "d": d, "name": M.gen_text(rng),
                "edits": [["proc", M.gen_text(rng), rng.random() < .5, rng.random() < .5, rng.choice(M.PTYPES)]] +
                [editor.gen_edit(rng) for _ in range(rng.randint(2, 30))]}
    ops.append(origin(0))
    for _ in range(n):
        r = rng.random()
        d = rng.randint(0, 1)
        if r < 0.10:
            ops.append(origin(d))
        elif r < 0.35:
            ops.append({"op": "edit", "d": d, "edits": [editor.gen_edit(rng) for _ in range(rng.randint(1, 5))]})
        elif r < 0.68:
            ops.append({"op": "save", "d": d, "file": rng.choice(FILES[:3] if rng.random() < 0.9 else FILES),
                        "faults": C.gen_faults(rng, p_none=0.45) if faulty else [],
                        "short": rng.randint(0, 999) if rng.random() < 0.2 else None})
        elif r < 0.73:
            ops.append({"op": "noise", "d": d, "fmt": rng.choice(["nodi", "csv", "dot"]),
                        "file": "z%d" % rng.randint(0, 1), "faults": C.gen_faults(rng, p_none=0.5) if faulty else []})
        elif r < 0.78:
            ops.append({"op": "layout", "d": d})
        elif r < 0.90:
            ops.append({"op": "load", "d": d, "file": rng.choice(FILES[:3]),
                        "short": rng.randint(0, 999) if rng.random() < 0.2 else None})
        elif faulty:
            ops.append({"op": "restart", "kill": rng.random() < 0.5})
    return {"ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


class Machine(object):
    def __init__(self, w, plan):
        self.w = w
        self.plan = plan
        self.nproc = 0
        self.durable = {}     # file -> list of snapshots it may hold (None = absent)
        self.measure = {}
        self.acked = 0
        self.reloaded = 0
        self.boot()

    def boot(self):
        self.nproc += 1
        self.p = self.w.proc("p%d" % self.nproc)
        self.t = self.w.task(self.p, self.p.name, ent("%s-%s" % (self.plan["ent"], self.nproc)))
        self.live = {}

    def call(self, fn, **k):
        return self.w.call(self.t, fn, **k)

    def fresh(self):
        return editor.Editor(self.p.rep.BpmnDiagramGraph(), self.call)

    def after(self, o):
        if o is not None and o is not True and o.crashed:
            self.boot()
            return True
        return False

    def path(self, f):
        d, _, b = f.rpartition("/")
        return self.w.path("out") + "/" + (d + "/" if d else "") + self.w.nm(b)

    def edit(self, ed, edits):
        for e in edits:
            o = ed.apply(e)
            if o is not None and o is not True:
                C.expect_ok(o, "edit-failed", "edit %s" % (e[0],))
        df = M.diff(ed.m, M.snap(ed.dg))
        if df and not self.plan.get("loose"):
            raise Violation("edit-model", "after edits the diagram differs from the model: " + "; ".join(df))

    def op(self, op):
        k = op["op"]
        if k == "new":
            ed = self.fresh()
            C.expect_ok(ed.create(op["name"]), "edit-failed", "create")
            self.live[op["d"]] = ed
            self.edit(ed, op["edits"])
        elif k == "import":
            doc = M.tidy(op["doc"])
            if not doc["processes"]:
                return
            path = self.w.path("in.bpmn")
            write_file(path, M.write_doc(doc, op["style"]))
            ed = self.fresh()
            o = self.call(lambda: ed.dg.load_diagram_from_xml_file(path))
            C.expect_ok(o, "load-failed", "loading a generated BPMN file")
            df = M.diff(M.loaded(M.doc_snap(doc, op["style"])), M.loaded(M.snap(ed.dg)))
            if df:
                raise Violation("first-load", "a BPMN file was loaded as a different diagram: " + "; ".join(df))
            ed.m = M.snap(ed.dg)
            self.live[op["d"]] = ed
        elif k == "csv":
            path = self.w.path("in.csv")
            write_file(path, csvmodel.render(csvmodel.tidy(op["proc"])).encode("utf-8"))
            ed = self.fresh()
            o = self.call(lambda: ed.dg.load_diagram_from_csv_file(path))
            C.expect_ok(o, "load-failed", "loading a generated CSV file")
            lay = self.p.mod("bpmn_diagram_layouter")
            o = self.call(lambda: lay.generate_layout(ed.dg), line_budget=C.LINE_BUDGET)
            if not o.ok:
                return
            ed.m = M.snap(ed.dg)
            self.live[op["d"]] = ed
        elif k == "edit":
            ed = self.live.get(op["d"])
            if ed is not None:
                self.edit(ed, op["edits"])
        elif k == "layout":
            ed = self.live.get(op["d"])
            if ed is not None:
                lay = self.p.mod("bpmn_diagram_layouter")
                self.call(lambda: lay.generate_layout(ed.dg), line_budget=C.LINE_BUDGET)
                ed.m = M.snap(ed.dg)
        elif k in ("save", "noise"):
            ed = self.live.get(op["d"])
            if ed is None or not editor.exportable(M.snap(ed.dg)):
                return
            fmt = "xml" if k == "save" else op["fmt"]
            full = self.path(op["file"])
            directory, name = full.rsplit("/", 1)
            directory += "/"
            want = M.saved(M.snap(ed.dg))
            ref = None
            if op["faults"]:
                r = self.call(C.export_fn(self.p, ed.dg, fmt, self.w.path("ref") + "/", name), trace=True)
                ref = r.measure
            o = self.call(C.export_fn(self.p, ed.dg, fmt, directory, name), faults=op["faults"], measure=ref,
                          short=op.get("short"))
            if k == "save":
                if o.ok:
                    self.durable[op["file"]] = [want]
                    self.acked += 1
                else:
                    if not o.fired:
                        raise Violation("save-failed", "saving %s although nothing failed" % o.describe())
                    self.durable[op["file"]] = self.durable.get(op["file"], [None]) + [want]
            self.after(o)
        elif k == "load":
            self.check_file(op["file"], op["d"], op.get("short"))
        elif k == "restart":
            self.w.kill(self.p)
            self.boot()

    def check_file(self, f, d=None, short=None):
        if f not in self.durable:
            return
        allowed = self.durable[f]
        path = self.path(f)
        data = read_file(path)
        if data is None:
            if None in allowed:
                return
            raise Violation("lost", "the acknowledged file %s is gone" % f)
        ed = self.fresh()
        o = self.call(lambda: ed.dg.load_diagram_from_xml_file(path), short=short)
        if not o.ok:
            raise Violation("unloadable", "%s was saved, loading it %s" % (f, o.describe()))
        got = M.loaded(M.snap(ed.dg))
        best = None
        for want in allowed:
            if want is None:
                continue
            df = M.diff(want, got)
            if not df:
                self.reloaded += 1
                self.durable[f] = [want]
                for pid, pr in ed.dg.process_elements.items():
                    ids = pr.get("node_ids")
                    have = [n for n, a in ed.dg.diagram_graph.nodes(data=True) if a.get("process") == pid]
                    if ids is not None and sorted(ids) != sorted(have):
                        raise Violation("node-ids", "process %r lists nodes %s but has %s" % (pid, ids[:5], have[:5]))
                ed.m = M.snap(ed.dg)
                if d is not None:
                    self.live[d] = ed
                return
            best = df if best is None or len(df) < len(best) else best
        raise Violation("differs", "%s reloads as a different diagram: %s" % (f, "; ".join(best)))


def run(w, plan):
    m = Machine(w, plan)
    for i, op in enumerate(plan["ops"]):
        w.log("op", i, op["op"])
        m.op(op)
        w.state(sorted((f, len(v)) for f, v in m.durable.items()),
                sorted((d, len(e.m["nodes"]), len(e.m["flows"])) for d, e in m.live.items()))
    # the end: whatever was acknowledged must be there for a program that starts afresh
    w.kill(m.p)
    m.boot()
    for f in sorted(m.durable):
        m.check_file(f)
    return {"acked": m.acked, "reloaded": m.reloaded, "procs": m.nproc,
            "shape": [m.acked, m.reloaded] if m.reloaded else None}
