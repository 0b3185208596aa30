"""C05: failures leave nothing behind; after the faults stop a retry works."""
from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1300, "thorough": 30000}
RULE = ("one script of exports, loads, layouts, queries, metrics and edits is run fault-free in one simulated process and "
        "with failing attempts (storage errors, interrupts, allocation failures, kills with restart, content that cannot be "
        "written, damaged input files) before every "
        "operation in another; after each retry results, files and all diagrams must be the same; non-trivial = distinct "
        "event log of a run in which at least one attempt failed")
STATES = "hash of (operation, fault fired, how the attempt ended)"
REAL = C.REAL
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)"]
ASSUMES = C.ASSUMES + ["an interrupt arrives inside the library's own lines (third-party internals are not interrupted)"]

BUDGET = 30000


def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 3])
    sessions = [C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16, 30)) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        d = rng.randint(0, n - 1)
        k = rng.randint(0, 3)
        if r < 0.45:
            op = {"op": "export", "d": d, "fmt": rng.choice(["xml", "xml", "nodi", "csv", "csv", "dot", "png"]),
                  "file": rng.randint(0, 3)}
            kinds = ("err", "err", "close", "int", "int", "crash")
        elif r < 0.60:
            op = {"op": "load", "d": d, "s": rng.randint(0, n - 1)}
            kinds = ("err", "int", "int")
        elif r < 0.72:
            op = {"op": "layout", "d": d}
            kinds = ("int",)
        elif r < 0.84:
            op = {"op": "metric", "d": d, "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS * 2)}
            kinds = ("int",)
        elif r < 0.92:
            op = {"op": "query", "d": d, "q": C.gen_query(rng)}
            kinds = ("int",)
        else:
            op = {"op": "edit", "d": d, "edits": [editor.gen_edit(rng) for _ in range(rng.randint(1, 4))]}
            k, kinds = 0, ("int",)
        op["fails"] = [C.gen_faults(rng, kinds) for _ in range(k)]
        for j in range(k):
            if op["op"] == "export" and rng.random() < 0.15:
                op["fails"][j] = [{"k": "spoilt", "s": C.gen_spoil(rng)}]
            elif op["op"] == "load" and rng.random() < 0.3:
                op["fails"][j] = [{"k": "garbled", "cut": rng.random(), "how": rng.choice(["torn", "torn", "garbled", "gone"])}]
        ops.append(op)
    return {"sessions": sessions, "ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30),
            "rel": rng.random() < 0.35}


class Side(object):
    """One of the two programs."""

    def __init__(self, w, plan, tag):
        self.w, self.plan, self.tag = w, plan, tag
        self.n = 0
        self.log = []
        self.dir = w.path(tag) + "/"
        os.makedirs(self.dir)
        self.cwd = self.home = w.path("cwd" + tag)
        os.makedirs(self.home)
        self.boot()

    def where(self):
        """The output directory as the program names it."""
        return "../%s/" % self.tag if self.plan.get("rel") else self.dir

    def boot(self):
        self.n += 1
        self.cwd = self.home
        self.p = self.w.proc("%s%d" % (self.tag, self.n))
        self.t = self.w.task(self.p, self.p.name, ent(self.plan["ent"]))
        self.eds = []
        for i, s in enumerate(self.plan["sessions"]):
            self.eds.append(C.make(s, self.p, self.call, self.w.path("in%s%d" % (self.tag, i))))
        for op in self.log:
            self.change(op)
        if self.n > 1:      # a restarted program does not meet the random values of its predecessor again
            self.t.entropy = ent("%s-%d" % (self.plan["ent"], self.n))

    def call(self, fn, **k):
        os.chdir(self.cwd)      # each program has its own
        try:
            return self.w.call(self.t, fn, **k)
        finally:
            self.cwd = os.getcwd()
            os.chdir("/")

    def fn(self, op):
        """The call this operation makes, for the present state; None if it does not apply."""
        ed = self.eds[op["d"]] if op["d"] < len(self.eds) else None
        k = op["op"]
        if k == "load":
            files = C.origin_files(self.plan["sessions"][op["s"]]) if op["s"] < len(self.plan["sessions"]) else None
            if files is None or not files[0]:
                return None
            path = self.dir + "../src%s%d%s" % (self.tag, op["s"], files[0])
            path = os.path.normpath(path)
            if not os.path.exists(path):
                write_file(path, files[1])
            dg = self.p.rep.BpmnDiagramGraph()
            ld = dg.load_diagram_from_xml_file if files[0] == ".bpmn" else dg.load_diagram_from_csv_file

            def load():
                ld(path)
                return dg
            return load
        if ed is None:
            return None
        if k == "export":
            return C.export_fn(self.p, ed.dg, op["fmt"], self.where(), self.w.nm("f%d" % op["file"]))
        if k == "layout":
            lay = self.p.mod("bpmn_diagram_layouter")
            return lambda: lay.generate_layout(ed.dg)
        if k == "metric":
            return C.metric_fn(self.p, ed.dg, op["name"])
        if k == "query":
            return C.query_fn(ed.dg, op["q"], M.snap(ed.dg))

    def hinder(self, op, own):
        """Makes the next attempt fail by itself: content that cannot be written, a damaged input file."""
        if own["k"] == "spoilt":
            return C.spoil(self.eds[op["d"]].dg, own["s"])
        suffix, data = C.origin_files(self.plan["sessions"][op["s"]])
        path = os.path.normpath(self.dir + "../src%s%d%s" % (self.tag, op["s"], suffix))
        c = int(len(data) * own["cut"])
        if own["how"] == "gone":
            os.unlink(path)
        else:
            write_file(path, data[:c] if own["how"] == "torn" else data[:c] + b"\x00\xff<" + data[c + 3:])
        return lambda: write_file(path, data)

    def target(self, op):
        return C.target(op["fmt"], self.dir, self.w.nm("f%d" % op["file"]))

    def change(self, op):
        """Performs an operation fault-free. Returns its outcome or None."""
        if op["op"] == "drop":
            self.eds[op["d"]] = None
            return None
        if op["op"] == "edit":
            ed = self.eds[op["d"]] if op["d"] < len(self.eds) else None
            if ed is not None:
                for e in op["edits"]:
                    o = ed.apply(e)
                    if o is not None and o is not True:
                        C.expect_ok(o, "edit-failed", "edit %s" % e[0])
            return None
        f = self.fn(op)
        if f is None:
            return None
        o = self.call(f, trace=True, line_budget=C.LINE_BUDGET if op["op"] != "metric" else BUDGET)
        if op["op"] == "load" and o.ok and op["d"] < len(self.eds):
            ed = editor.Editor(o.value, self.call)
            ed.m = M.snap(ed.dg)
            self.eds[op["d"]] = ed
        elif op["op"] == "layout" and o.ok:
            ed = self.eds[op["d"]]
            ed.m = M.snap(ed.dg)
        return o

    def view(self):
        """Every diagram, every file: with generated identifiers renamed by order of appearance."""
        out = {}
        for i, ed in enumerate(self.eds):
            out["diagram %d" % i] = None if ed is None else C.Canon().text(M.raw(ed.dg))
        out["working directory"] = os.path.relpath(self.cwd, self.home)
        for name, data in sorted(C.tree(self.dir).items()):
            out["file " + name] = C.Canon().text(data.decode("utf-8", "surrogateescape"))
        return out

    def result(self, op, o):
        if o is None:
            return None
        if op["op"] == "load":
            return "ok" if o.ok else C.outcome_text(o)
        return C.Canon().text(C.outcome_text(o))


def first_diff(a, b):
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return "...%r instead of ...%r" % (b[max(0, k - 20):k + 40], a[max(0, k - 20):k + 40])


def compare(va, vb, when):
    for k in sorted(set(va) | set(vb)):
        if va.get(k) != vb.get(k):
            x, y = va.get(k), vb.get(k)
            if x is None or y is None:
                how = "exists only %s" % ("after failures" if x is None else "without failures")
            else:
                how = first_diff(x, y)
            raise Violation("left-behind", "%s %s differs from what it is when nothing failed: %s" % (when, k, how))


def run(w, plan):
    C.stub_png()
    a, b = Side(w, plan, "a"), Side(w, plan, "b")
    failed = hits = 0
    for op in plan["ops"]:
        oa = a.change(op)
        if oa is None and op["op"] != "edit":
            continue
        if oa is not None and oa.hang:
            # not comparable; forget the diagram on both sides
            for x in (a, b):
                x.log.append({"op": "drop", "d": op["d"]})
                x.change(x.log[-1])
            continue
        name = op["op"] if op["op"] != "export" else op["fmt"] + " export"
        for faults in op["fails"]:
            known = set(C.tree(b.dir))
            f = b.fn(op)
            if f is None:
                break
            own = faults[0] if faults and faults[0]["k"] in ("spoilt", "garbled") else None
            undo = b.hinder(op, own) if own else None
            o = b.call(f, faults=[] if own else faults, measure=oa.measure, line_budget=C.LINE_BUDGET)
            if undo:
                undo()
            w.state(name, own["k"] if own else o.fired, o.describe().split(":")[0])
            hits += len(o.fired) + (1 if own and not o.ok else 0)
            if o.ok or o.crashed or not (o.fired or own):
                pass
            elif op["op"] == "export" and all(x["k"] in ("err", "spoilt") for x in faults) and \
                    not any("unlink" in x or "EROFS" in x or "EIO" in x for x in o.fired):
                stray = sorted(set(C.tree(b.dir)) - known - {os.path.basename(b.target(op))})
                if stray:
                    raise Violation("stray-file", "a %s that %s left %d stray file(s) in the output directory" % (
                        name, o.describe(), len(stray)))
            if o.crashed:
                b.boot()
            elif not o.ok:
                failed += 1
            elif op["op"] == "layout":
                b.eds[op["d"]].m = M.snap(b.eds[op["d"]].dg)
        ob = b.change(op)
        ra, rb = a.result(op, oa), b.result(op, ob)
        if ra != rb:
            raise Violation("retry-differs", "after failed attempts a retried %s gave %s instead of %s" % (
                name, (rb or "nothing")[:200], (ra or "nothing")[:200]))
        if op["op"] == "export":
            # killed attempts may leave their scratch files; nothing else may differ
            for x in set(C.tree(b.dir)) - set(C.tree(a.dir)):
                os.unlink(os.path.join(b.dir, x))
        if op["op"] in ("edit", "load", "layout"):
            a.log.append(op)
            b.log.append(op)
        compare(a.view(), b.view(), "after a retried %s" % name)
    # every other operation, too
    for d in range(len(a.eds)):
        for op in [{"op": "export", "d": d, "fmt": f, "file": 9} for f in ("xml", "nodi", "csv", "dot")] + \
                [{"op": "metric", "d": d, "name": m} for m in ("NOAC_metric", "count_segments", "TNE_metric")]:
            oa, ob = a.change(op), b.change(op)
            if oa is not None and not oa.hang and a.result(op, oa) != b.result(op, ob):
                raise Violation("later-differs", "after failures elsewhere %s of another diagram gave %s instead of %s" % (
                    op.get("fmt") or op.get("name"), b.result(op, ob)[:200], a.result(op, oa)[:200]))
        compare(a.view(), b.view(), "at the end")
    return {"failed": failed, "shape": [failed, hits] if hits else None}
