"""C19: a diagram copied or sent to another process is the same diagram, and independent of the original."""
import copy
import pickle

from .. import editor, model as M, pkg
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1300, "thorough": 40000}
RULE = ("a diagram is built or loaded and worked on, then copied with deepcopy or pickled into the same or another simulated "
        "program; both go on with their own edits, layouts, queries, metrics and exports in a seeded order, with failing "
        "operations and the death of the other program in between; every result and file of each is compared with the same "
        "history of a diagram that was never copied; non-trivial = distinct event log of a run with operations on both sides")
STATES = "hash of (how it was copied, operation, side, how it ended)"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES


def gen_ops(rng, lo, hi):
    out = []
    for _ in range(rng.randint(lo, hi)):
        r = rng.random()
        if r < 0.4:
            out.append({"op": "edit", "edits": [editor.gen_edit(rng, invalid=0.1) for _ in range(rng.randint(1, 4))]})
        elif r < 0.6:
            out.append({"op": "export", "fmt": rng.choice(["xml", "nodi", "csv", "dot"]), "file": rng.randint(0, 1),
                        "faults": C.gen_faults(rng, ("err", "int")) if rng.random() < 0.3 else []})
        elif r < 0.7:
            out.append({"op": "layout"})
        elif r < 0.85:
            out.append({"op": "metric", "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS)})
        else:
            out.append({"op": "query", "q": C.gen_query(rng)})
    return out


def gen(rng, tier, i):
    return {"origin": C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(2, 4, 8, 16)), "pre": gen_ops(rng, 0, 3),
            "how": rng.choice(["deepcopy", "deepcopy", "pickle", "pickle", "elsewhere", "elsewhere", "elsewhere"]),
            "proto": rng.choice([2, 3, 4, 5]), "a": gen_ops(rng, 1, 4), "b": gen_ops(rng, 1, 4),
            "order": [rng.randint(0, 1) for _ in range(8)], "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


class Side(object):
    def __init__(self, w, plan, name, proc=None):
        self.w, self.plan, self.name = w, plan, name
        self.p = proc if proc is not None else w.proc(name)
        self.t = w.task(self.p, name, ent("%s-%s" % (plan["ent"], name)))
        self.dir = w.path(name) + "/"
        os.makedirs(self.dir)
        self.ed = None
        self.log = []
        self.over = False

    def call(self, fn, **k):
        return self.w.call(self.t, fn, **k)

    def step(self, op):
        """Returns False when the operation does not come to an end (the history stops there)."""
        ed = self.ed
        k = op["op"]
        if k == "edit":
            for e in op["edits"]:
                o = ed.apply(e)
                if o is not None and o is not True:
                    self.log.append("edit " + C.outcome_text(o))
            if ed.problems:
                self.log.append("problem: " + ed.problems[0])
        elif k == "export":
            fn = C.export_fn(self.p, ed.dg, op["fmt"], self.dir, "f%d.%s" % (op["file"], op["fmt"]))
            if op["faults"]:
                self.call(fn, faults=op["faults"], measure={"io": 9, "io:write": 2, "line": 300})
            o = self.call(fn)
            self.log.append("%s export %s" % (op["fmt"], C.outcome_text(o)))
        elif k == "layout":
            lay = self.p.mod("bpmn_diagram_layouter")
            o = self.call(lambda: lay.generate_layout(ed.dg), line_budget=40000)
            if o.hang:
                self.over = True
                return
            ed.m = M.snap(ed.dg)
            self.log.append("layout " + C.outcome_text(o))
        elif k == "metric":
            o = self.call(C.metric_fn(self.p, ed.dg, op["name"]), line_budget=20000)
            self.log.append("%s %s" % (op["name"], "not finished" if o.hang else C.outcome_text(o)))
        elif k == "query":
            o = self.call(C.query_fn(ed.dg, op["q"], M.snap(ed.dg)))
            self.log.append("query " + C.outcome_text(o))
        self.log.append(M.raw(ed.dg))

    def view(self):
        c = C.Canon()
        return [c.text(x) for x in self.log], {n: C.Canon().text(b.decode("utf-8", "surrogateescape")) for n, b in C.tree(self.dir).items()}


def scribble(things):
    for x in things:
        if isinstance(x, dict):
            scribble(list(x.values()))
            x["edited in place"] = "x"
        elif isinstance(x, list):
            scribble(list(x))
            x.append("edited in place")


def run(w, plan):
    a = Side(w, plan, "a")
    a.ed = C.make(plan["origin"], a.p, a.call, w.path("in"))
    if a.ed is None:
        return {}
    for op in plan["pre"]:
        if not a.over:
            a.step(op)
    if a.over:
        return {}
    b = Side(w, plan, "b", None if plan["how"] == "elsewhere" else a.p)
    if plan["how"] == "deepcopy":
        o = a.call(lambda: copy.deepcopy(a.ed.dg))
    else:
        o = a.call(lambda: pickle.dumps(a.ed.dg, plan["proto"]))
        C.expect_ok(o, "not-copied", "pickling a diagram")
        data = o.value
        o = b.call(lambda: (b.p.rep, pickle.loads(data))[1])
    C.expect_ok(o, "not-copied", "copying a diagram (%s)" % plan["how"])
    b.ed = editor.Editor(o.value, b.call)
    b.ed.m = editor.clone(a.ed.m)
    if M.raw(b.ed.dg) != M.raw(a.ed.dg):
        raise Violation("differs", "a diagram copied by %s differs from the original" % plan["how"])
    del a.log[:]
    todo = [list(plan["a"]), list(plan["b"])]
    for side in plan["order"] + [0] * 99 + [1] * 99:
        s = (a, b)[side]
        if todo[side] and not s.over:
            op = todo[side].pop(0)
            s.step(op)
            w.state(plan["how"], op["op"], side, [x.split(" ")[:2] for x in s.log[-2:-1]])
    for s, ops in ((a, plan["a"]), (b, plan["b"])):
        r = Side(w, plan, "ref-" + s.name)
        r.ed = C.make(plan["origin"], r.p, r.call, w.path("in-" + s.name))
        if r.ed is None:
            return {}
        for op in plan["pre"]:
            r.step(op)
        for n in os.listdir(r.dir):
            if s is b:
                os.unlink(r.dir + n)
        del r.log[:]
        if s.over:
            return {}
        for op in ops:
            r.step(op)
        (lx, fx), (ly, fy) = r.view(), s.view()
        who = "the original" if s is a else "the copy"
        for x, y in zip(lx, ly):
            if x != y:
                i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                raise Violation("interference", "after a copy by %s, %s of %s differs from a diagram never copied: ...%r instead of ...%r" % (
                    plan["how"], x.split(" ")[0][:20], who, y[max(0, i - 30):i + 60], x[max(0, i - 30):i + 60]))
        for n in sorted(set(fx) | set(fy)):
            if fx.get(n) != fy.get(n):
                raise Violation("file-differs", "after a copy by %s, file %s written from %s differs from one of a diagram never copied" % (plan["how"], n, who))
    # at last everything a caller can edit in place is edited in one of them
    x, y = (a, b) if plan["order"][:1] == [0] else (b, a)
    before = M.raw(y.ed.dg)
    scribble([x.ed.dg.process_elements, x.ed.dg.sequence_flows, x.ed.dg.collaboration, x.ed.dg.diagram_attributes, x.ed.dg.plane_attributes] +
             [z for _, z in x.ed.dg.diagram_graph.nodes(data=True)] + [z for _, _, z in x.ed.dg.diagram_graph.edges(data=True)])
    if M.raw(y.ed.dg) != before:
        raise Violation("shared", "after a copy by %s, editing dictionaries and lists of one diagram in place shows in the other" % plan["how"])
    return {"shape": [plan["how"], len(plan["a"]), len(plan["b"])] if plan["a"] and plan["b"] else None}
