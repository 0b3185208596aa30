"""C11: a process saved as CSV survives crashes and restarts."""
from .. import csvmodel, editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("histories in which processes are built or imported, saved as CSV to a few files with storage errors, interrupts and "
        "kills, and loaded by later programs under other locales, which save them again; non-trivial = distinct event log of "
        "a run in which an acknowledged file was reloaded")
STATES = "hash of (operation, fault fired, encoding, shape of the process)"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES + ["activity names do not start with the format's keyword 'goto'; conditions are not blank"]

ENCS = ["utf-8", "utf-8", "ascii", "cp1252", "cp1250", "shift_jis", "utf-16"]


def gen(rng, tier, i):
    ops = []
    for k in range(rng.randint(1, 2)):
        ops.append({"op": rng.choice(["build", "build", "import"]), "d": k, "proc": csvmodel.gen(rng, plain=rng.random() < 0.15, ctrl=True),
                    "quote": rng.randint(0, 1)})
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        d = rng.randint(0, 1)
        if r < 0.45:
            ops.append({"op": "save", "d": d, "file": rng.randint(0, 1), "faults": C.gen_faults(rng, p_none=0.5),
                        "short": rng.randint(0, 999) if rng.random() < 0.2 else None})
        elif r < 0.75:
            ops.append({"op": "load", "d": d, "file": rng.randint(0, 1),
                        "short": rng.randint(0, 999) if rng.random() < 0.2 else None})
        elif r < 0.82:
            ops.append({"op": rng.choice(["build", "import"]), "d": d, "proc": csvmodel.gen(rng, ctrl=True), "quote": rng.randint(0, 1)})
        elif r < 0.87:
            ops.append({"op": "layout", "d": d})
        else:
            ops.append({"op": "restart", "kill": rng.random() < 0.5})
    ops += [{"op": "restart", "kill": True}, {"op": "load", "d": 0, "file": 0, "short": None},
            {"op": "load", "d": 1, "file": 1, "short": None}]
    return {"ops": ops, "encs": [rng.choice(ENCS) for _ in range(6)], "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def run(w, plan):
    st = {"n": 0}

    def boot():
        st["n"] += 1
        encs = plan["encs"] or ["utf-8"]
        p = w.proc("p%d" % st["n"], enc=encs[st["n"] % len(encs)])
        t = w.task(p, p.name, ent("%s-%d" % (plan["ent"], st["n"])))
        return p, t
    p, t = boot()
    live = {}       # slot -> [diagram, expected view]
    disk = {}       # file -> list of (expected view or None, bytes or None)
    reloaded = 0
    call = lambda fn, **k: w.call(t, fn, **k)
    d = w.path("out") + "/"
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        o = None
        if k == "build":
            proc = csvmodel.tidy(op["proc"])
            ed = editor.Editor(p.rep.BpmnDiagramGraph(), call)
            C.expect_ok(ed.create(""), "edit-failed", "create")
            csvmodel.build(ed, proc, lambda o: C.expect_ok(o, "edit-failed", "building"))
            live[op["d"]] = [ed.dg, csvmodel.expected(proc)]
        elif k == "import":
            proc = csvmodel.tidy(op["proc"])
            path = w.path("in%d.csv" % j)
            import csv
            write_file(path, csvmodel.render(proc, csv.QUOTE_ALL if op["quote"] else csv.QUOTE_MINIMAL).encode("utf-8"))
            dg = p.rep.BpmnDiagramGraph()
            C.expect_ok(call(lambda: dg.load_diagram_from_csv_file(path)), "load-failed", "loading a CSV file")
            want = csvmodel.expected(proc)
            same(want, csvmodel.observed(dg), "a CSV file was loaded as a different process")
            live[op["d"]] = [dg, want]
        elif k == "save":
            if op["d"] not in live:
                continue
            dg, want = live[op["d"]]
            name = w.nm("f%d.csv" % op["file"])
            ref = call(C.export_fn(p, dg, "csv", w.path("ref") + "/", name), trace=True)
            C.expect_ok(ref, "export-failed", "a CSV export")
            data = read_file(w.path("ref", name))
            o = call(C.export_fn(p, dg, "csv", d, name), faults=op["faults"], measure=ref.measure, short=op["short"])
            old = disk.get(name, [(None, None)])
            if o.ok:
                disk[name] = [(want, data)]
            else:
                if not o.fired:
                    raise Violation("export-failed", "a CSV export %s although nothing failed" % o.describe())
                disk[name] = old + [(want, data)]
            w.state(k, o.fired, p.enc, len(want[0]))
        elif k == "load":
            name = w.nm("f%d.csv" % op["file"])
            got = read_file(d + name)
            cands = [v for v, b in disk.get(name, [(None, None)]) if b == got]
            if not cands:
                raise Violation("lost", "the file of an acknowledged CSV export does not hold what was exported (%s)" %
                                ("it is missing" if got is None else "%d bytes" % len(got)))
            if cands[0] is None:
                continue
            dg = p.rep.BpmnDiagramGraph()
            o = call(lambda: dg.load_diagram_from_csv_file(d + name), short=op["short"])
            C.expect_ok(o, "load-failed", "loading an exported CSV file")
            same(cands[0], csvmodel.observed(dg), "a process saved as CSV came back different")
            C.expect_ok(call(C.export_fn(p, dg, "csv", w.path("again") + "/", name)), "export-failed", "exporting a reloaded process")
            again = read_file(w.path("again", name))
            if again != got:
                raise Violation("not-idempotent", "re-exporting a reloaded CSV file gives a different file: " + first(got, again))
            live[op["d"]] = [dg, cands[0]]
            disk[name] = [(cands[0], got)]
            reloaded += 1
            w.state(k, p.enc, len(cands[0][0]))
        elif k == "layout":
            if op["d"] in live:
                lay = p.mod("bpmn_diagram_layouter")
                dg = live[op["d"]][0]
                call(lambda: lay.generate_layout(dg), line_budget=60000)
        elif k == "restart":
            if op["kill"]:
                w.kill(p)
            p, t = boot()
            live = {}
        if o is not None and o.crashed:
            p, t = boot()
            live = {}
    return {"reloaded": reloaded, "shape": [reloaded] if reloaded else None}


def first(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for x, y in zip(la, lb):
        if x != y:
            return "line %r became %r" % (x[:80], y[:80])
    return "%d lines became %d" % (len(la), len(lb))


def same(want, got, what):
    if want == got:
        return
    for label, a, b in (("activity", want[0], got[0]), ("connection", want[1], got[1])):
        ga = [x for x in a if x not in b]
        gb = [x for x in b if x not in a]
        if ga or gb or len(a) != len(b):
            raise Violation("different", "%s: missing %s %s; unexpected %s" % (what, label, repr(ga[:1])[:200], repr(gb[:1])[:200]))
    raise Violation("different", what)
