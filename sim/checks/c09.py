"""C09: generated identifiers never collide, across sessions and diagrams."""
import json
import uuid

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("histories in which several programs, threads, forked children and later sessions build diagrams, save, load and "
        "build further, with a random source that never repeats a 128-bit value but may vary in two bytes only, a caller "
        "who reseeds Python's random module, and a clock that jumps back; every generated identifier is recorded; "
        "non-trivial = distinct event log of a run that generated at least ten identifiers")
STATES = "hash of (kind of session, number of identifiers so far / 8, mode of the random source)"
REAL = C.REAL + ["os.fork (a real fork of the simulated process)", "real Python threads under the simulator's scheduler"]
STUB = C.STUB
ASSUMES = C.ASSUMES + ["the operating system's random source never returns the same 16 bytes twice"]

SPOTS = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14]     # bytes 6 and 8 are partly fixed in a random UUID


def gen_edits(rng, lo, hi):
    return [editor.gen_edit(rng, names=lambda: "n", pokes=False) for _ in range(rng.randint(lo, hi))]


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        p, d = rng.randint(0, 1), rng.randint(0, 1)
        if r < 0.22:
            ops.append({"op": "new", "p": p, "d": d, "again": rng.random() < 0.4, "edits": [["proc", "p", False, False, "None"]] + gen_edits(rng, 1, 10)})
        elif r < 0.45:
            ops.append({"op": "edit", "p": p, "d": d, "edits": gen_edits(rng, 1, 8)})
        elif r < 0.53:
            ops.append({"op": "save", "p": p, "d": d, "file": rng.randint(0, 1),
                        "faults": C.gen_faults(rng, ("err", "int")) if rng.random() < 0.2 else []})
        elif r < 0.61:
            ops.append({"op": "load", "p": p, "d": d, "file": rng.randint(0, 1)})
        elif r < 0.64:
            ops.append({"op": "import", "p": p, "d": d, "origin": C.gen_origin(rng, ("doc", "csv"), sizes=(2, 4))})
        elif r < 0.72:
            ops.append({"op": "restart", "p": p, "kill": rng.random() < 0.5})
        elif r < 0.79:
            ops.append({"op": "seed", "p": p, "n": rng.randint(0, 2)})
        elif r < 0.85:
            ops.append({"op": "clock", "ns": rng.choice([-1, -1000, -10 ** 6, -10 ** 9, -3600 * 10 ** 9, 10 ** 9, -86400 * 10 ** 12])})
        elif r < 0.92:
            ops.append({"op": "threads", "p": p, "tasks": [{"edits": gen_edits(rng, 2, 6)} for _ in range(rng.randint(2, 3))],
                        "gran": rng.choice(["line", "opcode"]), "switches": C.gen_switches(rng, 2, 60)})
        elif i % 3 == 0:
            ops.append({"op": "fork", "p": p, "branches": [{"edits": gen_edits(rng, 1, 5)} for _ in range(rng.randint(1, 2))]})
    return {"ops": ops, "thin": rng.choice(SPOTS) if rng.random() < 0.6 else None, "ent": rng.randint(0, 1 << 30),
            "bufsize": 8192}


class Machine(object):
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.n = 0
        self.made = {}      # identifier -> where
        self.count = 0
        self.forks = 0
        spot = plan["thin"]
        if spot is not None:
            base = random.Random("thin-%s" % plan["ent"])
            self.base = bytearray(base.getrandbits(8) for _ in range(64))
            w.thin = self.thin
            self.spot = spot
        self.procs = [None, None]
        for k in (0, 1):
            self.boot(k)

    def thin(self, n, task):
        self.count += 1
        if self.count > 65000:
            raise RuntimeError("the thin random source is used up")
        b = bytearray((self.base[i % 64] + i // 64) & 255 for i in range(n))
        s = self.spot if n >= 16 else max(0, n - 2)
        if n > 16:
            s += (n // 16 - 1) * 16
        b[s] = self.count >> 8
        if s + 1 < n:
            b[s + 1] = self.count & 255
        return bytes(b)

    def boot(self, k):
        self.n += 1
        p = self.w.proc("p%d" % self.n)
        t = self.w.task(p, p.name, ent("%s-%d" % (self.plan["ent"], self.n)))
        uuid._last_timestamp = None
        random.seed("start-%d" % self.n)
        self.procs[k] = {"p": p, "t": t, "live": {}}

    def record(self, ids, before, where):
        for i in ids:
            if i in self.made:
                raise Violation("repeated", "identifier %s generated %s was generated before, %s" % (i, where, self.made[i]))
            if i in before:
                raise Violation("clash", "identifier %s generated %s was already in the diagram" % (i, where))
            need(isinstance(i, str) and i != "", "no-identifier", "no identifier was generated %s" % where)
            self.made[i] = where

    def edits(self, ed, edits, where, create=None):
        """Edits one diagram, recording what is generated."""
        def step(fn):
            before = ed.all_ids()
            k = len(ed.generated)
            o = fn()
            new = ed.generated[k:]
            if o is not None and o is not True:
                C.expect_ok(o, "edit-failed", "an edit")
            if ed.problems:
                raise Violation("not-honoured", ed.problems[0])
            self.record(new, before, where)
            return new
        out = []
        if create is not None:
            out += step(lambda: ed.create(create))
        for e in edits:
            out += step(lambda: ed.apply(e))
        return out


def run(w, plan):
    m = Machine(w, plan)
    sigs = []
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        if k == "clock":
            w.clock_ns = max(10 ** 18, w.clock_ns + op["ns"])
            continue
        ps = m.procs[op["p"]]
        p, t, live = ps["p"], ps["t"], ps["live"]
        call = lambda fn, **kw: w.call(t, fn, **kw)
        where = "by %s at step %d" % (p.name, j)
        path = w.path("f%d" % op.get("file", 0))
        if k == "restart":
            if op["kill"]:
                w.kill(p)
            m.boot(op["p"])
        elif k == "seed":
            random.seed(op["n"])
        elif k == "new":
            # a new object, or one that held another diagram before
            ed = live[op["d"]] if op.get("again") and op["d"] in live else editor.Editor(p.rep.BpmnDiagramGraph(), call)
            m.edits(ed, op["edits"], where, create="d")
            live[op["d"]] = ed
        elif k == "edit":
            if op["d"] in live:
                m.edits(live[op["d"]], op["edits"], where)
        elif k == "save":
            ed = live.get(op["d"])
            if ed is not None and editor.exportable(M.snap(ed.dg)):
                o = call(lambda: ed.dg.export_xml_file(w.root + "/", os.path.basename(path)), faults=op["faults"],
                         measure={"io": 9, "line": 300})
                if not op["faults"]:
                    C.expect_ok(o, "save-failed", "saving")
        elif k == "load":
            if os.path.exists(path):
                dg = p.rep.BpmnDiagramGraph()
                C.expect_ok(call(lambda: dg.load_diagram_from_xml_file(path)), "load-failed", "loading")
                ed = editor.Editor(dg, call)
                ed.m = M.snap(dg)
                live[op["d"]] = ed
        elif k == "import":
            ed = C.make(op["origin"], p, call, w.path("in%d" % j), layout_csv=False)
            if ed is not None:
                live[op["d"]] = ed
        elif k == "threads":
            sched = core.Sched(w, op["switches"], gran=op["gran"])
            res = []

            def body(spec, n):
                def go(task):
                    tc = lambda fn, **kw: w.call(task, fn, trace=True, gran=op["gran"], **kw)
                    ed = editor.Editor(p.rep.BpmnDiagramGraph(), tc)
                    m.edits(ed, [["proc", "p", False, False, "None"]] + spec["edits"], where + " in thread %d" % n, create="t")
                return go
            for n, spec in enumerate(op["tasks"]):
                tt = w.task(p, "%s.%d.%d" % (p.name, j, n), ent("%s-%d-%d" % (plan["ent"], j, n)))
                sched.spawn(tt, body(spec, n))
            sched.run()
            if sched.deadlock:
                raise Violation("deadlock", "threads that build diagrams block each other for ever")
            sigs.append(sched.sig.hexdigest())
        elif k == "fork":
            for b in op["branches"]:
                m.forks += 1
                new = fork(w, m, plan, ps, b, where)
                for d, before, ids in new:
                    m.record(ids, set(before), "in a forked child of %s at step %d" % (p.name, j))
        w.state(k, len(m.made) // 8, plan["thin"])
    w.log("made", len(m.made))
    return {"identifiers": len(m.made), "forks": m.forks, "sig": core.hashlib.sha256("".join(sigs).encode()).hexdigest()[:16] if sigs else None,
            "shape": [len(m.made)] if len(m.made) >= 10 else None}


def fork(w, m, plan, ps, branch, where):
    """A real fork: the child goes on with a copy of the program's state and reports what it generated."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = []
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            m.count = 2500 * m.forks
            t = w.task(ps["p"], "child", ent("%s-fork-%d" % (plan["ent"], m.forks)))
            t.pid = 9000 + m.forks
            random.seed(t.entropy.getrandbits(256))     # as the standard library does after a fork
            w.entropy_default = ent("%s-forkd-%d" % (plan["ent"], m.forks))
            call = lambda fn, **kw: w.call(t, fn, **kw)
            m.made = {}
            for d, ed in sorted(ps["live"].items()):
                ed.call = call
                before = sorted(x for x in ed.all_ids() if x)
                out.append([d, before, m.edits(ed, branch["edits"], "in a forked child")])
            ed = editor.Editor(ps["p"].rep.BpmnDiagramGraph(), call)
            out.append([-1, [], m.edits(ed, [["proc", "p", False, False, "None"]] + branch["edits"], "in a forked child", create="c")])
            data = json.dumps({"ok": out})
        except Violation as v:
            data = json.dumps({"violation": [v.kind, v.msg]})
        except BaseException as e:
            data = json.dumps({"error": "%s: %s" % (type(e).__name__, e)})
        try:
            data = data.encode()
            while data:
                data = data[core.R["write"](wr, data):]
        finally:
            os._exit(0)
    core.R["close"](wr)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    core.R["close"](r)
    os.waitpid(pid, 0)
    w.fired["fork"] += 1
    res = json.loads(b"".join(chunks).decode())
    if "violation" in res:
        raise Violation(*res["violation"])
    if "error" in res:
        raise RuntimeError("forked child: " + res["error"])
    return res["ok"]
