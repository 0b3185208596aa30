"""C16: a load that returns holds one complete version the file had during the call."""
from .. import csvmodel, editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("programs load XML and CSV files that other programs keep replacing (atomically, by the library's own exports or by "
        "another tool), in sequence or interleaved at every system call, with short reads, read errors, versions of equal "
        "size and time stamp; what a load that returned holds is compared with each version the file had between its start "
        "and its end, loaded alone by a fresh program; non-trivial = distinct event log of a run in which the file changed")
STATES = "hash of (format, how many versions the file had during the load, which of them was loaded, faults)"
REAL = C.REAL
STUB = C.STUB + ["file time stamps (set by the simulator)"]
ASSUMES = C.ASSUMES + ["while a load is running the file is only ever replaced atomically (rename), as this library's "
                       "exports do; between two loads other programs may also rewrite it in place"]


def gen(rng, tier, i):
    fmt = rng.choice(["xml", "xml", "csv"])
    vs = []
    base = None
    for _ in range(rng.randint(2, 4)):
        if fmt == "xml":
            if base is None or rng.random() < 0.3:
                base = M.gen_doc(rng, size=rng.choice([1, 3, 6, 12, 30]), selfloops=rng.random() < 0.3)
                doc = base
            else:
                doc = M.vary(rng, base)
            vs.append({"from": "doc", "doc": doc, "style": M.gen_style(rng)})
        else:
            proc = csvmodel.gen(rng, plain=rng.random() < 0.3)
            if base is not None and rng.random() < 0.5:
                proc = dict(base, start=proc["start"], end=proc["end"])
            base = proc
            vs.append({"from": "csv", "proc": proc})
    plan = {"fmt": fmt, "versions": vs, "lib": [rng.random() < 0.4 for _ in vs], "same_size": rng.random() < 0.5,
            "same_time": rng.random() < 0.7, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30),
            "start": rng.randint(0, 3)}
    if rng.random() < 0.15:     # one program, one file that looks the same but is not
        plan.update(lib=[False], same_size=True, same_time=rng.random() < 0.9, ops=[])
        for _ in range(rng.randint(2, 5)):
            plan["ops"] += [{"op": "load", "p": 0, "f": 0, "into": "new", "short": None, "faults": []},
                            {"op": "replace", "f": 0, "v": rng.randint(0, 3), "inplace": rng.random() < 0.7}]
    elif rng.random() < 0.5:
        plan["ops"] = []
        for _ in range(rng.randint(3, 12)):
            r = rng.random()
            if r < 0.5:
                plan["ops"].append({"op": "load", "p": rng.randint(0, 1), "f": rng.randint(0, 1), "into": rng.choice(["new", "new", "again"]),
                                    "short": rng.randint(0, 9999) if rng.random() < 0.3 else None,
                                    "faults": C.gen_faults(rng, ("err", "int", "crash")) if rng.random() < 0.2 else []})
            elif r < 0.95:
                plan["ops"].append({"op": "replace", "f": rng.randint(0, 1), "v": rng.randint(0, 3), "inplace": rng.random() < 0.3})
            else:
                plan["ops"].append({"op": "restart", "p": rng.randint(0, 1)})
    else:
        plan["loaders"] = [[rng.randint(0, 9999) if rng.random() < 0.3 else None for _ in range(rng.randint(1, 3))]
                           for _ in range(rng.choice([1, 1, 2]))]
        plan["writer"] = [rng.randint(0, 3) for _ in range(rng.randint(1, 5))]
        plan["same_program"] = rng.random() < 0.5
        plan["switches"] = C.gen_switches(rng, 2, 40)
    return plan


class Machine(object):
    def __init__(self, w, plan):
        self.w, self.plan, self.n = w, plan, 0
        self.fmt = plan["fmt"]
        self.dir = w.path("d") + "/"
        os.makedirs(self.dir)
        self.bytes, self.dgs = [], []
        self.wp, self.wt = self.boot("writer")
        wcall = lambda fn, **k: w.call(self.wt, fn, **k)
        for i, v in enumerate(plan["versions"]):
            f = C.origin_files(v)
            if f is None:
                continue
            data, ed = f[1], None
            if plan["lib"][i % len(plan["lib"])] and plan["lib"]:
                ed = C.make(v, self.wp, wcall, w.path("v%d" % i))
                if ed is not None:
                    o = wcall(C.export_fn(self.wp, ed.dg, self.fmt, w.path("ref%d" % i) + "/", "x"))
                    if o.ok:
                        data = read_file(w.path("ref%d" % i, "x"))
                    else:
                        ed = None
            self.bytes.append(data)
            self.dgs.append(ed)
        if plan["same_size"] and not any(self.dgs):
            n = max(len(b) for b in self.bytes) if self.bytes else 0
            for i, b in enumerate(self.bytes):
                if b[:2] in (b"\xff\xfe", b"\xfe\xff"):
                    pad = ("\n" * ((n - len(b)) // 2)).encode("utf-16-le" if b[:2] == b"\xff\xfe" else "utf-16-be")
                else:
                    pad = b"\n" * (n - len(b))
                self.bytes[i] = b + pad
        self.want = {}
        for i, b in enumerate(self.bytes):
            p, t = self.boot("ref")
            path = w.path("alone", "v%d.%s" % (i, self.fmt))
            write_file(path, b)
            o, text = self.load(p, t, path)
            if not o.ok:
                raise Violation("load-failed", "loading an intact %s file %s" % (self.fmt, o.describe()))
            self.want[b] = text
        self.hist = []

    def boot(self, tag):
        self.n += 1
        p = self.w.proc("%s%d" % (tag, self.n))
        return p, self.w.task(p, p.name, ent("%s-%d" % (self.plan["ent"], self.n)))

    def load(self, p, t, path, dg=None, **k):
        dg = dg if dg is not None else p.rep.BpmnDiagramGraph()
        fn = dg.load_diagram_from_xml_file if self.fmt == "xml" else dg.load_diagram_from_csv_file
        o = self.w.call(t, lambda: fn(path), **k)
        return o, C.Canon().text(M.raw(dg)) if o.ok else None

    def put(self, v, path):
        """Another tool replaces the file."""
        with open(path + ".part", "wb") as f:
            f.write(self.bytes[v])
        if self.plan["same_time"]:
            os.utime(path + ".part", (1600000000, 1600000000))
        os.replace(path + ".part", path)

    def put_quietly(self, v, path, inplace=False):
        if inplace and os.path.exists(path):    # nobody is reading: the same inode, another content
            write_file(path, self.bytes[v])
            if self.plan["same_time"]:
                os.utime(path, (1600000000, 1600000000))
            return
        write_file(path + ".part", self.bytes[v])
        if self.plan["same_time"]:
            os.utime(path + ".part", (1600000000, 1600000000))
        os.rename(path + ".part", path)

    def see(self, path):
        b = read_file(path)
        if not self.hist or self.hist[-1] != b:
            self.hist.append(b)
        return len(self.hist) - 1

    def judge(self, text, versions, what):
        if text in [self.want.get(b) for b in versions]:
            return next(i for i, b in enumerate(self.bytes) if self.want[b] == text)
        stale = [i for i, b in enumerate(self.bytes) if self.want[b] == text]
        raise Violation("stale" if stale else "mixed", "%s of a %s file returned %s (the file had %d version(s) during the call)" % (
            what, self.fmt, "a version the file no longer had when the call began" if stale else "a diagram that is no version of the file",
            len(versions)))


def run(w, plan):
    w.flat_ctime = plan["same_time"]
    m = Machine(w, plan)
    nv = len(m.bytes)
    if not nv:
        return {}
    ext = "bpmn" if m.fmt == "xml" else "csv"
    changes = loads = 0
    if "ops" in plan:
        files = [m.dir + w.nm("f%d.%s" % (k, ext)) for k in (0, 1)]
        for k, f in enumerate(files):
            m.put_quietly((plan["start"] + k) % nv, f)
        progs = [m.boot("p"), m.boot("p")]
        kept = [None, None]
        for op in plan["ops"]:
            if op["op"] == "replace":
                v = op["v"] % nv
                if m.dgs[v] is not None:
                    o = w.call(m.wt, C.export_fn(m.wp, m.dgs[v].dg, m.fmt, m.dir, os.path.basename(files[op["f"]])))
                    C.expect_ok(o, "export-failed", "an export")
                    if plan["same_time"]:
                        os.utime(files[op["f"]], (1600000000, 1600000000))
                else:
                    m.put_quietly(v, files[op["f"]], op.get("inplace"))
                changes += 1
            elif op["op"] == "restart":
                progs[op["p"]] = m.boot("p")
                kept[op["p"]] = None
            else:
                p, t = progs[op["p"]]
                dg = None
                if op["into"] == "again" and kept[op["p"]] is not None:     # the same object, started anew
                    dg = kept[op["p"]]
                    C.expect_ok(w.call(t, lambda: dg.create_new_diagram_graph("again")), "edit-failed", "starting another diagram")
                    if "name" in dg.diagram_attributes and m.fmt == "csv":
                        dg = None       # a CSV file has no diagram name: the old one stays
                dg = dg if dg is not None else p.rep.BpmnDiagramGraph()
                now = read_file(files[op["f"]])
                o, text = m.load(p, t, files[op["f"]], dg, faults=op["faults"], short=op["short"],
                                 measure={"io": 4, "io:read": 2, "io:close": 1, "io:open_r": 1, "line": 400})
                kept[op["p"]] = dg if o.ok else None
                w.state(m.fmt, 1, o.fired, o.ok)
                if o.ok:
                    m.judge(text, [now], "a load")
                    loads += 1
                elif o.crashed:
                    progs[op["p"]] = m.boot("p")
                elif not o.fired:
                    raise Violation("load-failed", "a load %s although nothing failed" % o.describe())
        return {"loads": loads, "changes": changes, "shape": [changes, loads] if changes and loads else None}
    path = m.dir + w.nm("f." + ext)
    m.put_quietly(plan["start"] % nv, path)
    shared = m.boot("p")
    loaders = []
    for k, _ in enumerate(plan["loaders"]):
        p = shared[0] if plan["same_program"] else m.boot("p")[0]
        loaders.append((p, w.task(p, "l%d" % k, ent("%s-l%d" % (plan["ent"], k)))))
    sched = core.Sched(w, plan["switches"], gran="io")
    seen = []

    def writer(task):
        for v in plan["writer"]:
            v = v % nv
            if m.dgs[v] is not None:
                o = w.call(task, C.export_fn(m.wp, m.dgs[v].dg, m.fmt, m.dir, w.nm("f." + ext)))
            else:
                o = w.call(task, lambda: m.put(v, path))
            C.expect_ok(o, "export-failed", "replacing the file")

    def loader(k):
        p, t = loaders[k]

        def body(task):
            for short in plan["loaders"][k]:
                first = m.see(path)
                o, text = m.load(p, task, path, short=short)
                m.see(path)
                C.expect_ok(o, "load-failed", "a load while the file is being replaced")
                versions = m.hist[first:]
                seen.append((len(versions), m.judge(text, versions, "a load concurrent with writers")))
        return body
    sched.spawn(m.wt, writer)
    for k in range(len(loaders)):
        sched.spawn(loaders[k][1], loader(k))
    w.watch = lambda task, kind: m.see(path)
    sched.run()
    w.watch = None
    for s in seen:
        w.state(m.fmt, s)
    return {"switches_taken": sched.nswitch, "loads": len(seen), "overlapped": sum(1 for s in seen if s[0] > 1),
            "sig": sched.sig.hexdigest()[:16], "shape": [sched.nswitch] if sched.nswitch else None}
