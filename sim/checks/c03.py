"""C03: exporting over an existing document is all-or-nothing."""
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("a run is a history of exports (XML, XML without DI, CSV) over a few files by up to three programs that are "
        "killed, hit by storage errors or interrupted; before every system call and after every end the target must hold "
        "a complete version; readers are interleaved at system-call granularity; non-trivial = distinct event log of a "
        "run in which a fault fired or a switch happened")
STATES = "hash of (format, fault fired, which version the target held afterwards)"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES


def gen(rng, tier, i):
    fmts = ["xml", "nodi", "csv"]
    fmt = rng.choice(fmts)
    n = rng.choice([1, 2, 2])
    kinds = ("doc", "new", "block") if fmt != "csv" else ("block", "csv")
    plan = {"fmt": fmt, "sessions": [C.gen_origin(rng, kinds, sizes=(1, 3, 8, 20, 40)) for _ in range(n)],
            "start": rng.choice(["absent", "old", "old", "older-longer", "empty", "nodir"]),
            "link": rng.choice([None] * 9 + ["sym", "sym", "hard", "readonly"]),
            "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30), "ops": [], "switches": []}
    if rng.random() < 0.6:
        for _ in range(rng.randint(1, 5)):
            plan["ops"].append({"d": rng.randint(0, n - 1), "faults": C.gen_faults(rng, ("err", "crash", "crash", "int", "close")),
                                "scope": rng.choice(["repo", "repo", "all"]), "keep": rng.random() < 0.4,
                                "short": rng.randint(0, 9999) if rng.random() < 0.2 else None})
            if rng.random() < 0.2:
                plan["ops"][-1]["spoil"] = C.gen_spoil(rng)
                if rng.random() < 0.6:
                    plan["ops"][-1]["faults"] = []
    else:
        plan["readers"] = rng.randint(1, 2)
        plan["writers"] = rng.choice([1, 1, 2])
        plan["fork"] = rng.random() < 0.3
        for _ in range(rng.randint(1, 4)):
            plan["ops"].append({"d": rng.randint(0, n - 1), "faults": C.gen_faults(rng, ("err", "crash", "close"), p_none=0.5),
                                "scope": "repo", "keep": False,
                                "short": rng.randint(0, 9999) if rng.random() < 0.2 else None})
        plan["switches"] = C.gen_switches(rng, 2, 60)
    return plan


class Machine(object):
    def __init__(self, w, plan):
        self.w, self.plan, self.n = w, plan, 0
        self.fmt = plan["fmt"]
        self.dir = w.path("out") + "/"
        self.doc = w.nm("doc")
        self.file = self.dir + self.doc
        start = plan["start"]
        if start != "nodir":
            os.makedirs(self.dir)
        self.old = {"absent": None, "nodir": None, "old": b"<old/>\n", "older-longer": b"<previous document/>\n" * 5000,
                    "empty": b""}[start]
        if self.old is not None:
            write_file(self.file, self.old)
            link = plan.get("link")
            if link in ("sym", "hard"):     # the name is a link to a file elsewhere
                other = w.path("store") + "/doc-1"
                os.makedirs(w.path("store"))
                os.rename(self.file, other)
                (os.symlink if link == "sym" else os.link)(other, self.file)
            elif link == "readonly":
                os.chmod(self.file, 0o444)
        self.allowed = {self.old: "the previous content"}
        self.bad = None
        self.worlds = {}

    def boot(self, tag):
        self.n += 1
        p = self.w.proc("%s%d" % (tag, self.n))
        return p, self.w.task(p, p.name, ent("%s-%s" % (self.plan["ent"], self.n)))

    def diagrams(self, p, t):
        call = lambda fn, **k: self.w.call(t, fn, **k)
        watch, self.w.watch = self.w.watch, None
        out = []
        for i, s in enumerate(self.plan["sessions"]):
            ed = C.make(s, p, call, self.w.path("in-%s-%d" % (p.name, i)))
            want = None
            ref = None
            if ed is not None:
                rd = self.w.path("ref-%s-%d" % (p.name, i)) + "/"
                ref = call(C.export_fn(p, ed.dg, self.fmt, rd, self.doc), trace=True)
                refall = call(C.export_fn(p, ed.dg, self.fmt, rd, self.doc), trace=True, scope="all")
                want = read_file(rd + self.doc) if ref.ok else None
                ref = {"repo": ref.measure, "all": refall.measure}
            out.append((ed, want, ref))
        self.w.watch = watch
        return out

    def held(self, when):
        got = read_file(self.file)
        if got not in self.allowed:
            size = "%d bytes" % len(got) if got is not None else "no file"
            near = ""
            for a in self.allowed:
                if got and a and a.startswith(got):
                    near = ", a prefix of %s" % self.allowed[a]
            if got == b"":
                near = ", an empty file"
            raise Violation("torn", "%s the target of a %s export holds %s%s, which is no version of the document"
                            % (when, self.fmt, size, near))
        return self.allowed[got]

    def watch(self, task, kind):
        if self.bad is None:
            try:
                self.held("before a '%s' call of %s" % (kind, task.name))
            except Violation as v:
                self.bad = v


def run(w, plan):
    m = Machine(w, plan)
    hits = 0
    if not plan.get("readers"):
        p, t = m.boot("p")
        ds = m.diagrams(p, t)
        for op in plan["ops"]:
            ed, want, ref = ds[op["d"] % len(ds)] if ds else (None, None, None)
            if ed is None or want is None:
                continue
            undo = C.spoil(ed.dg, op["spoil"]) if op.get("spoil") else None
            if undo:      # what this export writes when nothing else fails
                rd = w.path("spoilt%d" % m.n) + "/"
                x = w.call(t, C.export_fn(p, ed.dg, m.fmt, rd, m.doc), line_budget=C.LINE_BUDGET)
                want = read_file(rd + m.doc) if x.ok else None
            before = read_file(m.file)
            m.allowed = {before: "the previous content"}
            if want is not None:
                m.allowed[want] = "the new document"
            w.watch = m.watch
            o = w.call(t, C.export_fn(p, ed.dg, m.fmt, m.dir, m.doc), faults=op["faults"], measure=ref[op["scope"]],
                       scope=op["scope"], short=op["short"], keep_exc=op["keep"])
            w.watch = None
            if undo:
                undo()
            if m.bad:
                raise m.bad
            which = m.held("after an export that %s" % o.describe())
            if o.ok and read_file(m.file) != want:
                raise Violation("not-written", "a %s export returned but the target holds the previous content" % m.fmt)
            if op["keep"]:
                w.kept = []  # the caller lets go of the exception: late flushes and closes happen here
                m.held("after the caller dropped the exception of an export that %s" % o.describe())
            w.state(m.fmt, o.fired, which)
            hits += 1 if o.fired else 0
            if o.crashed:
                p, t = m.boot("p")
                ds = m.diagrams(p, t)
        return {"hits": hits, "shape": [hits] if hits else None}
    # concurrent readers and writers, every system call a possible switch
    writers = []
    for k in range(plan["writers"]):
        if plan.get("fork"):      # children of one program: until here they had the same life
            w.entropy_default = ent("%s-image" % plan["ent"])
        p, t = m.boot("w")
        own = t.entropy
        if plan.get("fork"):
            t.entropy, t.pid = ent("%s-parent" % plan["ent"]), 3999
        writers.append((p, t, m.diagrams(p, t)))
        t.entropy, t.pid = own, p.pid
    base = [want for _, want, _ in writers[0][2]]
    for i, (p, t, ds) in enumerate(writers):
        for ed, want, _ in ds:
            if want is not None:
                m.allowed[want] = "a version of the document"
    sched = core.Sched(w, plan["switches"], gran="io")
    seen = []

    def writer(p, ds, k):
        def body(task):
            for j, op in enumerate(plan["ops"]):
                if j % len(writers) != k:
                    continue
                ed, want, ref = ds[op["d"] % len(ds)] if ds else (None, None, None)
                if ed is None or want is None:
                    continue
                o = w.call(task, C.export_fn(p, ed.dg, m.fmt, m.dir, m.doc), faults=op["faults"],
                           measure=ref[op["scope"]], short=op["short"])
                if o.crashed:
                    return
                if not o.ok and not o.fired:
                    raise Violation("spurious", "%s export %s although nothing failed" % (m.fmt, o.describe()))
        return body

    def reader(p, k):
        def body(task):
            for _ in range(3):
                def read():
                    with open(m.file, "rb", buffering=0) as f:
                        out = b""
                        while True:
                            b = f.read(4096)
                            if not b:
                                return out
                            out += b
                o = w.call(task, read)
                got = o.value if o.ok else None
                if not o.ok and "FileNotFoundError" not in (o.exc or ""):
                    raise Violation("reader", "a reader of the target %s" % o.describe())
                if got not in m.allowed:
                    raise Violation("torn-read", "a concurrent reader saw %s bytes that are no version of the document"
                                    % ("no" if got is None else len(got)))
                seen.append(m.allowed[got])
        return body
    for k, (p, t, ds) in enumerate(writers):
        sched.spawn(t, writer(p, ds, k))
    for k in range(plan["readers"]):
        p, t = m.boot("r")
        sched.spawn(t, reader(p, k))
    w.watch = m.watch
    sched.run()
    w.watch = None
    if m.bad:
        raise m.bad
    m.held("at the end")
    w.state(m.fmt, "concurrent", sorted(set(seen)))
    return {"switches_taken": sched.nswitch, "reads": len(seen), "sig": sched.sig.hexdigest()[:16],
            "shape": [sched.nswitch] if sched.nswitch else None}
