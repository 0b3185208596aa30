"""C12: concurrent exporters sharing an output directory all succeed."""
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2400, "thorough": 60000}
RULE = ("two to four programs (or threads, or forked children of one program) export at the same time into one directory tree that may be missing at any level, some to the "
        "same file, under a seeded scheduler that may switch at every file-system call; some are killed on the way; "
        "non-trivial = distinct event log of a run with at least one switch")
STATES = "hash of (levels missing, formats, same file or not, order in which the exporters finished)"
REAL = C.REAL
STUB = C.STUB + ["scheduling of the processes (each simulated process is a real thread with its own module copies)"]
ASSUMES = C.ASSUMES


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3, 4])
    tasks = []
    threads = rng.random() < 0.25
    for k in range(n):
        fmt = rng.choice(["xml", "nodi", "csv"])
        exports = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            exports.append({"dir": rng.choice(["a", "a/b", "a/b/c", "a/b/c", "", "z"]), "name": rng.choice(["f", "f", "g", "own"]),
                            "slash": rng.choice(["/", "/", "//", "/./"])})
        t = {"fmt": fmt, "origin": C.gen_origin(rng, ("block",) if fmt == "csv" else ("doc", "new"), sizes=(1, 3), edits=(1, 6)),
             "ops": exports, "faults": []}
        if rng.random() < 0.12 and k > 0 and not threads:
            t["faults"] = [{"k": "crash", "at": rng.randint(0, 25), "cut": rng.random()}]
        tasks.append(t)
    return {"tasks": tasks, "have": rng.choice(["nothing", "nothing", "root", "a", "a/b", "all", "files"]), "threads": threads,
            "fork": not threads and rng.random() < 0.3,
            "switches": [[rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 12)]), rng.randint(0, 7)] for _ in range(rng.choice([1, 2, 4, 8, 16, 40]))],
            "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def run(w, plan):
    root = w.path("out")
    have = plan["have"]
    if have in ("root",):
        os.makedirs(root)
    elif have in ("a", "a/b"):
        os.makedirs(os.path.join(root, have))
    elif have in ("all", "files"):
        os.makedirs(root + "/a/b/c")
        os.makedirs(root + "/z")
    old = b"<previous/>\n"
    if have == "files":
        for d in ("a", "a/b/c", "z"):
            write_file(os.path.join(root, d, w.nm("f")), old)
    shared = w.proc("shared") if plan.get("threads") else None
    jobs = []
    for k, spec in enumerate(plan["tasks"]):
        if plan.get("fork"):
            # children of one program: until here all of them had the same life
            w.entropy_default = ent("%s-image" % plan["ent"])
            p = w.proc("p%d" % k)
            t = w.task(p, "e%d" % k, ent("%s-parent" % plan["ent"]))
            t.pid = 3999
            specs = plan["tasks"]
        else:
            p = shared or w.proc("p%d" % k)
            t = w.task(p, "e%d" % k, ent("%s-%d" % (plan["ent"], k)))
            specs = [spec]
        call = lambda fn, **kw: w.call(t, fn, **kw)
        mine = None
        for j, s in enumerate(specs):
            ed = C.make(s["origin"], p, call, w.path("in%d-%d" % (k, j)), layout_csv=False)
            if ed is None:
                continue
            ref = call(C.export_fn(p, ed.dg, s["fmt"], w.path("ref%d-%d" % (k, j)) + "/", "f"))
            if ref.ok and s is spec:
                mine = (k, spec, p, t, ed, read_file(w.path("ref%d-%d" % (k, j), "f")))
        if plan.get("fork"):
            t.pid = p.pid
            t.entropy = ent("%s-%d" % (plan["ent"], k))
        if mine is not None:
            jobs.append(mine)
    wrote = {}      # path -> {document: exporter}
    killed = {}
    order = []
    sched = core.Sched(w, plan["switches"], gran="io")

    def body(job):
        k, spec, p, t, ed, want = job

        def go(task):
            for j, e in enumerate(spec["ops"]):
                d = os.path.join(root, e["dir"])
                name = w.nm("own%d" % k if e["name"] == "own" else e["name"])
                path = os.path.join(d, name)
                o = w.call(task, C.export_fn(p, ed.dg, spec["fmt"], d + e["slash"], name), faults=spec["faults"] if j == 0 else [])
                if o.crashed:
                    killed.setdefault(path, {})[want] = k
                    return
                if not o.ok:
                    raise Violation("failed", "exporter %d (%s) %s while another one was exporting into the same directory"
                                    % (k, spec["fmt"], o.describe()))
                wrote.setdefault(path, {})[want] = k
                order.append(k)
        return go
    for job in jobs:
        sched.spawn(job[3], body(job))
    sched.run()
    if sched.deadlock:
        raise Violation("deadlock", "exporters block each other for ever")
    for path in sorted(set(wrote) | set(killed)):
        got = read_file(path)
        ok = dict(wrote.get(path, {}))
        ok.update(killed.get(path, {}))
        if got in ok:
            continue
        if path not in wrote and got in (None, old):
            continue
        raise Violation("incomplete", "after all exporters of %s finished it holds %s, not the document of one of them" % (
            os.path.relpath(path, root), "nothing" if got is None else "%d bytes" % len(got)))
    w.state(have, [s["fmt"] for s in plan["tasks"]], len(wrote), order)
    return {"switches_taken": sched.nswitch, "exports": len(order), "sig": sched.sig.hexdigest()[:16],
            "shape": [sched.nswitch] if sched.nswitch else None}
