"""C02: an export that returns has written the whole document."""
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 2600, "thorough": 60000}
RULE = ("a run exports a few diagrams in every format to new, existing, linked and missing places while storage errors, "
        "full disks, short writes, failing closes, allocation failures and interrupts hit the call; non-trivial = "
        "distinct event log of a run in which at least one fault fired")
STATES = "hash of (format, kind of target, fault fired, call returned or raised)"
REAL = C.REAL
STUB = C.STUB + ["graphviz renderer (a function of the drawing's text)"]
ASSUMES = C.ASSUMES

PLACES = ["new", "new", "old", "old", "deep", "link", "longer"]


def gen(rng, tier, i):
    n = rng.choice([1, 1, 2])
    ops = []
    for _ in range(rng.randint(2, 6)):
        fmt = rng.choice(["xml", "xml", "nodi", "csv", "csv", "dot", "png"])
        ops.append({"d": rng.randint(0, n - 1), "fmt": fmt, "place": rng.choice(PLACES), "name": rng.randint(0, 2),
                    "faults": [f for _ in range(rng.choice([1, 1, 1, 2]))
                               for f in C.gen_faults(rng, ("err", "err", "err", "close", "int"), p_none=0.12)],
                    "scope": rng.choice(["repo", "all"]),
                    "short": rng.randint(0, 9999) if rng.random() < 0.3 else None})
    return {"sessions": [C.gen_origin(rng, ("doc", "csv", "new", "block"), sizes=(1, 2, 4, 8, 20, 40)) for _ in range(n)],
            "ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def prepare(w, op, fmt, i):
    """Puts the target in its initial state; returns (directory, name)."""
    d = w.path("out%d" % (i % 2)) + "/"
    name = w.nm("f%d" % op["name"])
    if op["place"] == "deep":
        d = w.path("deep%d" % i, "x", "y") + "/"
        if fmt in ("dot", "png"):
            os.makedirs(d)
        return d, name
    os.makedirs(d, exist_ok=True)
    full = C.target(fmt, d, name)
    if op["place"] == "new":
        if os.path.lexists(full):
            os.unlink(full)
    elif op["place"] == "old":
        write_file(full, b"previous content " * 10)
    elif op["place"] == "longer":
        write_file(full, b"<!-- previous -->\n" * 9000)
    elif op["place"] == "link":
        if os.path.lexists(full):
            os.unlink(full)
        write_file(w.path("elsewhere", "real%d" % i), b"old")
        os.symlink(w.path("elsewhere", "real%d" % i), full)
    return d, name


def run(w, plan):
    C.stub_png()
    p = w.proc("p")
    t = w.task(p, "p", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t, fn, **k)
    eds = []
    for i, s in enumerate(plan["sessions"]):
        eds.append(C.make(s, p, call, w.path("in%d" % i)))
    returned = hits = 0
    for i, op in enumerate(plan["ops"]):
        if op["d"] >= len(eds) or eds[op["d"]] is None:
            continue
        ed, fmt = eds[op["d"]], op["fmt"]
        d, name = prepare(w, op, fmt, i)
        rd = w.path("ref%d" % i) + "/"
        os.makedirs(rd)
        ref = call(C.export_fn(p, ed.dg, fmt, rd, name), trace=True, scope=op["scope"])
        if not ref.ok:
            continue  # this diagram has no form in this format
        want = read_file(C.target(fmt, rd, name))
        need(want is not None, "no-file", "%s export returned but wrote no file" % fmt)
        o = call(C.export_fn(p, ed.dg, fmt, d, name), faults=op["faults"], measure=ref.measure, short=op["short"],
                 scope=op["scope"])
        got = read_file(C.target(fmt, d, name))
        w.state(fmt, op["place"], o.fired, o.ok)
        if o.fired:
            hits += 1
        if o.ok:
            returned += 1
            if got != want:
                raise Violation("incomplete", "%s export to a %s target returned normally but wrote %s of %d bytes%s"
                                % (fmt, op["place"], "nothing" if got is None else "%d" % len(got), len(want),
                                   "" if not o.fired else " after " + ", ".join(o.fired)))
        else:
            if not o.fired:
                raise Violation("spurious", "%s export %s although nothing failed" % (fmt, o.describe()))
    return {"returned": returned, "hits": hits, "shape": [returned, hits] if hits else None}
