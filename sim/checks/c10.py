"""C10: results do not depend on hash seed, locale or working directory."""
import hashlib
import json
import select
import subprocess
import sys

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 1000, "thorough": 40000}
RULE = ("one script of loads, edits, layouts, metrics and exports is run in two or three simulated processes that differ in "
        "the interpreter's hash seed, the locale's encoding, the working directory, how the paths are written, the clock and "
        "the state of the random module; models, metrics and files are compared; non-trivial = distinct script that wrote at "
        "least one file")
STATES = "hash of (hash seed, encoding, working directory, kinds of operations)"
REAL = C.REAL + ["real interpreter processes with different PYTHONHASHSEED"]
STUB = C.STUB
ASSUMES = C.ASSUMES + ["the operating system's random source gives the compared processes the same values (generated "
                       "identifiers are renamed by order of appearance)"]

ENCS = ["utf-8", "ascii", "cp1252", "latin-1", "cp1250", "shift_jis", "koi8-r"]
CWDS = ["", "out", "x/y", "/"]
BUDGET = 15000


def gen(rng, tier, i):
    lane = i % 8
    seeds = [1 + lane * 2, 2 + lane * 2, 0]
    cfgs = []
    for k in range(rng.choice([2, 2, 3])):
        cfgs.append({"hash": rng.choice(seeds) if k > 1 else seeds[k], "enc": "utf-8" if k == 0 else rng.choice(ENCS),
                     "cwd": "" if k == 0 else rng.choice(CWDS), "rel": rng.random() < 0.4,
                     "clock": rng.choice([0, 0, 10 ** 18, -10 ** 17]), "seed": rng.randint(0, 3)})
    ops = []
    for _ in range(rng.randint(1, 7)):
        r = rng.random()
        if r < 0.40:
            ops.append({"op": "export", "fmt": rng.choice(["xml", "xml", "nodi", "csv", "csv"]), "file": rng.randint(0, 3)})
        elif r < 0.52:
            ops.append({"op": "layout"})
        elif r < 0.68:
            ops.append({"op": "metric", "name": rng.choice(C.METRICS + C.DRAW * 2 + C.LAYOUT_METRICS * 2)})
        elif r < 0.78:
            ops.append({"op": "query", "q": C.gen_query(rng)})
        elif r < 0.90:
            ops.append({"op": "edit", "edits": [editor.gen_edit(rng) for _ in range(rng.randint(1, 5))]})
        else:
            ops.append({"op": "reload", "csv": rng.random() < 0.4})
    ops.append({"op": "export", "fmt": rng.choice(["xml", "nodi", "csv"]), "file": 7})
    return {"sessions": cfgs, "origin": C.gen_origin(rng, ("doc", "doc", "csv", "new", "block"), sizes=(3, 6, 12, 24)),
            "ops": ops, "ent": rng.randint(0, 1 << 30), "bufsize": C.gen_bufsize(rng)}


# -- inside a host process -----------------------------------------------------------------------

def script(w, plan, cfg):
    out = []
    canon = C.Canon()
    w.clock_ns += cfg["clock"]
    random.seed(cfg["seed"])
    d = w.path("out") + "/"
    os.makedirs(d)
    cwd = os.path.join(w.root, cfg["cwd"])
    if cwd.startswith(w.root):
        os.makedirs(cwd, exist_ok=True)
    p = w.proc("p", enc=cfg["enc"])
    t = w.task(p, "p", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t, fn, **k)
    os.chdir(cwd)

    def where(path):
        if not cfg["rel"]:
            return path
        r = os.path.relpath(path, cwd)
        return r + "/" if path.endswith("/") else r
    ed = C.make(plan["origin"], p, call, w.path("in"))
    if ed is None:
        return ["no diagram"]
    for op in plan["ops"]:
        k = op["op"]
        o = None
        if k == "export":
            name = "f%d.%s" % (op["file"], op["fmt"])
            o = call(C.export_fn(p, ed.dg, op["fmt"], where(d), name))
            data = read_file(d + name)
            out.append(["%s export" % op["fmt"], C.outcome_text(o), None if data is None else
                        canon.text(data.decode("utf-8", "surrogateescape"))])
        elif k == "layout":
            lay = p.mod("bpmn_diagram_layouter")
            o = call(lambda: lay.generate_layout(ed.dg), line_budget=60000)
            out.append(["layout", C.outcome_text(o)])
            if o.hang:
                return out
            ed.m = M.snap(ed.dg)
        elif k == "metric":
            o = call(C.metric_fn(p, ed.dg, op["name"]), line_budget=BUDGET)
            out.append([op["name"], canon.text(C.outcome_text(o))])
        elif k == "query":
            o = call(C.query_fn(ed.dg, op["q"], M.snap(ed.dg)))
            out.append(["query", canon.text(C.outcome_text(o))])
        elif k == "edit":
            for e in op["edits"]:
                x = ed.apply(e)
                if x is not None and x is not True:
                    C.expect_ok(x, "edit-failed", "an edit")
        elif k == "reload":
            dg = p.rep.BpmnDiagramGraph()
            fmt = "csv" if op["csv"] else "xml"
            o = call(C.export_fn(p, ed.dg, fmt, where(d), "re." + fmt))
            if o.ok:
                src = where(d + "re." + fmt)
                o = call(lambda: dg.load_diagram_from_csv_file(src) if op["csv"] else dg.load_diagram_from_xml_file(src))
                out.append(["reload " + fmt, C.outcome_text(o)])
                if o.ok:
                    ed = editor.Editor(dg, call)
                    ed.m = M.snap(dg)
        out.append(["diagram", canon.text(json.dumps(M.snap(ed.dg), sort_keys=True, default=repr))])
    for name in C.LAYOUT_METRICS + C.METRICS + C.DRAW:
        o = call(C.metric_fn(p, ed.dg, name), line_budget=BUDGET // 3)
        out.append([name, canon.text(C.outcome_text(o))])
    m = M.snap(ed.dg)
    for q in C.QUERIES:
        out.append(["/".join(str(x) for x in q), canon.text(C.outcome_text(call(C.query_fn(ed.dg, q, m))))])
    return out


def host():
    """Serves scripts read from standard input until it is closed."""
    from .. import runner
    core.install()
    C.warm_up()
    home = os.getcwd()
    inp, outp = sys.stdin.buffer, sys.stdout.buffer
    outp.write(b"ready\n")
    outp.flush()
    for line in inp:
        req = json.loads(line.decode())
        w = core.World(bufsize=req["plan"]["bufsize"])
        try:
            with core.active(w):
                try:
                    res = {"ok": script(w, req["plan"], req["cfg"])}
                except Violation as v:
                    res = {"violation": [v.kind, v.msg]}
                finally:
                    os.chdir(home)
        except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
            res = {"violation": ["malformed-result", "%s: %s" % (type(e).__name__, str(e)[:200])]}
        except Exception as e:
            res = {"error": "%s: %s" % (type(e).__name__, e)}
        finally:
            w.cleanup()
        outp.write(json.dumps(res).replace(w.root, "<root>").encode() + b"\n")
        outp.flush()


# -- in the lane ---------------------------------------------------------------------------------

_hosts = {}


def ask(seed, req):
    from .. import runner
    p = _hosts.get(seed)
    if p is None or p.poll() is not None:
        p = _hosts[seed] = subprocess.Popen([sys.executable, os.path.join(runner.VERIF, "check"), "--host"],
                                            stdin=subprocess.PIPE, stdout=subprocess.PIPE, cwd=runner.VERIF,
                                            env=runner.env_for(seed))
        readline(p, 120)
    p.stdin.write(json.dumps(req).encode() + b"\n")
    p.stdin.flush()
    line = readline(p, 80)
    if line is None:
        p.kill()
        raise Violation("no-progress", "a simulated process did not finish its script")
    return json.loads(line.decode())


def readline(p, timeout):
    """One line of the host's answer."""
    buf = b""
    fd = p.stdout.fileno()
    end = core.R_time() + timeout
    tries = 3
    while not buf.endswith(b"\n"):
        ready = select.select([fd], [], [], max(0, end - core.R_time()))[0]
        if not ready:
            if tries and core.starved():
                tries -= 1
                end = core.R_time() + timeout
                continue
            return None
        b = os.read(fd, 1 << 20)
        if not b:
            raise RuntimeError("a host process ended")
        buf += b
    return buf


def run(w, plan):
    base = None
    for cfg in plan["sessions"]:
        res = ask(cfg["hash"], {"plan": plan, "cfg": cfg})
        if "error" in res:
            raise RuntimeError(res["error"])
        if "violation" in res:
            raise Violation(*res["violation"])
        got = res["ok"]
        w.log(cfg["hash"], hashlib.sha256(json.dumps(got).encode()).hexdigest())
        w.state(cfg["hash"], cfg["enc"], cfg["cwd"], sorted(set(o["op"] for o in plan["ops"])))
        if cfg["enc"] != "utf-8":
            w.fired["locale-" + cfg["enc"]] += 1
        if cfg["cwd"]:
            w.fired["other-cwd"] += 1
        if base is None:
            base, c0 = got, cfg
            continue
        if cfg["hash"] != c0["hash"]:
            w.fired["other-hash-seed"] += 1
        for a, b in zip(base, got):
            if a != b and "hang" not in (a[1], b[1]):
                x, y = [next(((u, v) for u, v in zip(a[1:], b[1:]) if u != v), (None, None))][0]
                x, y = str(x), str(y)
                i = next((i for i, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
                diff = [k for k in ("hash", "enc", "cwd", "rel", "clock", "seed") if cfg[k] != c0[k]]
                raise Violation("differs", "%s gave ...%r in one process and ...%r in another (they differ in %s)" % (
                    a[0], x[max(0, i - 40):i + 60], y[max(0, i - 40):i + 60], ", ".join("%s %r/%r" % (k, c0[k], cfg[k]) for k in diff)))
        if len(base) != len(got) and "hang" not in (base[-1][1:2] + got[-1][1:2]):
            raise Violation("differs", "the script took %d steps in one process and %d in another" % (len(base), len(got)))
    files = sum(1 for o in (base or []) if o[0].endswith("export") and o[1].startswith("ok"))
    return {"files": files, "shape": [hashlib.sha256(json.dumps(base).encode()).hexdigest()] if files else None}
