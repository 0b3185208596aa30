"""C15: the export without diagram interchange holds every element once."""
import xml.etree.ElementTree as ET

from .. import editor, model as M
from .common import *  # noqa
from . import common as C

RUNS = {"quick": 4000, "thorough": 60000}
RULE = ("a history of building, loading, editing and exporting without diagram interchange to a few files, by programs that are "
        "killed, interrupted or hit by storage errors and restarted; every file whose export returned is parsed by an independent "
        "reader and compared with the diagram's reference model; non-trivial = distinct event log of a run in which a fault fired "
        "or the program was restarted")
STATES = "hash of (processes, nodes, flows, deepest nesting, faults so far)"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES + ["xml.etree reads XML correctly"]
NS = "{http://www.omg.org/spec/BPMN/20100524/MODEL}"


def gen(rng, tier, i):
    ops = [{"op": "origin", "origin": C.gen_origin(rng, ("doc", "doc", "doc", "new", "csv", "block"), sizes=(2, 4, 8, 16, 30), edits=(2, 25))}]
    for _ in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.55:
            ops.append({"op": "export", "file": rng.randint(0, 1), "faults": C.gen_faults(rng, p_none=0.5),
                        "scope": rng.choice(["repo", "all"]), "short": rng.randint(0, 9999) if rng.random() < 0.2 else None})
        elif r < 0.8:
            ops.append({"op": "edit", "edits": [editor.gen_edit(rng) for _ in range(rng.randint(1, 6))]})
        elif r < 0.87:
            ops.append({"op": "other", "fmt": rng.choice(["xml", "csv", "dot"]), "faults": C.gen_faults(rng, ("err", "int"), p_none=0.5)})
        elif r < 0.94:
            ops.append({"op": "origin", "origin": C.gen_origin(rng, ("doc", "new", "csv"), sizes=(2, 4, 8), edits=(2, 12))})
        else:
            ops.append({"op": "restart"})
    ops.append({"op": "export", "file": rng.randint(0, 1), "faults": [], "scope": "repo", "short": None})
    return {"ops": ops, "bufsize": C.gen_bufsize(rng), "ent": rng.randint(0, 1 << 30)}


def expected(m):
    """{(kind, id): record} of what the document must hold."""
    out = {}
    conts = set(m["procs"]) | set(n for n, a in m["nodes"].items() if a.get("type") == "subProcess")
    for pid, p in m["procs"].items():
        out["process", pid] = {"tag": "process", "in": None, "attrs": fill({
            "name": p.get("name") or "", "isClosed": p.get("isClosed"), "isExecutable": p.get("isExecutable"),
            "processType": p.get("processType")})}
    for nid, a in m["nodes"].items():
        if a.get("type") == "participant" or a.get("process") not in conts:
            continue
        at = {"name": a.get("node_name") or ""}
        for k in editor.NODE_ATTRS.get(a["type"], []):
            if k not in ("defs", "isExpanded"):
                at[k] = a.get(k, M.DEFAULTS.get(k))
        e = {"tag": a["type"], "in": a["process"], "attrs": fill(at), "incoming": list(a.get("incoming") or []),
             "outgoing": list(a.get("outgoing") or [])}
        if a["type"] in M.DEFS:
            e["defs"] = [[t, i or ""] for i, t in a.get("event_definitions", [])]
        out["node", nid] = e
    for fid, f in m["flows"].items():
        if f.get("process") not in conts:
            continue        # message flows are not part of a process
        e = {"tag": "sequenceFlow", "in": f["process"], "attrs": fill({
            "name": f.get("name") or (f["cond"][1] if "cond" in f else ""), "sourceRef": f["sourceRef"], "targetRef": f["targetRef"]})}
        if "cond" in f:
            e["cond"] = [f["cond"][0] or "", f["cond"][1] or ""]
        out["flow", fid] = e
    return out


def fill(at):
    return {k: v for k, v in at.items() if v is not None}


def parsed(data):
    """The same, read from the document; also says what is there more than once or not understood."""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Violation("not-xml", "the exported document is not well-formed: %s" % e)
    if root.tag != NS + "definitions":
        raise Violation("not-bpmn", "the exported document's root is %s" % root.tag)
    out = {}

    def add(key, rec):
        if key in out:
            raise Violation("twice", "the exported document holds the %s %r twice (in %r and in %r)" % (
                rec["tag"], key[1], out[key]["in"], rec["in"]))
        out[key] = rec

    def strip(tag):
        return tag[len(NS):] if tag.startswith(NS) else "?" + tag

    def walk(el, cid):
        for c in el:
            tag = strip(c.tag)
            if tag in ("incoming", "outgoing") or tag.endswith("EventDefinition"):
                if el.tag == NS + "process":
                    raise Violation("misplaced", "a %s element lies directly in process %r" % (tag, cid))
                continue
            at = dict(c.attrib)
            eid = at.pop("id", None)
            at.setdefault("name", "")
            if tag == "sequenceFlow":
                rec = {"tag": tag, "in": cid, "attrs": at}
                kids = list(c)
                conds = [k for k in kids if strip(k.tag) == "conditionExpression"]
                if len(conds) != len(kids) or len(conds) > 1:
                    raise Violation("children", "sequence flow %r holds %s" % (eid, [strip(k.tag) for k in kids]))
                if conds:
                    rec["cond"] = [conds[0].attrib.get("id", ""), conds[0].text or ""]
                add(("flow", eid), rec)
                continue
            rec = {"tag": tag, "in": cid, "incoming": [k.text for k in c if strip(k.tag) == "incoming"],
                   "outgoing": [k.text for k in c if strip(k.tag) == "outgoing"]}
            for k in editor.NODE_ATTRS.get(tag, []):
                if k in M.DEFAULTS and k != "isExpanded":
                    at.setdefault(k, M.DEFAULTS[k])
            rec["attrs"] = at
            if tag in M.DEFS:
                rec["defs"] = [[strip(k.tag), k.attrib.get("id", "")] for k in c if strip(k.tag).endswith("EventDefinition")]
            add(("node", eid), rec)
            if tag == "subProcess":
                walk(c, eid)
            else:
                for k in c:
                    kt = strip(k.tag)
                    if kt not in ("incoming", "outgoing") and not (tag in M.DEFS and kt.endswith("EventDefinition")):
                        raise Violation("misplaced", "%s %r holds a %s element" % (tag, eid, kt))
    for c in root:
        tag = strip(c.tag)
        if tag != "process":
            raise Violation("extra", "the exported document holds a %s element" % tag)
        at = dict(c.attrib)
        pid = at.pop("id", None)
        at.setdefault("name", "")
        for k in ("isClosed", "isExecutable", "processType"):
            at.setdefault(k, M.DEFAULTS[k])
        add(("process", pid), {"tag": "process", "in": None, "attrs": at})
        walk(c, pid)
    return out


def verify(data, m, when):
    need(data is not None, "no-file", "%s there is no file" % when)
    got = {"%s %s" % k: v for k, v in parsed(data).items()}
    want = {"%s %s" % k: v for k, v in expected(m).items()}
    df = M.diff(want, got)
    if df:
        raise Violation("content", "%s the document differs from the diagram: %s" % (when, "; ".join(df)))


def run(w, plan):
    st = {"n": 0}

    def boot():
        st["n"] += 1
        p = w.proc("p%d" % st["n"])
        return p, w.task(p, p.name, ent("%s-%d" % (plan["ent"], st["n"])))
    p, t = boot()
    call = lambda fn, **k: w.call(t, fn, **k)
    d = w.path("out") + "/"
    ed = origin = None
    hits = restarts = 0
    for j, op in enumerate(plan["ops"]):
        k = op["op"]
        o = None
        if k == "origin":
            origin = op["origin"]
            ed = C.make(origin, p, call, w.path("in%d" % j), layout_csv=False)
        elif k == "restart":
            w.kill(p)
            p, t = boot()
            restarts += 1
            ed = C.make(origin, p, call, w.path("in%d" % j), layout_csv=False)
        elif ed is None:
            continue
        elif k == "edit":
            for e in op["edits"]:
                x = ed.apply(e)
                if x is not None and x is not True:
                    C.expect_ok(x, "edit-failed", "edit %s" % e[0])
        elif k == "other":
            o = call(C.export_fn(p, ed.dg, op["fmt"], d, "other"), faults=op["faults"], measure={"io": 10, "line": 400, "io:write": 2})
        else:
            n = len(ed.m["nodes"]) + len(ed.m["flows"])
            o = call(C.export_fn(p, ed.dg, "nodi", d, w.nm("f%d" % op["file"])), faults=op["faults"], scope=op["scope"], short=op["short"],
                     measure={"io": 12, "line": (60 + 25 * n) * (1 if op["scope"] == "repo" else 5), "io:write": 3, "io:close": 2,
                              "io:open_w": 2, "io:mkdir": 1, "io:replace": 1})
            if not o.ok and not o.fired and not o.crashed:
                raise Violation("failed", "an export without diagram interchange %s although nothing failed" % o.describe())
            if o.ok:
                verify(read_file(d + w.nm("f%d" % op["file"])), ed.m, "after export %d (%d faults and %d restarts before)" % (j, hits, restarts))
        if o is not None:
            hits += len(o.fired)
            if o.crashed:
                p, t = boot()
                restarts += 1
                ed = C.make(origin, p, call, w.path("in%d" % j), layout_csv=False)
        if ed is not None:
            w.state(len(ed.m["procs"]), len(ed.m["nodes"]), len(ed.m["flows"]), hits)
    return {"hits": hits, "restarts": restarts, "shape": [hits, restarts] if hits or restarts else None}
