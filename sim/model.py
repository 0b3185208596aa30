"""Reference model: abstract documents, an independent BPMN writer, snapshots of real diagrams, comparison."""
import copy
import random

TASKS = ["task", "userTask", "serviceTask", "manualTask"]
GATES = ["exclusiveGateway", "inclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"]
START_DEFS = ["message", "timer", "conditional", "signal", "escalation"]
END_DEFS = ["terminate", "escalation", "message", "compensate", "signal", "error"]
CATCH_DEFS = ["message", "timer", "signal", "conditional", "escalation"]
THROW_DEFS = ["message", "signal", "escalation", "compensate"]
BOUND_DEFS = ["message", "timer", "signal", "conditional", "escalation", "error"]
DEFS = {"startEvent": START_DEFS, "endEvent": END_DEFS, "intermediateCatchEvent": CATCH_DEFS,
        "intermediateThrowEvent": THROW_DEFS, "boundaryEvent": BOUND_DEFS}
DIRS = ["Unspecified", "Converging", "Diverging", "Mixed"]
PTYPES = ["None", "Public", "Private"]
BOOL = ["true", "false"]

WORDS = ["Order", "ship goods", "check", "Pay", "a", "Z", "goto", "else", "yes", "no", "None", "null", "NA", "nan",
         "true", "1", "007", "1.50", "x,y", "say \"hi\"", "it's", "a<b", "a>b", "a & b", "&amp;", "]]>", "<![CDATA[",
         "<!-- c -->", "ünïcode", "zażółć", "日本語", "Ωμέγα", "\U0001F600 go", "e\u0301", "\u00a0nbsp", "{}", "%s",
         "\\n", "a/b", "a:b", "bpmn:task", "id", "name", "process", "gui", "_gui", "#", "$x > 3", "100%", "\u2028x",
         "İı", "ß", "\u200d", "-", "--", "@", ";", "=1+1", "\ufeffbom", "\x7f", "\x85", "ﬁ", "é", "Å", "①", "A\u030a"]
GEOM = ["0", "1", "100", "150", "36", "80.5", "-20", "-0.5", "1e2", "99999", "12.3456789012", "250", "300.0", "475",
        "+5", "007", "1.50", "1e-3", "0.1", "-0", "1234567890123456789", "0.30000000000000004", ".5", "5."]


def gen_text(rng, multi=True, allow_empty=True, big=True, cr=True):
    r = rng.random()
    if allow_empty and r < 0.12:
        return ""
    if r < 0.45:
        s = rng.choice(WORDS)
    elif r < 0.80:
        s = " ".join(rng.choice(WORDS) for _ in range(rng.randint(2, 4)))
    elif r < 0.95:
        s = "N%d" % rng.randint(0, 99)
    elif big and r < 0.965:
        s = rng.choice(["long ", "żó", "<&\"'>", "x" * 63]) * rng.choice([40, 400, 1700, 9000])
    else:
        s = rng.choice(WORDS) + rng.choice(["", " "]) + "N%d" % rng.randint(0, 9)
    if multi and rng.random() < 0.10:
        s = rng.choice(["\n", "\t", "  ", " "] + (["\r", "\r\n"] if cr else [])).join([s, rng.choice(WORDS)])
    if rng.random() < 0.05:
        s = rng.choice([" ", "  ", "\t" if multi else " "]) + s
    if rng.random() < 0.05:
        s = s + rng.choice([" ", "   ", "\n" if multi else " "])
    return s


def gen_id(rng, used, hint="e"):
    for _ in range(200):
        r = rng.random()
        if r < 0.35:
            s = "%s_%d" % (hint, rng.randint(1, 60))
        elif r < 0.5:
            s = rng.choice(["A", "a", "AA", "Aa", "x", "X", "x1", "x11", "x111", "1", "2", "10", "é", "Zażółć", "任务"])
        elif r < 0.65:
            s = rng.choice(["sid-", "id", "_", "Task.", "n-"]) + "%08x" % rng.getrandbits(32)
        elif r < 0.75 and used:
            s = rng.choice(sorted(used)) + rng.choice(["_gui", "1", "_", "x", "_join", "__b"])
        elif r < 0.8 and used:
            s = rng.choice(sorted(used)).swapcase()
        else:
            s = "%s%d%s" % (hint, rng.randint(0, 9), rng.choice(["", "-b", ".c", "_d"]))
        if rng.random() < 0.02:
            s += "." + "long-id-" * rng.choice([8, 20, 40]) + str(len(used))
        if s not in used and len(s) < 400:
            used.add(s)
            return s
    s = "%s_u%d" % (hint, len(used))
    used.add(s)
    return s


def gen_geom(rng):
    if rng.random() < 0.6:
        return str(rng.randint(0, 900))
    return rng.choice(GEOM)


def gen_bounds(rng):
    return {"width": gen_geom(rng), "height": gen_geom(rng), "x": gen_geom(rng), "y": gen_geom(rng)}


def gen_way(rng, lo=2, hi=5):
    if rng.random() < 0.02:
        hi = 40
    return [[gen_geom(rng), gen_geom(rng)] for _ in range(rng.randint(lo, hi))]


def gen_node(rng, used, container, typ):
    n = {"id": gen_id(rng, used, typ[:4]), "type": typ, "name": gen_text(rng), "process": container, "attrs": {},
         "b": gen_bounds(rng)}
    a = n["attrs"]
    if typ in TASKS or typ == "subProcess":
        if rng.random() < 0.2:
            a["default"] = "?"  # resolved to one of its outgoing flows when the document is materialised
    if typ == "subProcess":
        a["triggeredByEvent"] = rng.choice(BOOL)
        a["isExpanded"] = rng.choice(BOOL)
    elif typ == "dataObject":
        a["isCollection"] = rng.choice(BOOL)
    elif typ in GATES:
        a["gatewayDirection"] = rng.choice(DIRS)
        if typ in ("exclusiveGateway", "inclusiveGateway", "complexGateway") and rng.random() < 0.5:
            a["default"] = "?"
        if typ == "eventBasedGateway":
            a["instantiate"] = rng.choice(BOOL)
            a["eventGatewayType"] = rng.choice(["Exclusive", "Parallel"])
    elif typ in DEFS:
        if typ != "endEvent" and typ != "intermediateThrowEvent":
            a["parallelMultiple"] = rng.choice(BOOL)
        if typ == "startEvent":
            a["isInterrupting"] = rng.choice(BOOL)
        if typ == "boundaryEvent":
            a["cancelActivity"] = rng.choice(BOOL)
            a["attachedToRef"] = "?"
        k = rng.choice([0, 0, 1, 1, 1, 2, 2, 3, 4]) if rng.random() < 0.98 else rng.randint(5, 12)
        n["defs"] = [[gen_id(rng, used, "def") if rng.random() < 0.85 else "", rng.choice(DEFS[typ]) + "EventDefinition"]
                     for _ in range(k)]
    return n


ALL_TYPES = TASKS + GATES + list(DEFS) + ["subProcess", "subProcess", "dataObject", "task", "task", "exclusiveGateway"]


def gen_loops(rng, by):
    """Flows of processes that lead from a first node through loops and side branches."""
    out = []
    for c, m in by.items():
        m = m[:rng.randint(3, 12)]
        if len(m) < 4:
            continue
        side = m[rng.randint(3, len(m)):]
        m = m[:len(m) - len(side)]
        out += [(c, m[i], m[i + 1]) for i in range(len(m) - 1)]
        for _ in range(rng.randint(1, 3)):
            j = rng.randint(2, len(m) - 1)
            if j >= 3:
                out.append((c, m[j], m[rng.randint(1, j - 2)]))
        out += [(c, rng.choice(m), x) for x in side]
    if rng.random() < 0.6:
        rng.shuffle(out)
    return out


def gen_doc(rng, size=None, collab=None, lanes=None, selfloops=False, types=None, ids=None):
    """A random abstract BPMN document (JSON)."""
    used = ids if ids is not None else set()
    size = size if size is not None else rng.choice([2, 3, 4, 6, 8, 12, 20])
    if rng.random() < 0.01:
        size = rng.randint(60, 160)
    doc = {"diagram": {"id": gen_id(rng, used, "Diagram"), "name": gen_text(rng)},
           "plane": {"id": gen_id(rng, used, "Plane")}, "processes": [], "nodes": [], "flows": [], "collab": None}
    types = types or ALL_TYPES
    nproc = rng.choice([1, 1, 1, 1, 1, 1, 2, 2, 3, 3, 4, 6]) if collab is not False else 1
    containers = []
    for _ in range(nproc):
        p = {"id": gen_id(rng, used, "Process"), "name": gen_text(rng), "isClosed": rng.choice(BOOL),
             "isExecutable": rng.choice(BOOL), "processType": rng.choice(PTYPES), "laneSet": None}
        doc["processes"].append(p)
        containers.append(p["id"])
    top = list(containers)
    deep = rng.random() < 0.06      # subprocesses in subprocesses in ...
    for _ in range(size):
        typ = rng.choice(types)
        if deep and "subProcess" in types and rng.random() < 0.5:
            typ = "subProcess"
        n = gen_node(rng, used, containers[-1] if deep and rng.random() < 0.8 else rng.choice(containers), typ)
        doc["nodes"].append(n)
        if typ == "subProcess" and (deep or rng.random() < 0.6):
            containers.append(n["id"])
    pairs = set()
    by = {}
    for n in doc["nodes"]:
        by.setdefault(n["process"], []).append(n["id"])
    nflow = rng.randint(0, int(size * 1.6) + 1)
    wanted = gen_loops(rng, by) if rng.random() < 0.2 else []
    for i in range(nflow + len(wanted)):
        if i < len(wanted):
            c, a, b = wanted[i]
        else:
            c = rng.choice(containers)
            m = by.get(c, [])
            if not m:
                continue
            a, b = rng.choice(m), rng.choice(m)
        if a == b and not (selfloops and rng.random() < 0.3):
            continue
        key = (min(a, b), max(a, b))
        if key in pairs:
            continue
        pairs.add(key)
        f = {"id": gen_id(rng, used, "flow"), "process": c, "src": a, "dst": b, "name": gen_text(rng),
             "cond": None, "way": gen_way(rng), "ko": rng.randint(0, 999), "ki": rng.randint(0, 999)}
        if rng.random() < 0.3:
            f["cond"] = [gen_id(rng, used, "cond") if rng.random() < 0.8 else "",
                         gen_text(rng, cr=False)]
            r = rng.random()
            if r < 0.45:
                f["name"] = ""
            elif r < 0.65:      # label and condition resemble each other
                f["name"] = rng.choice(["a", "x > 1", "Pay", "yes"])
                f["cond"][1] = rng.choice(["%s", "%s ", "%s > b", " %s", "not %s", "%s%s"]).replace("%s", f["name"])
        doc["flows"].append(f)
    for p in doc["processes"]:
        mine = by.get(p["id"], [])
        if (lanes if lanes is not None else rng.random() < 0.35):
            p["laneSet"] = gen_laneset(rng, used, mine, rng.randint(0, 2))
    if (collab if collab is not None else rng.random() < 0.45):
        parts = []
        for p in top:
            if rng.random() < 0.8:
                parts.append({"id": gen_id(rng, used, "Part"), "name": gen_text(rng), "processRef": p,
                              "isHorizontal": rng.choice(BOOL), "b": gen_bounds(rng)})
        ends = [n["id"] for n in doc["nodes"] if n["process"] in top]
        for _ in range(rng.choice([0, 1, 1, 2])):
            q = {"id": gen_id(rng, used, "Box"), "name": gen_text(rng), "processRef": "",
                 "isHorizontal": rng.choice(BOOL), "b": gen_bounds(rng)}
            parts.append(q)
            ends.append(q["id"])
        rng.shuffle(parts)
        mfs = []
        for _ in range(rng.randint(0, 4) if rng.random() < 0.96 else rng.randint(5, 15)):
            if len(ends) < 2:
                break
            a, b = rng.sample(ends, 2)
            key = (min(a, b), max(a, b))
            if key in pairs:
                continue
            pairs.add(key)
            mfs.append({"id": gen_id(rng, used, "mf"), "name": gen_text(rng), "src": a, "dst": b, "way": gen_way(rng),
                        "ko": rng.randint(0, 999), "ki": rng.randint(0, 999)})
        doc["collab"] = {"id": gen_id(rng, used, "Collab"), "participants": parts, "mflows": mfs}
    if rng.random() < 0.15:
        coincide(rng, doc)
    return doc


def coincide(rng, doc):
    """Texts that are at the same time the identifier or name of something else."""
    named = [doc["diagram"]] + doc["processes"] + doc["nodes"] + doc["flows"]
    ids = [x["id"] for x in named] + [doc["plane"]["id"]]
    if doc["collab"]:
        named = named + doc["collab"]["participants"] + doc["collab"]["mflows"]
        ids += [x["id"] for x in doc["collab"]["participants"] + doc["collab"]["mflows"]] + [doc["collab"]["id"]]
    for _ in range(rng.randint(1, 6)):
        x = rng.choice(named)
        x["name"] = rng.choice([x["id"], rng.choice(ids), doc["plane"]["id"], rng.choice(named)["name"]])


def vary(rng, doc):
    """Another document with the same identifiers."""
    d = copy.deepcopy(doc)
    for n in d["nodes"]:
        if rng.random() < 0.7:
            n["name"], n["b"] = gen_text(rng), gen_bounds(rng)
    for f in d["flows"]:
        if rng.random() < 0.7:
            f["name"], f["way"] = gen_text(rng), gen_way(rng)
            if rng.random() < 0.3:
                f["src"], f["dst"] = f["dst"], f["src"]
            f["cond"] = None if f["cond"] else [f["id"] + "_c", gen_text(rng, cr=False)]
    for p in d["processes"]:
        p["name"] = gen_text(rng)
    return d


def gen_laneset(rng, used, nodes, depth):
    ls = {"id": gen_id(rng, used, "laneset") if rng.random() < 0.9 else "", "lanes": []}
    for _ in range(rng.randint(1, 3) if rng.random() < 0.95 else rng.randint(4, 11)):
        lane = {"id": gen_id(rng, used, "lane"), "name": gen_text(rng), "isHorizontal": rng.choice(BOOL),
                "b": gen_bounds(rng), "refs": [x for x in nodes if rng.random() < 0.5], "child": None}
        if depth > 0 and rng.random() < 0.5:
            lane["child"] = gen_laneset(rng, used, nodes, depth - 1)
        ls["lanes"].append(lane)
    return ls


def tidy(doc):
    """Drops whatever refers to elements that are gone (shrinking removes list entries), fixes open references.
    Also decides incoming/outgoing orders. Returns a new, closed document."""
    d = copy.deepcopy(doc)
    if not d["processes"]:
        d["nodes"], d["flows"], d["collab"] = [], [], None
    conts = {p["id"] for p in d["processes"]}
    nodes, changed = d["nodes"], True
    while changed:
        subs = {n["id"] for n in nodes if n["type"] == "subProcess"}
        keep = [n for n in nodes if n["process"] in conts or n["process"] in subs]
        changed = len(keep) != len(nodes)
        nodes = keep
    d["nodes"] = nodes
    ids = {n["id"]: n for n in nodes}
    d["flows"] = [f for f in d["flows"] if f["src"] in ids and f["dst"] in ids]
    boxes = set()
    if d["collab"]:
        boxes = {p["id"] for p in d["collab"]["participants"] if not p["processRef"]}
        d["collab"]["participants"] = [p for p in d["collab"]["participants"]
                                       if not p["processRef"] or p["processRef"] in conts]
        d["collab"]["mflows"] = [m for m in d["collab"]["mflows"]
                                 if (m["src"] in ids or m["src"] in boxes) and (m["dst"] in ids or m["dst"] in boxes)]
    allf = list(d["flows"]) + (list(d["collab"]["mflows"]) if d["collab"] else [])
    for n in nodes:
        n["out"] = [f["id"] for f in sorted((f for f in allf if f["src"] == n["id"]), key=lambda f: f["ko"])]
        n["in"] = [f["id"] for f in sorted((f for f in allf if f["dst"] == n["id"]), key=lambda f: f["ki"])]
        if n["attrs"].get("default") == "?":
            mine = [f["id"] for f in d["flows"] if f["src"] == n["id"]]
            if mine:
                n["attrs"]["default"] = mine[0]
            else:
                del n["attrs"]["default"]
        if n["attrs"].get("attachedToRef") == "?":
            acts = [m["id"] for m in nodes if m["process"] == n["process"] and
                    (m["type"] in TASKS or m["type"] == "subProcess")]
            n["attrs"]["attachedToRef"] = n["process"] if n["id"].endswith(("1", "e", "0")) else acts[0] if acts else "none"

    def lanes(ls):
        for l in ls["lanes"]:
            l["refs"] = [r for r in l["refs"] if r in ids]
            if l["child"]:
                lanes(l["child"])
    for p in d["processes"]:
        if p["laneSet"]:
            lanes(p["laneSet"])
    d["plane"]["bpmnElement"] = d["collab"]["id"] if d["collab"] else (d["processes"][0]["id"] if d["processes"] else "")
    return d


# -- expected snapshot of a loaded document -----------------------------------------------------

def _lanes_snap(ls):
    if not ls:
        return None
    return {"id": ls["id"], "lanes": {l["id"]: {"name": l["name"], "isHorizontal": l["isHorizontal"],
                                                "width": l["b"]["width"], "height": l["b"]["height"],
                                                "x": l["b"]["x"], "y": l["b"]["y"], "refs": sorted(l["refs"]),
                                                "child": _lanes_snap(l["child"])} for l in ls["lanes"]}}


def doc_snap(d, style=None):
    """What loading the document must produce, in the format of snap()."""
    style = style or {}
    omit = style.get("omit_refs")
    s = {"diagram": dict(d["diagram"]), "plane": dict(d["plane"]), "procs": {}, "nodes": {}, "flows": {}, "seq": {},
         "collab": None}
    for p in d["processes"]:
        s["procs"][p["id"]] = {"name": p["name"], "isClosed": p["isClosed"], "isExecutable": p["isExecutable"],
                               "processType": p["processType"], "laneSet": _lanes_snap(p["laneSet"])}
    mflows = d["collab"]["mflows"] if d["collab"] else []
    allf = list(d["flows"]) + list(mflows)
    for n in d["nodes"]:
        e = {"type": n["type"], "node_name": n["name"], "process": n["process"]}
        e.update(n["b"])
        e.update(n["attrs"])
        if omit:
            e["incoming"] = [f["id"] for f in allf if f["dst"] == n["id"]]
            e["outgoing"] = [f["id"] for f in allf if f["src"] == n["id"]]
        else:
            e["incoming"] = list(n["in"])
            e["outgoing"] = list(n["out"])
        if n["type"] in DEFS:
            e["event_definitions"] = [list(x) for x in n.get("defs", [])]
        s["nodes"][n["id"]] = e
    for f in d["flows"]:
        e = {"name": f["name"], "process": f["process"], "sourceRef": f["src"], "targetRef": f["dst"],
             "waypoints": [list(w) for w in f["way"]]}
        if f["cond"]:
            e["cond"] = list(f["cond"])
        s["flows"][f["id"]] = e
        s["seq"][f["id"]] = [f["name"], f["src"], f["dst"]]
    if d["collab"]:
        c = d["collab"]
        s["collab"] = {"id": c["id"], "participants": {}, "mflows": {}}
        for p in c["participants"]:
            e = {"name": p["name"], "processRef": p["processRef"], "isHorizontal": p["isHorizontal"]}
            e.update(p["b"])
            s["collab"]["participants"][p["id"]] = e
            if not p["processRef"]:
                g = {"type": "participant", "process": p["id"]}
                g.update(p["b"])
                outs = [m["id"] for m in mflows if m["src"] == p["id"]]
                ins = [m["id"] for m in mflows if m["dst"] == p["id"]]
                if outs:
                    g["outgoing"] = outs
                if ins:
                    g["incoming"] = ins
                s["nodes"][p["id"]] = g
        for m in c["mflows"]:
            s["collab"]["mflows"][m["id"]] = {"name": m["name"], "sourceRef": m["src"], "targetRef": m["dst"]}
            s["flows"][m["id"]] = {"name": m["name"], "sourceRef": m["src"], "targetRef": m["dst"],
                                   "waypoints": [list(w) for w in m["way"]]}
    return s


# -- snapshots of real diagrams ---------------------------------------------------------------------

def _real_lanes(ls):
    if not ls:
        return None
    out = {"id": ls.get("id"), "lanes": {}}
    for k, l in ls.get("lanes", {}).items():
        e = {a: l.get(a) for a in ("name", "isHorizontal", "width", "height", "x", "y")}
        e["refs"] = sorted(l.get("flowNodeRefs", []))
        e["child"] = _real_lanes(l.get("childLaneSet"))
        out["lanes"][k] = e
    return out


def snap(dg):
    """The diagram as the model sees it, read from its documented fields."""
    s = {"diagram": dict(dg.diagram_attributes), "plane": dict(dg.plane_attributes), "procs": {}, "nodes": {},
         "flows": {}, "seq": {}, "collab": None}
    for pid, p in dg.process_elements.items():
        e = {k: v for k, v in p.items() if k not in ("node_ids", "laneSet", "id")}
        if "id" in p and p["id"] != pid:
            e["id"] = p["id"]
        e["laneSet"] = _real_lanes(p.get("laneSet"))
        s["procs"][pid] = e
    for nid, a in dg.diagram_graph.nodes(data=True):
        e = {}
        for k, v in a.items():
            if k == "node_ids" or v is None:
                continue
            if k == "id":
                if v != nid:
                    e["id"] = v
                continue
            if k == "event_definitions":
                v = [[x.get("id"), x.get("definition_type")] for x in v]
            elif isinstance(v, (list, tuple)):
                v = list(v)
            e[k] = v
        if e.get("type") == "participant":
            for k in ("incoming", "outgoing"):
                if e.get(k) == []:
                    del e[k]
        s["nodes"][nid] = e
    for u, v, a in dg.diagram_graph.edges(data=True):
        e = {}
        fid = a.get("id")
        for k, x in a.items():
            if k == "id" or x is None:
                continue
            if k == "conditionExpression":
                e["cond"] = [x.get("id"), x.get("conditionExpression")]
            elif k == "waypoints":
                e[k] = [list(w) for w in x]
            else:
                e[k] = x
        if {u, v} != {a.get("sourceRef"), a.get("targetRef")}:
            e["joins"] = sorted([str(u), str(v)])
        key = fid
        i = 1
        while key in s["flows"]:
            i += 1
            key = "%s (copy %d)" % (fid, i)
        s["flows"][key] = e
    for fid, a in dg.sequence_flows.items():
        s["seq"][fid] = [a.get("name"), a.get("sourceRef"), a.get("targetRef")]
    c = dg.collaboration
    if c:
        s["collab"] = {"id": c.get("id"), "participants": {}, "mflows": {}}
        for k, p in (c.get("participants") or {}).items():
            s["collab"]["participants"][k] = dict(p)
        for k, m in (c.get("messageFlows") or {}).items():
            s["collab"]["mflows"][k] = {a: b for a, b in m.items() if not (a == "id" and b == k)}
    return s


def saved(s):
    """What a saved diagram is after loading: the two normalisations of the format."""
    s = copy.deepcopy(s)
    for fid, f in s["flows"].items():
        if "cond" in f and not f.get("name"):
            f["name"] = f["cond"][1]
    for fid in s["seq"]:
        if fid in s["flows"]:
            s["seq"][fid][0] = s["flows"][fid].get("name")
    for n in s["nodes"].values():
        if n.get("type") == "subProcess":
            n.setdefault("isExpanded", "false")
        if n.get("type") not in DEFS and n.get("event_definitions") == []:
            del n["event_definitions"]  # only events have event definitions
    s["diagram"].setdefault("name", "")
    if s["collab"]:
        # a black-box participant's node lists are rebuilt from the message flows
        for nid, n in s["nodes"].items():
            if n.get("type") == "participant":
                for key, ref in (("incoming", "targetRef"), ("outgoing", "sourceRef")):
                    lst = [m for m, a in s["collab"]["mflows"].items() if a.get(ref) == nid]
                    n.pop(key, None)
                    if lst:
                        n[key] = sorted(lst)
    return s


def loaded(s):
    """Snapshot of a loaded diagram, made comparable with saved()."""
    s = copy.deepcopy(s)
    for nid, n in s["nodes"].items():
        if n.get("type") == "participant":
            for key in ("incoming", "outgoing"):
                if key in n:
                    n[key] = sorted(n[key])
    return s


def diff(a, b, path="", out=None, limit=6):
    """Differences between expected a and actual b."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in b:
                out.append("%s/%s: missing (expected %s)" % (path, _sh(k), _sh(a[k])))
            elif k not in a:
                out.append("%s/%s: unexpected %s" % (path, _sh(k), _sh(b[k])))
            else:
                diff(a[k], b[k], "%s/%s" % (path, _sh(k)), out, limit)
            if len(out) >= limit:
                break
    elif type(a) is not type(b) or a != b:
        out.append("%s: expected %s, got %s" % (path, _sh(a), _sh(b)))
    return out


def _sh(x):
    s = x if isinstance(x, str) else repr(x)
    s = s.encode("unicode_escape").decode("ascii")
    return s if len(s) < 90 else s[:60] + "...(%d)" % len(s)


def raw(dg):
    """Everything in the diagram's documented fields, with order and types: for 'exactly as it was'."""
    return repr((list(dg.diagram_graph.nodes(data=True)),
                 [(u, [(v, d) for v, d in nb.items()]) for u, nb in dg.diagram_graph.adj.items()],
                 dg.diagram_graph.graph, dg.sequence_flows, dg.process_elements, dg.diagram_attributes,
                 dg.plane_attributes, dg.collaboration))


def structure(dg):
    """Everything but node positions and flow waypoints, with order and types."""
    def less(d, keys):
        return {k: v for k, v in d.items() if k not in keys}
    return repr(([(n, less(a, ("x", "y"))) for n, a in dg.diagram_graph.nodes(data=True)],
                 [(u, [(v, less(d, ("waypoints",))) for v, d in nb.items()]) for u, nb in dg.diagram_graph.adj.items()],
                 dg.diagram_graph.graph, dg.sequence_flows, dg.process_elements, dg.diagram_attributes,
                 dg.plane_attributes, dg.collaboration))


# -- independent writer of BPMN 2.0 XML ------------------------------------------------------------

def _esc(s, attr=True):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s.replace("\r", "&#13;").replace("\x85", "&#x85;").replace("\u2028", "&#x2028;")


def gen_style(rng):
    return {"p": rng.choice(["", "bpmn", "bpmn2", "semantic"]), "di": rng.choice(["bpmndi", "di0"]),
            "nl": rng.choice(["", "\n", "\n  "]), "order": rng.sample(["collab", "processes", "diagram"], 3),
            "omit_refs": rng.random() < 0.25, "omit_defaults": rng.random() < 0.3, "shuf": rng.randint(0, 1 << 30),
            "enc": rng.choice(["utf-8", "utf-8", "utf-8", "utf-16", "ascii"]),
            "parts_first": rng.random() < 0.5, "di_shuffle": rng.random() < 0.5}


DEFAULTS = {"isClosed": "false", "isExecutable": "false", "processType": "None", "triggeredByEvent": "false",
            "isCollection": "false", "gatewayDirection": "Unspecified", "instantiate": "false",
            "eventGatewayType": "Exclusive", "parallelMultiple": "false", "isInterrupting": "true",
            "cancelActivity": "true", "isExpanded": "false"}


def write_doc(d, style):
    """Serialises the document; ``d`` must be tidy. Returns bytes."""
    rng = random.Random(style["shuf"])
    pre = style["p"] + ":" if style["p"] else ""
    di = style["di"] + ":"
    nl = style["nl"]
    out = []

    def attrs(lst):
        lst = [(k, v) for k, v in lst if v is not None and not (style["omit_defaults"] and DEFAULTS.get(k) == v)
               and not (k == "name" and v == "" and style["omit_defaults"])]
        if rng.random() < 0.5:
            rng.shuffle(lst)
        return "".join(' %s="%s"' % (k, _esc(v)) for k, v in lst)

    def el(tag, at, kids="", ns=pre):
        if kids == "":
            return "<%s%s%s/>%s" % (ns, tag, attrs(at), nl)
        return "<%s%s%s>%s%s</%s%s>%s" % (ns, tag, attrs(at), nl if kids.startswith("<") else "", kids, ns, tag, nl)

    def lanes(ls, tag):
        k = []
        for l in ls["lanes"]:
            inner = [lanes(l["child"], "childLaneSet")] if l["child"] else []
            inner += ["<%sflowNodeRef>%s</%sflowNodeRef>%s" % (pre, _esc(r, False), pre, nl) for r in l["refs"]]
            k.append(el("lane", [("id", l["id"]), ("name", l["name"])], "".join(inner)))
        return el(tag, [("id", ls["id"])], "".join(k))

    def container(cid):
        k = []
        for n in d["nodes"]:
            if n["process"] != cid:
                continue
            at = [("id", n["id"]), ("name", n["name"])]
            at += [(a, v) for a, v in n["attrs"].items() if a != "isExpanded"]
            kids = ""
            if not style["omit_refs"]:
                kids += "".join("<%sincoming>%s</%sincoming>%s" % (pre, _esc(x, False), pre, nl) for x in n["in"])
                kids += "".join("<%soutgoing>%s</%soutgoing>%s" % (pre, _esc(x, False), pre, nl) for x in n["out"])
            for did, dt in n.get("defs", []):
                kids += el(dt, [("id", did if did else None)])
            if n["type"] == "subProcess":
                kids += container(n["id"])
            k.append(el(n["type"], at, kids))
        for f in d["flows"]:
            if f["process"] != cid:
                continue
            kids = ""
            if f["cond"]:
                kids = "<%sconditionExpression%s>%s</%sconditionExpression>" % (
                    pre, attrs([("id", f["cond"][0] if f["cond"][0] else None)]), _esc(f["cond"][1], False), pre)
            k.append(el("sequenceFlow", [("id", f["id"]), ("name", f["name"]), ("sourceRef", f["src"]),
                                         ("targetRef", f["dst"])], kids))
        return "".join(k)

    def shape(eid, b, extra=()):
        bounds = "<omgdc:Bounds%s/>" % attrs([(k, b[k]) for k in ("x", "y", "width", "height")])
        return el("BPMNShape", [("id", eid + "_gui"), ("bpmnElement", eid)] + list(extra), bounds, di)

    def edge(eid, way):
        return el("BPMNEdge", [("id", eid + "_gui"), ("bpmnElement", eid)],
                  "".join('<omgdi:waypoint%s/>' % attrs([("x", x), ("y", y)]) for x, y in way), di)

    def lane_shapes(ls, acc):
        for l in ls["lanes"]:
            acc.append(shape(l["id"], l["b"], [("isHorizontal", l["isHorizontal"])]))
            if l["child"]:
                lane_shapes(l["child"], acc)

    parts = {}
    c = d["collab"]
    if c:
        ps = [el("participant", [("id", p["id"]), ("name", p["name"]), ("processRef", p["processRef"] or None)])
              for p in c["participants"]]
        ms = [el("messageFlow", [("id", m["id"]), ("name", m["name"]), ("sourceRef", m["src"]),
                                 ("targetRef", m["dst"])]) for m in c["mflows"]]
        parts["collab"] = el("collaboration", [("id", c["id"])], "".join(ps + ms if style["parts_first"] else ms + ps))
    pr = []
    for p in d["processes"]:
        kids = lanes(p["laneSet"], "laneSet") if p["laneSet"] else ""
        pr.append(el("process", [("id", p["id"]), ("name", p["name"]), ("isClosed", p["isClosed"]),
                                 ("isExecutable", p["isExecutable"]), ("processType", p["processType"])],
                     kids + container(p["id"])))
    parts["processes"] = "".join(pr)
    shapes = []
    if c:
        for p in c["participants"]:
            shapes.append(shape(p["id"], p["b"], [("isHorizontal", p["isHorizontal"])]))
    for p in d["processes"]:
        if p["laneSet"]:
            lane_shapes(p["laneSet"], shapes)
    for n in d["nodes"]:
        ex = [("isExpanded", n["attrs"]["isExpanded"])] if n["type"] == "subProcess" else []
        shapes.append(shape(n["id"], n["b"], ex))
    for f in list(d["flows"]) + (c["mflows"] if c else []):
        shapes.append(edge(f["id"], f["way"]))
    if style["di_shuffle"]:
        rng.shuffle(shapes)
    plane = el("BPMNPlane", [("id", d["plane"]["id"]), ("bpmnElement", d["plane"]["bpmnElement"])],
               "".join(shapes), di)
    parts["diagram"] = el("BPMNDiagram", [("id", d["diagram"]["id"]), ("name", d["diagram"]["name"])], plane, di)
    for k in style["order"]:
        out.append(parts.get(k, ""))
    ns = ' xmlns%s="http://www.omg.org/spec/BPMN/20100524/MODEL"' % (":" + style["p"] if style["p"] else "")
    ns += ' xmlns:%s="http://www.omg.org/spec/BPMN/20100524/DI"' % style["di"]
    ns += ' xmlns:omgdc="http://www.omg.org/spec/DD/20100524/DC" xmlns:omgdi="http://www.omg.org/spec/DD/20100524/DI"'
    enc = style["enc"]
    text = '<?xml version="1.0" encoding="%s"?>\n<%sdefinitions%s>%s%s</%sdefinitions>\n' % (
        "us-ascii" if enc == "ascii" else enc, pre, ns, nl, "".join(out), pre)
    if enc == "ascii":
        return text.encode("ascii", "xmlcharrefreplace")
    return text.encode(enc)
