"""Editing histories: the public building API on one side, the reference model on the other."""
import copy

from . import model as M

NODE_KINDS = ["task", "task", "subprocess", "start", "end", "exclusive", "inclusive", "parallel", "userTask",
              "serviceTask", "manualTask"]
BAD_DIRS = ["Sideways", "", "diverging", "Converging ", "unspecified", "None", "Mixed2"]


def gen_edit(rng, names=None, invalid=0.0, pokes=True, ids=True):
    """One random editing operation (JSON)."""
    text = names or (lambda: M.gen_text(rng) if rng.random() > 0.02 else "@@%d" % rng.randint(0, 999))
    r = rng.random()
    if invalid and rng.random() < invalid:
        k = rng.choice(["gate", "src", "dst", "both", "srcnone"])
        if k == "gate":
            return ["badgate", rng.choice(["exclusive", "inclusive", "parallel", "gateway"]), rng.randint(0, 99),
                    text(), rng.choice(BAD_DIRS), rng.choice([None, "bad%d" % rng.randint(0, 9), "@@%d" % rng.randint(0, 999)])]
        return ["badflow", k, rng.randint(0, 99), rng.randint(0, 99), text(),
                rng.choice(["ghost", "", "id0", "GHOST%d" % rng.randint(0, 5), None])]
    if r < 0.04:
        return ["proc", text(), rng.random() < 0.5, rng.random() < 0.5, rng.choice(M.PTYPES)]
    if r < 0.45:
        kind = rng.choice(NODE_KINDS)
        prm = {}
        if kind == "subprocess":
            prm = {"exp": rng.random() < 0.5, "trig": rng.random() < 0.5}
        elif kind == "start":
            prm = {"def": rng.choice([None] + M.START_DEFS), "par": rng.random() < 0.5, "intr": rng.random() < 0.5}
        elif kind == "end":
            prm = {"def": rng.choice([None] + M.END_DEFS)}
        elif kind in ("exclusive", "inclusive", "parallel"):
            prm = {"dir": rng.choice(M.DIRS + [None])}
            if kind != "parallel" and rng.random() < 0.3:
                prm["default"] = "fl%d" % rng.randint(0, 9) if rng.random() < 0.9 else ""
        nid = None
        if ids and rng.random() < 0.4:
            nid = rng.choice(["n%d", "Task_%d", "é%d", "%d", "a.b-%d", "id%d", "N%d", "n%d_gui"]) % rng.randint(0, 40)
        return ["node", kind, rng.randint(0, 99), text(), nid, prm]
    if r < 0.75 or not pokes:
        return ["flow", rng.randint(0, 999), rng.randint(0, 999), text()]
    return gen_poke(rng, text)


def gen_poke(rng, text):
    r = rng.random()
    if r < 0.46:
        return ["pnode", rng.randint(0, 999), rng.randint(0, 999), text(), rng.choice(M.BOOL), M.gen_geom(rng),
                rng.randint(0, 999)]
    if r < 0.74:
        return ["pflow", rng.randint(0, 999), rng.choice(["name", "way", "cond", "cond", "both"]), text(), M.gen_way(rng),
                [rng.choice(["c%d" % rng.randint(0, 99), ""]), M.gen_text(rng, cr=False)]]
    if r < 0.85:
        return ["pproc", rng.randint(0, 99), rng.choice(["name", "isClosed", "isExecutable", "processType"]), text(),
                rng.choice(M.BOOL), rng.choice(M.PTYPES)]
    if r < 0.89:
        return ["pdiag", text() if rng.random() < 0.7 else "@@-1"]
    if r < 0.92:
        return ["pids", rng.choice(["diagram", "plane"]), rng.choice(["D%d", "id-%d", "x%d_gui", "Ω%d"]) % rng.randint(0, 99)]
    if r < 0.96:
        return ["pcoll", rng.randint(0, 99), rng.choice(["name", "isHorizontal", "x", "y", "width", "height", "flow"]), text(),
                rng.choice(M.BOOL), M.gen_geom(rng)]
    return ["plane", rng.randint(0, 99), rng.choice(["name", "isHorizontal", "x", "y", "width", "height", "refs"]), text(),
            rng.choice(M.BOOL), M.gen_geom(rng), rng.randint(0, 99)]


NODE_ATTRS = {
    "subProcess": ["triggeredByEvent", "isExpanded", "default"],
    "dataObject": ["isCollection"], "startEvent": ["parallelMultiple", "isInterrupting", "defs"],
    "intermediateCatchEvent": ["parallelMultiple", "defs"], "intermediateThrowEvent": ["defs"],
    "endEvent": ["defs"], "boundaryEvent": ["parallelMultiple", "cancelActivity", "attachedToRef", "defs"],
    "exclusiveGateway": ["gatewayDirection", "default"], "inclusiveGateway": ["gatewayDirection", "default"],
    "complexGateway": ["gatewayDirection", "default"], "parallelGateway": ["gatewayDirection"],
    "eventBasedGateway": ["gatewayDirection", "instantiate", "eventGatewayType"],
    "task": ["default"], "userTask": ["default"], "serviceTask": ["default"], "manualTask": ["default"],
}


def empty_model():
    return {"diagram": {}, "plane": {}, "procs": {}, "nodes": {}, "flows": {}, "seq": {}, "collab": None}


class Editor(object):
    """One diagram object and its model. ``call(fn)`` runs fn inside the simulation and returns an Outcome."""

    def __init__(self, dg, call):
        self.dg = dg
        self.call = call
        self.m = empty_model()
        self.generated = []   # identifiers the library made up
        self.problems = []
        self.last = None

    def create(self, name):
        o = self.call(lambda: self.dg.create_new_diagram_graph(diagram_name=name))
        self.last = o
        if o.ok:
            self.m = empty_model()
            did = self.dg.diagram_attributes.get("id")
            self.generated.append(did)
            self.m["diagram"] = {"id": did, "name": name}
        return o

    # -- helpers -------------------------------------------------------------------
    def _proc(self, i):
        ps = list(self.m["procs"])
        subs = [n for n, a in self.m["nodes"].items() if a.get("type") == "subProcess"]
        ps += subs
        return ps[i % len(ps)] if ps else None

    def _flow_nodes(self):
        return [n for n, a in self.m["nodes"].items() if a.get("type") not in ("participant", "dataObject")]

    def _node(self, i):
        ns = [n for n, a in self.m["nodes"].items() if a.get("type") != "participant"]
        return ns[i % len(ns)] if ns else None

    def pair_taken(self, a, b):
        return any({f["sourceRef"], f["targetRef"]} == {a, b} for f in self.m["flows"].values())

    def all_ids(self):
        s = set(self.m["nodes"]) | set(self.m["flows"]) | set(self.m["seq"]) | set(self.m["procs"])
        s |= {self.m["diagram"].get("id"), self.m["plane"].get("id")}
        for a in self.m["nodes"].values():
            s |= {d[0] for d in a.get("event_definitions", [])}
        for a in self.m["flows"].values():
            if "cond" in a:
                s.add(a["cond"][0])
        if self.m["collab"]:
            s.add(self.m["collab"]["id"])
            s |= set(self.m["collab"]["participants"])
        return s

    def coincide(self, mark):
        """A text that is at the same time the identifier of something else."""
        m = self.m
        ids = list(m["nodes"]) + list(m["flows"]) + list(m["procs"]) + [m["diagram"].get("id"), m["plane"].get("id")]
        ids = [x for x in ids if isinstance(x, str) and x]
        return ids[int(mark[2:]) % len(ids)] if ids else mark

    # -- operations -----------------------------------------------------------------
    def apply(self, op):
        """Returns the Outcome, or None when the operation does not apply to the present diagram."""
        self.last = None
        op = [self.coincide(x) if isinstance(x, str) and x[:2] == "@@" else x for x in op]
        o = getattr(self, "op_" + op[0])(*op[1:])
        self.last = o
        return o

    def op_proc(self, name, closed, exe, ptype):
        o = self.call(lambda: self.dg.add_process_to_diagram(process_name=name, process_is_closed=closed,
                                                             process_is_executable=exe, process_type=ptype))
        if o.ok:
            pid = o.value
            plane = self.dg.plane_attributes.get("id")
            self.generated += [pid, plane]
            self.m["procs"][pid] = {"name": name, "isClosed": "true" if closed else "false",
                                    "isExecutable": "true" if exe else "false", "processType": ptype, "laneSet": None}
            self.m["plane"] = {"id": plane, "bpmnElement": pid}
        return o

    def op_node(self, kind, pidx, name, nid, prm):
        pid = self._proc(pidx)
        if pid is None:
            return None
        if nid is not None and nid in self.all_ids():
            nid = None
        d = self.dg
        if kind == "task":
            fn = lambda: d.add_task_to_diagram(pid, task_name=name, node_id=nid)
            typ, at = "task", {}
        elif kind in ("userTask", "serviceTask", "manualTask"):
            fn = lambda: d.add_flow_node_to_diagram(pid, kind, name, node_id=nid)
            typ, at = kind, {}
        elif kind == "subprocess":
            fn = lambda: d.add_subprocess_to_diagram(pid, subprocess_name=name, is_expanded=prm["exp"],
                                                     triggered_by_event=prm["trig"], node_id=nid)
            typ = "subProcess"
            at = {"isExpanded": "true" if prm["exp"] else "false",
                  "triggeredByEvent": "true" if prm["trig"] else "false"}
        elif kind == "start":
            fn = lambda: d.add_start_event_to_diagram(pid, start_event_name=name, start_event_definition=prm["def"],
                                                      parallel_multiple=prm["par"], is_interrupting=prm["intr"],
                                                      node_id=nid)
            typ = "startEvent"
            at = {"parallelMultiple": "true" if prm["par"] else "false",
                  "isInterrupting": "true" if prm["intr"] else "false",
                  "event_definitions": [prm["def"] + "EventDefinition"] if prm["def"] else []}
        elif kind == "end":
            fn = lambda: d.add_end_event_to_diagram(pid, end_event_name=name, end_event_definition=prm["def"],
                                                    node_id=nid)
            typ = "endEvent"
            at = {"event_definitions": [prm["def"] + "EventDefinition"] if prm["def"] else []}
        else:
            kw = {"gateway_name": name, "node_id": nid}
            if prm.get("dir") is not None:
                kw["gateway_direction"] = prm["dir"]
            if kind != "parallel" and "default" in prm:
                kw["default"] = prm["default"]
            meth = {"exclusive": d.add_exclusive_gateway_to_diagram, "inclusive": d.add_inclusive_gateway_to_diagram,
                    "parallel": d.add_parallel_gateway_to_diagram}[kind]
            fn = lambda: meth(pid, **kw)
            typ = kind + "Gateway"
            at = {"gatewayDirection": prm.get("dir") or "Unspecified"}
            if kw.get("default") is not None:
                at["default"] = kw["default"]
        o = self.call(fn)
        if o.ok:
            rid, rattrs = o.value
            if nid is None:
                self.generated.append(rid)
            elif rid != nid:
                self.problems.append("node asked for id %r got %r" % (nid, rid))
            live = self.dg.diagram_graph.nodes
            if rid not in live or rattrs is not live[rid]:
                self.problems.append("returned attributes are not those of node %r" % (rid,))
            e = {"type": typ, "node_name": name, "incoming": [], "outgoing": [], "process": pid, "width": "100",
                 "height": "100", "x": "100", "y": "100"}
            if "event_definitions" in at:
                real = rattrs.get("event_definitions") or []
                ids = [x.get("id") for x in real]
                self.generated += ids
                at = dict(at)
                if len(ids) == len(at["event_definitions"]):
                    at["event_definitions"] = [[i, t] for i, t in zip(ids, at["event_definitions"])]
                else:
                    at["event_definitions"] = [["?", t] for t in at["event_definitions"]]
            e.update(at)
            self.m["nodes"][rid] = e
        return o

    def op_flow(self, s, t, name):
        ns = self._flow_nodes()
        if len(ns) < 2:
            return None
        a, b = ns[s % len(ns)], ns[t % len(ns)]
        if s % 8 == 5:      # from a node to itself
            b = a
        elif a == b:
            b = ns[(t + 1) % len(ns)]
        pid = self.m["nodes"][a]["process"]
        if self.pair_taken(a, b) or self.m["nodes"][b]["process"] != pid:
            return None
        if t % 8 == 5:      # listed under another process or subprocess than its ends
            pid = self._proc(s + t) or pid
        return self.flow(pid, a, b, name)

    def flow(self, pid, a, b, name):
        o = self.call(lambda: self.dg.add_sequence_flow_to_diagram(pid, a, b, sequence_flow_name=name))
        if o.ok:
            fid, fattrs = o.value
            self.generated.append(fid)
            na, nb = self.m["nodes"][a], self.m["nodes"][b]
            if self.dg.diagram_graph.get_edge_data(a, b) is not fattrs:
                self.problems.append("returned attributes are not those of flow %r" % (fid,))
            self.m["flows"][fid] = {"name": name, "process": pid, "sourceRef": a, "targetRef": b,
                                    "waypoints": [[na["x"], na["y"]], [nb["x"], nb["y"]]]}
            self.m["seq"][fid] = [name, a, b]
            na["outgoing"].append(fid)
            nb["incoming"].append(fid)
        return o

    # rejected edits: the caller checks that they raise and change nothing
    def op_badgate(self, kind, pidx, name, direction, nid):
        pid = self._proc(pidx)
        if pid is None:
            return None
        d = self.dg
        if kind == "gateway":
            return self.call(lambda: d.add_gateway_to_diagram(pid, "exclusiveGateway", gateway_name=name,
                                                              gateway_direction=direction, node_id=nid))
        meth = getattr(d, "add_%s_gateway_to_diagram" % kind)
        return self.call(lambda: meth(pid, gateway_name=name, gateway_direction=direction, node_id=nid))

    def op_badflow(self, which, pidx, n, name, ghost):
        pid = self._proc(pidx)
        node = self._node(n)
        if pid is None or (ghost is not None and ghost in self.m["nodes"]):
            return None
        if which in ("src", "dst") and node is None:
            return None
        a, b = {"src": (ghost, node), "dst": (node, ghost), "both": (ghost, ghost),
                "srcnone": (ghost, node if node is not None else ghost)}[which]
        return self.call(lambda: self.dg.add_sequence_flow_to_diagram(pid, a, b, sequence_flow_name=name))

    # direct edits of the documented dictionaries
    def _plain(self, fn):
        return self.call(fn)

    def op_pnode(self, i, j, text, boolean, geom, k):
        nid = self._node(i)
        if nid is None:
            return None
        typ = self.m["nodes"][nid]["type"]
        attrs = ["node_name", "x", "y", "width", "height"] + NODE_ATTRS.get(typ, [])
        a = attrs[j % len(attrs)]
        mn = self.m["nodes"][nid]
        rn = self.dg.diagram_graph.nodes[nid]
        if a == "node_name":
            v = text
        elif a in ("x", "y", "width", "height"):
            v = geom
        elif a == "gatewayDirection":
            v = M.DIRS[k % 4]
        elif a == "eventGatewayType":
            v = ["Exclusive", "Parallel"][k % 2]
        elif a == "default":
            outs = mn.get("outgoing") or []
            v = outs[k % len(outs)] if outs else "fl%d" % (k % 10)
        elif a == "attachedToRef":
            ns = self._flow_nodes() + list(self.m["procs"]) + ["gone"]
            v = mn["process"] if k % 5 == 0 else ns[k % len(ns)]
        elif a == "defs":
            kinds = M.DEFS[typ]
            e = ["dx%d" % k, kinds[k % len(kinds)] + "EventDefinition"]
            rn.setdefault("event_definitions", []).append({"id": e[0], "definition_type": e[1]})
            mn.setdefault("event_definitions", []).append(e)
            return True
        else:
            v = boolean
        rn[a] = v
        mn[a] = v
        return True

    def op_pflow(self, i, what, text, way, cond):
        fs = [f for f in self.m["flows"] if f in self.m["seq"]]
        if not fs:
            return None
        fid = fs[i % len(fs)]
        mf = self.m["flows"][fid]
        rf = self.dg.diagram_graph[mf["sourceRef"]][mf["targetRef"]]
        if what == "name":
            rf["name"] = text
            mf["name"] = text
        elif what == "way" and i % 3 == 0 and isinstance(rf.get("waypoints"), list) and "waypoints" in mf:      # in place
            rf["waypoints"].extend(tuple(w) for w in way)
            mf["waypoints"].extend(list(w) for w in way)
        elif what == "way":
            rf["waypoints"] = [tuple(w) for w in way]
            mf["waypoints"] = [list(w) for w in way]
        else:
            if what == "both":      # a label that resembles the condition
                cond = [cond[0], text.replace("\r", "") + ["", " ", " > 1"][i % 3]]
                rf["name"] = mf["name"] = text
            rf["conditionExpression"] = {"id": cond[0], "conditionExpression": cond[1]}
            mf["cond"] = list(cond)
        return True

    def op_pproc(self, i, attr, text, boolean, ptype):
        ps = list(self.m["procs"])
        if not ps:
            return None
        pid = ps[i % len(ps)]
        v = text if attr == "name" else ptype if attr == "processType" else boolean
        self.dg.process_elements[pid][attr] = v
        self.m["procs"][pid][attr] = v
        return True

    def op_pdiag(self, text):
        if not self.m["diagram"]:
            return None
        self.dg.diagram_attributes["name"] = text
        self.m["diagram"]["name"] = text
        return True

    def op_pids(self, what, v):
        m, real = (self.m["diagram"], self.dg.diagram_attributes) if what == "diagram" else (self.m["plane"], self.dg.plane_attributes)
        if not m.get("id") or v in self.all_ids():
            return None
        m["id"] = real["id"] = v
        return True

    def op_pcoll(self, i, attr, text, boolean, geom):
        c = self.m["collab"]
        if not c:
            return None
        if attr == "flow":
            fs = [f for f in c["mflows"] if f in self.m["flows"]]
            if not fs:
                return None
            fid = fs[i % len(fs)]
            mf = self.m["flows"][fid]
            self.dg.collaboration["messageFlows"][fid]["name"] = c["mflows"][fid]["name"] = text
            self.dg.diagram_graph[mf["sourceRef"]][mf["targetRef"]]["name"] = mf["name"] = text
            return True
        ps = list(c["participants"])
        if not ps:
            return None
        v = text if attr == "name" else boolean if attr == "isHorizontal" else geom
        pid = ps[i % len(ps)]
        self.dg.collaboration["participants"][pid][attr] = v
        c["participants"][pid][attr] = v
        if attr in ("x", "y", "width", "height") and attr in self.m["nodes"].get(pid, {}):
            # a pool without a process is a node as well: its place is kept twice, and moved in both
            self.dg.diagram_graph.nodes[pid][attr] = v
            self.m["nodes"][pid][attr] = v
        return True

    def op_plane(self, i, attr, text, boolean, geom, k):
        lanes = []

        def walk(m, real):
            if m:
                for l in m["lanes"]:
                    lanes.append((m["lanes"][l], real["lanes"][l]))
                    walk(m["lanes"][l]["child"], real["lanes"][l].get("childLaneSet"))
        for pid, p in self.m["procs"].items():
            walk(p["laneSet"], self.dg.process_elements[pid].get("laneSet"))
        if not lanes:
            return None
        ml, rl = lanes[i % len(lanes)]
        if attr == "refs":
            nid = self._node(k)
            if nid is None:
                return None
            if nid in ml["refs"]:
                ml["refs"].remove(nid)
                rl["flowNodeRefs"].remove(nid)
            else:
                ml["refs"] = sorted(ml["refs"] + [nid])
                rl["flowNodeRefs"].append(nid)
            return True
        ml[attr] = rl[attr] = text if attr == "name" else boolean if attr == "isHorizontal" else geom
        return True


def exportable(m):
    """Every node has a shape, every flow an edge, and diagram and plane have their identifiers."""
    if not m["diagram"].get("id") or not m["plane"].get("id"):
        return False
    if any("waypoints" not in f for f in m["flows"].values()):
        return False
    return all("x" in n for n in m["nodes"].values())


def clone(m):
    return copy.deepcopy(m)
