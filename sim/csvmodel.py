"""Block-structured processes of the spreadsheet format: generator, independent writer, expected behaviour."""
import csv
import io

from . import model as M


KEYWORDS = ["yes", "no", "else", "Yes", "NO", "No", "YES", "Else", "ELSE", "true", "False", "TRUE", "none", "None", "null", "NULL", "nan",
            "NaN", "NA", "N/A", "0", "1", "2", "10", "1a", "2b1", "1.0", "007", "1e5", "+1", "0x10", "inf", "-", "Join", "Element",
            "Start Event", "message", "timer", "Activity", "Order", "start", "end", "to goto", "2020-01-01"]


def gen_name(rng, multi=True):
    if rng.random() < 0.06:
        return rng.choice(KEYWORDS)
    while True:
        s = M.gen_text(rng, multi=multi, allow_empty=rng.random() < 0.3)
        if usable(s):
            return s


def usable(s):
    """Names the format can carry: 'goto ...' is the format's jump keyword."""
    return not s.lower().startswith("goto")


def gen_cond(rng, cr=False):
    if rng.random() < 0.12:
        return rng.choice(KEYWORDS)
    while True:
        s = M.gen_text(rng, allow_empty=False, cr=cr)
        if s.strip():
            return s


CTRL = ["\x00", "\x01", "\x08", "\x0b", "\x0c", "\x1a", "\x1c", "\x1f", "\ufffe"]    # text, though not in XML


def gen(rng, plain=False, ctrl=False):
    """items: ['t', name] | ['s', name] (subprocess) | ['b', kind, [[cond, [items]]...]]; ctrl: text that XML cannot carry too"""
    name = (lambda: "N%d" % rng.randint(0, 99)) if plain else (lambda: gen_name(rng))
    cond = (lambda: "c%d" % rng.randint(0, 99)) if plain else (lambda: gen_cond(rng, cr=ctrl))
    if ctrl and rng.random() < 0.1:
        base = name
        name = lambda: base() + (rng.choice(CTRL) + rng.choice(M.WORDS) if rng.random() < 0.3 else "")
    items = [["t", name()]]
    r = rng.random()
    if r < 0.012:       # orders of two and three digits
        short = lambda: "N%d" % rng.randint(0, 99)
        items += [[rng.choice("ttts"), short()] for _ in range(rng.choice([9, 10, 18, 97, 98, 99, 100, 105]))]
    steps = lambda: rng.randint(1, 4) if rng.random() < 0.985 else rng.randint(8, 13)
    for _ in range(rng.randint(0, 6)):
        if rng.random() < 0.35 and items and items[-1][0] != "b":
            kind = rng.choice(["par", "yesno", "else", "incl"])
            k = 2 if kind in ("yesno", "else") else rng.randint(2, 5) if rng.random() < 0.95 else rng.randint(6, 26)
            conds = {"par": lambda: [""] * k, "yesno": lambda: rng.sample(["yes", "no"], 2),
                     "else": lambda: rng.sample([cond(), "else"], 2), "incl": lambda: [cond() for _ in range(k)]}[kind]()
            if kind == "incl" and not plain and rng.random() < 0.2:
                conds[rng.randrange(k)] = "else"
            items.append(["b", kind, [[c, [[rng.choice("tts"), name()] for _ in range(steps())]] for c in conds],
                          {"direct": rng.random() < 0.2, "default": rng.random() < 0.5, "expr": rng.random() < 0.3,
                           "label": rng.choice(["", "", "otherwise", "yes", "c1", "else"])}])
        else:
            items.append([rng.choice("ttts"), name()])
    event = name if plain else lambda: (rng.choice(["message ", "timer ", "message", "Message ", "timer timer ", "start ", "end ", "event "])
                                        if rng.random() < 0.12 else "") + name()
    return {"start": event(), "startdef": rng.choice([None, None, "message", "timer"]), "items": items, "end": event(),
            "enddef": rng.choice([None, None, None, "message"])}


def tidy(p):
    """Blocks are separated by at least one activity and followed by one; branches are non-empty."""
    items = []
    for it in p["items"]:
        if it[0] == "b":
            br = [[c, b] for c, b in it[2] if b]
            if len(br) < 2 or not items or items[-1][0] == "b":
                continue
            items.append(["b", it[1], br] + it[3:])
        else:
            items.append(it)
    if not items:
        items = [["t", "T"]]
    if items[-1][0] == "b":
        items.append(["t", "after"])
    q = dict(p)
    q["items"] = items
    return q


LET = "abcdefghijklmnopqrstuvwxyz"


def rows(p):
    """The table another program would write for this process."""
    out = [["0", (p["startdef"] + " " if p["startdef"] else "") + p["start"], "", "", "", ""]]
    n = 1
    for it in p["items"]:
        if it[0] == "b":
            for i, (c, b) in enumerate(it[2]):
                for j, (k, name) in enumerate(b):
                    out.append(["%d%s%d" % (n, LET[i], j + 1), name, c if j == 0 else "", "",
                                "yes" if k == "s" else "", ""])
        else:
            out.append([str(n), it[1], "", "", "yes" if it[0] == "s" else "", ""])
        n += 1
    out.append([str(n), (p["enddef"] + " " if p["enddef"] else "") + p["end"], "", "", "", "yes"])
    return out


def render(p, quoting=csv.QUOTE_MINIMAL):
    f = io.StringIO()
    w = csv.writer(f, lineterminator="\n", quoting=quoting)
    w.writerow(["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"])
    for r in rows(p):
        w.writerow(r)
    return f.getvalue()


def build(ed, p, call_kind):
    """Builds the process through the API. Returns the process id."""
    o = ed.apply(["proc", "csv", False, False, "None"])
    call_kind(o)
    pid = o.value

    def node(kind, name, prm):
        o = ed.op_node(kind, list(ed.m["procs"]).index(pid), name, None, prm)
        call_kind(o)
        return o.value[0]

    def flow(a, b, name=""):
        call_kind(ed.flow(pid, a, b, name))
    def label_flow(a, b, label, how):
        """The branch's condition: the name of its flow, an expression, or the gateway's default flow."""
        if how[0] == "name":
            return flow(a, b, label)
        flow(a, b, how[1] if how[0] == "default" else "")
        rf = ed.dg.diagram_graph[a][b]
        if how[0] == "default":
            ed.dg.diagram_graph.nodes[a]["default"] = rf["id"]
            ed.m["nodes"][a]["default"] = rf["id"]
        else:
            rf["conditionExpression"] = {"id": rf["id"] + "_c", "conditionExpression": label}
            ed.m["flows"][rf["id"]]["cond"] = [rf["id"] + "_c", label]
    prev = node("start", p["start"], {"def": p["startdef"], "par": False, "intr": True})
    loose = []      # ends of branches that lead into the next activity without a join gateway
    for it in p["items"]:
        if it[0] == "b":
            how = it[3] if len(it) > 3 else {}
            g = {"par": "parallel", "yesno": "exclusive", "else": "exclusive", "incl": "inclusive"}[it[1]]
            s = node(g, "", {"dir": "Diverging"})
            flow(prev, s)
            j = node(g, "", {"dir": "Converging"}) if not how.get("direct") else None
            for c, b in it[2]:
                at = s
                label = c
                for k, name in b:
                    x = node("subprocess" if k == "s" else "task", name, {"exp": False, "trig": False})
                    label_flow(at, x, label, ["default", how.get("label", "")] if label == "else" and how.get("default") and
                               it[1] in ("else", "incl") and [q for q, _ in it[2]].count("else") == 1 else
                               ["expr"] if label and how.get("expr") else ["name"])
                    label = ""
                    at = x
                if j is None:
                    loose.append(at)
                else:
                    flow(at, j)
            prev = j
        else:
            x = node("subprocess" if it[0] == "s" else "task", it[1], {"exp": False, "trig": False})
            for a in loose if prev is None else [prev]:
                flow(a, x)
            loose = []
            prev = x
    e = node("end", p["end"], {"def": p["enddef"]})
    flow(prev, e)
    return pid


def expected(p):
    """Activities and their order: [(kind, name)], edges with the condition under which they are taken."""
    acts, edges = [], []

    def add(kind, name):
        acts.append([kind, name])
        return len(acts) - 1
    prev = [(add("start", (p["startdef"] + " " if p["startdef"] else "") + p["start"]), "")]
    for it in p["items"]:
        if it[0] == "b":
            ends = []
            for c, b in it[2]:
                at, lab = prev, c
                for k, name in b:
                    x = add("subProcess" if k == "s" else "task", name)
                    for q, l in at:
                        edges.append((q, x, lab or l))
                    at, lab = [(x, "")], ""
                ends += at
            prev = ends
        else:
            x = add("subProcess" if it[0] == "s" else "task", it[1])
            for q, l in prev:
                edges.append((q, x, l))
            prev = [(x, "")]
    x = add("end", (p["enddef"] + " " if p["enddef"] else "") + p["end"])
    for q, l in prev:
        edges.append((q, x, l))
    return canon(acts, edges)


def canon(acts, edges):
    """Order-independent form: every activity with the multiset of its successors. Names may repeat, so
    activities are described by (kind, name) plus their longest path position from the start."""
    n = len(acts)
    pos = [0] * n
    for _ in range(n + 1):
        ch = False
        for a, b, _c in edges:
            if pos[b] < pos[a] + 1 and pos[a] + 1 <= n:
                pos[b] = pos[a] + 1
                ch = True
        if not ch:
            break
    d = [(acts[i][0], acts[i][1], pos[i]) for i in range(n)]
    return sorted(d), sorted((d[a], d[b], c) for a, b, c in edges)


def observed(dg):
    """The same view of a real diagram: gateways are contracted, conditions come from the flow into the branch."""
    g = dg.diagram_graph
    kinds = {"startEvent": "start", "endEvent": "end", "task": "task", "subProcess": "subProcess"}
    nodes = {n: a for n, a in g.nodes(data=True)}
    out = {}
    for u, v, a in g.edges(data=True):
        c = ""
        if a.get("conditionExpression"):
            c = a["conditionExpression"].get("conditionExpression") or ""
        elif a.get("name"):
            c = a["name"]
        out.setdefault(a["sourceRef"], []).append((a["targetRef"], c))
    acts, idx = [], {}
    for n, a in nodes.items():
        if a.get("type") in kinds:
            idx[n] = len(acts)
            name = a.get("node_name")
            defs = a.get("event_definitions") or []
            if a["type"] in ("startEvent", "endEvent") and defs:
                w = defs[0].get("definition_type", "").replace("EventDefinition", "")
                if w == "message" or (w == "timer" and a["type"] == "startEvent"):
                    name = w + " " + name
            acts.append([kinds[a["type"]], name])
    edges = []

    def follow(src, n, cond, depth):
        if depth > 60:
            return
        for t, c in out.get(n, []):
            if t in idx:
                edges.append((src, idx[t], c or cond))
            else:
                follow(src, t, c or cond, depth + 1)
    for n in idx:
        follow(idx[n], n, "", 0)
    return canon(acts, edges)
