"""C04: a failed load leaves the diagram untouched; damaged XML is refused."""
import re
import xml.parsers.expat

from .common import *  # noqa
from . import common as C
from .. import csvmodel

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("a run loads documents into fresh and populated diagrams while opens and reads fail, or after the file was torn, "
        "zeroed, garbled, emptied, removed or replaced by another document; non-trivial = distinct event log of a run in which "
        "at least one load was refused")
STATES = "hash of (format, kind of damage, position bucket, kind of diagram object, refused or not)"
REAL = C.REAL
STUB = C.STUB
ASSUMES = C.ASSUMES + ["whether garbled bytes are well-formed XML is judged by expat on the same bytes"]

DAMAGE = ["none", "torn", "torn", "zero", "zero", "tail-zero", "garble", "mixed", "empty", "missing", "dir", "read", "read",
          "open", "lost-middle", "bad-utf8", "other-xml", "stale-tail"]


def gen(rng, tier, i):
    ops = []
    n = rng.choice([1, 2])
    for _ in range(rng.randint(2, 8)):
        ops.append({"d": rng.randint(0, n), "f": rng.randint(0, n - 1), "fmt": rng.choice(["xml", "xml", "csv"]),
                    "via": rng.choice(["export", "export", "foreign"]), "damage": rng.choice(DAMAGE), "a": rng.random(),
                    "b": rng.random(), "r": rng.randint(0, 999), "sticky": rng.random() < 0.5,
                    "short": rng.randint(0, 999) if rng.random() < 0.2 else None, "past": rng.choice([0, 0, 0, 1, 2])})
    return {"sessions": [C.gen_origin(rng, ("doc", "new", "block"), sizes=(1, 3, 8, 20)) for _ in range(n)],
            "procs": [csvmodel.gen(rng) for _ in range(n)], "ops": ops, "bufsize": C.gen_bufsize(rng),
            "ent": rng.randint(0, 1 << 30)}


# well-formed documents that hold no diagram at all
OTHER = [b"<a/>", b"<?xml version='1.0'?>\n<html><body><p>404 not found</p></body></html>", b"<definitions/>",
         b"<definitions xmlns='http://www.omg.org/spec/BPMN/20100524/MODEL'><process id='process'><task id='t' name='n'/>"
         b"</process></definitions>",
         b"<definitions><collaboration id='c'><participant id='p' name='n'/></collaboration></definitions>",
         b"<!-- BPMNDiagram --><x BPMNDiagram='BPMNDiagram'>BPMNDiagram</x>", b"<x><BPMNDiagrams/><bpmndiagram/></x>"]
RE_DI = re.compile(br"<((?:[\w.-]+:)?BPMNDiagram)\b.*</\1\s*>", re.S)


def holds_diagram(data):
    found = []
    parser = xml.parsers.expat.ParserCreate()
    parser.StartElementHandler = lambda name, _: found.append(name.split(":")[-1] == "BPMNDiagram")
    parser.Parse(data, True)
    return any(found)


def well_formed(data):
    try:
        xml.parsers.expat.ParserCreate().Parse(data, True)
        return True
    except (xml.parsers.expat.ExpatError, LookupError, ValueError):
        return False


def damage(op, data, other):
    n = len(data)
    k = op["damage"]
    a, b = int(op["a"] * n), int(op["b"] * n)
    if k == "torn":
        return data[:a]
    if k == "zero":
        size = [1, 16, 512, 4096][op["r"] % 4]
        a -= a % size
        return data[:a] + b"\0" * min(size, n - a) + data[a + size:]
    if k == "tail-zero":
        return data[:a] + b"\0" * (n - a)
    if k == "garble":
        out = bytearray(data)
        out[a % n] ^= 1 << (op["r"] % 8)
        return bytes(out)
    if k == "mixed":
        return data[:a] + other[a:]
    if k == "stale-tail":
        return data + (other[n:] if len(other) > n and op["r"] % 2 else other[len(other) - 1 - int(op["a"] ** 3 * (len(other) - 1)):])
    if k == "empty":
        return b""
    if k == "lost-middle":
        lo, hi = min(a, b), max(a, b)
        return data[:lo] + data[hi:]
    if k == "other-xml":
        return OTHER[op["r"] % len(OTHER)] if op["r"] % 3 or op["fmt"] != "xml" else RE_DI.sub(b"", data)
    if k == "bad-utf8":
        return data[:a] + b"\xff\xfe\xc3\x28" + data[a:]
    return data


def run(w, plan):
    p = w.proc("p")
    t = w.task(p, "p", ent(plan["ent"]))
    call = lambda fn, **k: w.call(t, fn, **k)
    eds = [C.make(s, p, call, w.path("in%d" % i)) for i, s in enumerate(plan["sessions"])]
    good = {}
    for i, ed in enumerate(eds):
        if ed is not None and editor.exportable(M.snap(ed.dg)):
            o = call(C.export_fn(p, ed.dg, "xml", w.path("good") + "/", "x%d" % i))
            if o.ok:
                good["xml", i, "export"] = read_file(w.path("good", "x%d" % i))
        if plan["sessions"][i]["from"] == "doc":
            f = C.origin_files(plan["sessions"][i])
            if f is not None and plan["sessions"][i]["style"]["enc"] != "utf-16":
                good["xml", i, "foreign"] = f[1]
    for i, pr in enumerate(plan["procs"]):
        good["csv", i, "foreign"] = good["csv", i, "export"] = csvmodel.render(csvmodel.tidy(pr)).encode("utf-8")
    refused = 0
    for i, op in enumerate(plan["ops"]):
        data = good.get((op["fmt"], op["f"], op["via"]))
        if data is None:
            continue
        other = b"".join(good.get((op["fmt"], j, op["via"]), b"") for j in range(len(eds)) if j != op["f"]) or data[::-1]
        if op["d"] < len(eds) and eds[op["d"]] is not None:
            dg, kind = eds[op["d"]].dg, "populated"
        else:
            dg, kind = p.rep.BpmnDiagramGraph(), "fresh"
        path = w.path("t%d%s" % (i, rng_ext(op)))
        dmg = op["damage"]
        bytes_ = damage(op, data, other)
        faults = []
        measure = None
        must_fail = False
        stamp = None
        if op["past"]:      # the same path held the intact document, and the program has loaded it
            write_file(path, data)
            call(lambda: load(p.rep.BpmnDiagramGraph(), op["fmt"], path)())
            stamp = os.stat(path).st_mtime_ns
            os.unlink(path)
        if dmg == "missing":
            must_fail = True
        elif dmg == "dir":
            os.makedirs(path)
            must_fail = True
        else:
            write_file(path, bytes_)
            if op["past"] == 2:
                os.utime(path, ns=(stamp, stamp))
            if dmg in ("read", "open"):
                probe = call(lambda: load(p.rep.BpmnDiagramGraph(), op["fmt"], path)())
                measure = probe.measure
                if not probe.ok:
                    continue
                kinds = ["read"] if dmg == "read" else ["open_r"]
                if measure.get("io:" + kinds[0], 0) == 0:
                    continue
                faults = [{"k": "err", "on": kinds, "frac": op["a"], "r": op["r"], "sticky": op["sticky"]}]
                must_fail = True
            elif op["fmt"] == "xml":
                must_fail = not well_formed(bytes_) or not holds_diagram(bytes_)
            else:
                must_fail = dmg == "empty" or not utf8(bytes_) or bytes_ == b""
        if not must_fail:
            continue
        before = M.raw(dg)
        o = call(load(dg, op["fmt"], path), faults=faults, measure=measure, short=op["short"])
        w.state(op["fmt"], dmg, int(op["a"] * 10), kind, o.ok)
        if dmg in ("read", "open") and not o.fired:
            need(M.raw(dg) == before or o.ok, "changed", "a refused load changed the diagram")
            if o.ok and kind == "populated":
                eds[op["d"]] = None
            continue
        refused += 1
        if o.ok:
            got = M.snap(dg)
            raise Violation("accepted", "a %s %s file was loaded without an error (as %d nodes, %d flows)" % (
                WORDS.get(dmg, dmg), op["fmt"], len(got["nodes"]), len(got["flows"])))
        if M.raw(dg) != before:
            df = ""
            raise Violation("changed", "loading a %s %s file %s, but the %s diagram object was changed%s" % (
                WORDS.get(dmg, dmg), op["fmt"], o.describe(), kind, df))
    return {"refused": refused, "shape": [refused] if refused else None}


WORDS = {"torn": "torn", "zero": "partly zeroed", "tail-zero": "zero-tailed", "garble": "garbled", "mixed": "half-overwritten",
         "empty": "empty", "missing": "missing", "dir": "unreadable (a directory)", "read": "unreadable (read error)",
         "open": "unopenable", "lost-middle": "block-lost", "bad-utf8": "invalidly encoded", "stale-tail": "half-overwritten (old tail)", "other-xml": "diagram-less"}


def rng_ext(op):
    return [".bpmn", ".xml", ""][op["r"] % 3] if op["fmt"] == "xml" else ".csv"


def load(dg, fmt, path):
    if fmt == "xml":
        return lambda: dg.load_diagram_from_xml_file(path)
    return lambda: dg.load_diagram_from_csv_file(path)


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False
