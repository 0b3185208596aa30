#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and checks it against the properties."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("seeded search over many simulated runs, each exactly repeatable; finds violations, does not prove absence. "
        "Trusts the simulator's seams, the Python standard library, networkx, pandas and expat; a crash is process death "
        "(what reached the operating system survives).")
T = {
    "C01": "deterministic simulation: seeded histories of builds, loads, saves with injected faults, kills and restarts; reloaded diagrams against a reference model",
    "C02": "deterministic simulation: storage errors, full disks, short writes, interrupts inside every export; bytes against a fault-free reference export",
    "C03": "deterministic simulation: crash, error and interrupt points inside exports and interleaved readers; all-or-nothing invariant before every simulated system call",
    "C04": "deterministic simulation: torn, zeroed and garbled files and read errors during loads; refusal and unchanged diagram",
    "C05": "deterministic simulation: a script with injected failures and retries against the same script without, compared after the faults stop",
    "C06": "deterministic simulation: generations of save, kill, restart, reload with faults in between; file lines and metrics compared across generations",
    "C07": "deterministic simulation: seeded thread interleavings at line, bytecode and system-call granularity against each thread run alone",
    "C08": "deterministic simulation: seeded interleavings of read-only callers of one diagram with interrupts and storage errors; diagram and results against run-alone",
    "C09": "deterministic simulation: adversarial random source, clock jumps, reseeding, threads, forks and restarts; uniqueness over the recorded history",
    "C10": "deterministic simulation: one script replayed in simulated processes with other hash seeds, locales and working directories; outputs compared",
    "C11": "deterministic simulation: seeded histories of CSV saves with faults, kills, restarts and reloads under simulated locales; against a reference model",
    "C12": "deterministic simulation: seeded interleavings of exporting processes at every file-system step on shared, missing directories",
    "C13": "deterministic simulation: histories of accepted and rejected edits, failed saves, kills and reloads against a reference model of every query",
    "C14": "deterministic simulation: interrupts and allocation failures at any traced line of layout generation; everything but geometry compared",
    "C15": "deterministic simulation: histories of failing, killed and repeated exports without DI; the file parsed independently against a reference model",
    "C16": "deterministic simulation: seeded interleavings of loads with atomic replacements at every system call, short reads, equal sizes and time stamps; against each version loaded alone",
    "C17": "deterministic simulation: storage errors, close errors, interrupts and allocation failures inside every operation; open files, descriptors, threads, temporary files and diagrams counted afterwards",
    "C18": "deterministic simulation: storage errors, interrupts and allocation failures inside every operation under varied host settings; process-wide state compared before every system call and after every operation",
    "C19": "deterministic simulation: seeded histories of an original and its deepcopied or pickled copy in one or two simulated processes with failing operations; each against a diagram never copied",
}
NA = {
    "C20": "a pure function of one input: no schedule, time, I/O or fault the value depends on, so simulation cannot decide it (a definition-by-definition oracle test would); that metrics do not change the diagram, and are the same after restart, retry and in any process is claimed in C05, C06, C08 and C10",
    "C21": "a pure function of one input graph; no concurrency, time, I/O or fault to simulate; what faults can do to layout is claimed in C14 and C05",
    "C22": "a pure function of one input table; no concurrency, time, I/O or fault to simulate; that CSV files survive crashes and restarts is claimed in C11",
    "C23": "a pure function of the input bytes; differential parsing, not simulation, decides it (the simulated files of C01 vary prefixes, encodings and order in passing)",
    "C24": "setters of unused plain classes: no I/O, schedule or fault; a unit or property-based test decides it",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
    have = [c for c in T if os.path.exists(os.path.join(V, "sim", "checks", c.lower() + ".py"))]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check --setup",
         "hooks": {"guard": "none (no hooks: every seam is interposed from outside the repository)", "enable": "nothing to enable",
                   "source_commits": []},
         "checks": [], "not_applicable": []}
    for i in ids:
        if i in have:
            m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                                "thorough_cmd": "./check %s --tier thorough" % i,
                                "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "exploration",
                                "level_note": NOTE})
        elif i in NA:
            m["not_applicable"].append({"property": i, "reason": NA[i]})
        else:
            m["not_applicable"].append({"property": i, "reason": "check not built yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
