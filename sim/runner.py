"""Runs checks: fixed seeded run lists spread over host processes, shrinking, replay files, evidence."""
import collections
import copy
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
LANES = 8
PY = sys.executable

REAL_S = time.time


def load(cid):
    return importlib.import_module("sim.checks." + cid.lower())


def sub_seed(seed, cid, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (seed, cid, i)).encode()).digest()[:8], "big")


def lane_hashseed(seed, lane):
    return (sub_seed(seed, "lane", lane) % 4294967290) + 1


def now():
    from . import core
    return core.R_time()


class Result(object):
    def __init__(self):
        self.violation = None   # (kind, msg)
        self.late = False
        self.error = None
        self.digest = None
        self.steps = 0
        self.fired = {}
        self.states = set()
        self.stats = {}
        self.tail = []


LATE = 90


def execute(check, plan):
    """One simulated run: a pure function of the plan and the code under test."""
    from . import core, hoststate
    from .checks import common
    core.install()
    common.warm_up()
    settings = hoststate.save()
    r = Result()
    w = core.World(bufsize=plan.get("bufsize", 8192), house=plan.get("house"), odd=plan.get("odd"))

    def late(signum, frame):
        # seconds instead of milliseconds: the code under test never comes back from a call
        if w.current() is not None and (r.late or core.given_up(begun, cpu, LATE)):
            r.late = True
            raise core.SimHang()
    begun, cpu = core.R_time(), core.R_cpu()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LATE, 1)
    try:
        with core.active(w):
            try:
                r.stats = check.run(w, plan) or {}
            except core.Violation as v:
                r.violation = (v.kind, v.msg.replace(w.root, "<root>"))
    except (KeyError, TypeError, AttributeError, ValueError, IndexError) as e:
        # the library handed back something no caller could use (results of another type or shape)
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.violation = ("malformed-result", "what the library returned or left in the diagram has an unexpected form: "
                       "%s: %s (in %s, line %d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, core.InjectedInterrupt):
            raise
        r.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:].replace(w.root, "<root>")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        hoststate.restore(settings)
        w.cleanup()
    if r.late:
        r.error = None
        r.violation = ("no-progress", "a call into the library did not come back within %d s" % LATE)
    r.digest = w.digest()
    r.steps = w.steps
    r.fired = dict(w.fired)
    r.states = w.states
    r.tail = list(w.tail)[-25:]
    return r


# how the files and the directory of a run are named
ODD = ["@.bpmn", "my @ v2.1.bpmn", u"\u00fc@\u00e9 \u65e5.xml", "100%@%s.bpmn", ".@", "@~", "-@", "${@}", "@.tmp", "@.bpmn.bak",
       "long" * 25 + "@", "[@]*?.x", "@'q", "a\\@", "@.", "@ ", "#@&;"]
HOUSES = ["my docs", "dir.d", u"\u00fc", "~x", "%s", "a'b", "[x]", "-", "a" * 100]


# -- shrinking ---------------------------------------------------------------------------------

def _lists(obj, keys, path=()):
    """Paths of the lists whose entries may be dropped."""
    if isinstance(obj, dict):
        for k in obj:
            v = obj[k]
            if isinstance(v, list) and k in keys:
                yield path + (k,)
            if isinstance(v, (dict, list)):
                for p in _lists(v, keys, path + (k,)):
                    yield p
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            if isinstance(v, (dict, list)):
                for p in _lists(v, keys, path + (i,)):
                    yield p


def _get(obj, path):
    for p in path:
        obj = obj[p]
    return obj


SHRINK_KEYS = {"ops", "switches", "faults", "nodes", "flows", "lanes", "participants", "mflows", "tasks", "items",
               "processes", "way", "defs", "refs", "sessions", "fails", "branches", "edits"}


def shrink(check, plan, kind, seconds=25, log=None):
    """Greedy list reduction, keeping the same class of violation."""
    t_end = now() + seconds
    best = copy.deepcopy(plan)
    tries = 0

    def fails(p):
        r = execute(check, p)
        return r.violation is not None and r.violation[0] == kind

    changed = True
    while changed and now() < t_end:
        changed = False
        for path in sorted(_lists(best, SHRINK_KEYS), key=lambda p: (len(p), str(p))):
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = len(cur)
            while size >= 1 and now() < t_end:
                i = 0
                while i < len(_get(best, path)) and now() < t_end:
                    cand = copy.deepcopy(best)
                    lst = _get(cand, path)
                    del lst[i:i + size]
                    tries += 1
                    if fails(cand):
                        best = cand
                        changed = True
                    else:
                        i += size
                size //= 2
        simp = getattr(check, "simplify", None)
        for cand in (list(simp(best)) if simp else []) + list(_simpler_texts(best)):
            if now() >= t_end:
                break
            tries += 1
            if fails(cand):
                best = cand
                changed = True
                break
    if log is not None:
        log["shrink_tries"] = tries
    return best


def _simpler_texts(plan):
    """Replace long strings by short ones."""
    found = []

    def walk(o, path):
        if isinstance(o, dict):
            for k in o:
                walk(o[k], path + (k,))
        elif isinstance(o, list):
            for i, v in enumerate(o):
                walk(v, path + (i,))
        elif isinstance(o, str) and len(o) > 40:
            found.append(path)
    walk(plan, ())
    for p in found[:10]:
        c = copy.deepcopy(plan)
        _get(c, p[:-1])[p[-1]] = "T"
        yield c


# -- host process: one lane of a check ------------------------------------------------------------

def lane_main(cid, tier, seed, lane, total, deadline, out_path):
    check = load(cid)
    from . import core
    core.install()
    agg = {"runs": 0, "steps": 0, "fired": collections.Counter(), "states": set(), "shapes": set(), "stats": collections.Counter(),
           "digests": [], "redone": 0, "samples": [], "violation": None, "error": None, "cut": False, "sigs": set()}
    t0 = now()
    for i in range(lane, total, LANES):
        if now() - t0 > deadline:
            agg["cut"] = True
            break
        rng = random.Random(sub_seed(seed, cid, i))
        plan = check.gen(rng, tier, i)
        plan["seed"] = [seed, i]
        if rng.random() < 0.25:
            plan["odd"] = rng.choice(ODD)
        if rng.random() < 0.15:
            plan["house"] = rng.choice(HOUSES)
        plan = json.loads(json.dumps(plan))
        r = execute(check, plan)
        agg["runs"] += 1
        agg["steps"] += r.steps
        agg["fired"].update(r.fired)
        agg["states"] |= r.states
        agg["stats"].update({k: v for k, v in r.stats.items() if isinstance(v, int)})
        if r.stats.get("sig"):
            agg["sigs"].add(r.stats["sig"])
        if r.stats.get("shape") or r.fired:
            agg["shapes"].add(hashlib.sha256(json.dumps(
                [r.stats.get("shape"), sorted(r.fired), r.digest], default=str).encode()).hexdigest()[:16])
        agg["digests"].append((i, r.digest))
        if len(agg["samples"]) < 1 and r.violation is None:
            agg["samples"].append({"run": i, "plan": _clip(plan), "trace_tail": r.tail[-12:], "faults": r.fired,
                                   "digest": r.digest})
        if r.error:
            agg["error"] = {"run": i, "error": r.error}
            break
        if r.violation is not None and r.violation[0] == "no-progress":
            r2 = execute(check, plan)
            if r2.violation is None and not r2.error:
                continue        # it was the host that made no progress
            agg["violation"] = {"run": i, "kind": r.violation[0], "msg": r.violation[1], "plan": plan,
                                "digest": r.digest, "tail": r.tail, "tries": 0}
            break
        if r.violation is not None:
            r2 = execute(check, plan)
            if r2.violation is None or r2.digest != r.digest:
                agg["error"] = {"run": i, "error": "a violation did not repeat: %s vs %s" % (r.violation, r2.violation)}
                if r2.violation is None:
                    break
            lg = {}
            small = shrink(check, plan, r.violation[0], log=lg)
            r3 = execute(check, small)
            if r3.violation is None:
                small, r3 = plan, r2
            agg["error"] = None
            agg["violation"] = {"run": i, "kind": r3.violation[0], "msg": r3.violation[1], "plan": small,
                                "digest": r3.digest, "tail": r3.tail, "tries": lg.get("shrink_tries", 0)}
            break
        if agg["runs"] % 23 == 1:
            r2 = execute(check, plan)
            agg["redone"] += 1
            if r2.digest != r.digest or r2.violation is not None:
                agg["error"] = {"run": i, "error": "run is not deterministic: %s %s" % (r.digest, r2.digest)}
                break
    agg["fired"] = dict(agg["fired"])
    agg["stats"] = dict(agg["stats"])
    agg["states"] = sorted(agg["states"])
    agg["shapes"] = sorted(agg["shapes"])
    agg["sigs"] = sorted(agg["sigs"])
    agg["elapsed"] = now() - t0
    with core.R_open(out_path, "w", encoding="utf-8") as f:
        json.dump(agg, f)


def _clip(o, n=240):
    if isinstance(o, dict):
        return {k: _clip(v, n) for k, v in o.items()}
    if isinstance(o, list):
        return [_clip(v, n) for v in o[:14]] + (["... %d more" % (len(o) - 14)] if len(o) > 14 else [])
    if isinstance(o, str) and len(o) > n:
        return o[:n] + "...(%d)" % len(o)
    return o


def env_for(hashseed):
    e = dict(os.environ)
    e.update({"PYTHONHASHSEED": str(hashseed), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONUTF8": "1",
              "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"})
    return e


def run_check(cid, tier, seed, runs=None, quiet=False):
    t0 = REAL_S()
    check = load(cid)
    total = runs if runs is not None else check.RUNS[tier]
    # a stop for slow machines, never the thing that decides: runs are counted, not timed
    deadline = {"quick": 420, "thorough": 3000}[tier]
    tmp = "/tmp/vsim-%s-%d" % (cid, os.getpid())
    os.makedirs(tmp, exist_ok=True)
    procs = []
    try:
        for lane in range(min(LANES, max(1, total))):
            out = os.path.join(tmp, "lane%d.json" % lane)
            cmd = [PY, os.path.join(VERIF, "check"), "--lane", cid, tier, str(seed), str(lane), str(total),
                   str(deadline), out]
            procs.append((lane, out, subprocess.Popen(cmd, cwd=VERIF, env=env_for(lane_hashseed(seed, lane)),
                                                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        lanes, errors = [], []
        for lane, out, p in procs:
            text = p.communicate()[0].decode("utf-8", "replace")
            if p.returncode != 0 or not os.path.exists(out):
                errors.append("lane %d ended with %s: %s" % (lane, p.returncode, text[-2500:]))
                continue
            with open(out, encoding="utf-8") as f:
                d = json.load(f)
            lanes.append(d)
            if d["error"]:
                errors.append("lane %d run %s: %s" % (lane, d["error"]["run"], d["error"]["error"]))
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    wall = REAL_S() - t0
    viol = sorted((l["violation"] for l in lanes if l["violation"]), key=lambda v: v["run"])
    fired = collections.Counter()
    stats = collections.Counter()
    states, shapes, sigs = set(), set(), set()
    for l in lanes:
        fired.update(l["fired"])
        stats.update(l["stats"])
        states |= set(l["states"])
        shapes |= set(l["shapes"])
        sigs |= set(l["sigs"])
    nruns = sum(l["runs"] for l in lanes)
    digests = sorted(tuple(d) for l in lanes for d in l["digests"])
    cov = {
        "evaluations": nruns,
        "distinct_nontrivial": len(shapes),
        "rule": check.RULE,
        "samples": [s for l in lanes for s in l["samples"]][:2],
        "planned_runs": total,
        "runs_per_hour": round(nruns / wall * 3600) if wall else 0,
        "logical_steps": sum(l["steps"] for l in lanes),
        "simulated_time": "%d logical steps (yield points: simulated system calls and traced lines or opcodes); the "
                          "code has no timers" % sum(l["steps"] for l in lanes),
        "faults_fired": dict(sorted(fired.items())),
        "distinct_states": len(states),
        "state_measure": check.STATES,
        "distinct_interleavings": len(sigs),
        "counters": dict(sorted(stats.items())),
        "determinism_reruns": sum(l["redone"] for l in lanes),
        "batch_digest": hashlib.sha256(json.dumps(digests).encode()).hexdigest(),
        "hash_seeds": [lane_hashseed(seed, i) for i in range(min(LANES, max(1, total)))],
        "components_real": check.REAL,
        "components_stubbed": check.STUB,
        "cut_short": any(l["cut"] for l in lanes),
    }
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.ASSUMES, "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cid + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        f.write("\n")
    report_known(cid)
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (cid, seed, v["run"]))
        lane = v["run"] % LANES
        with open(rp, "w", encoding="utf-8") as f:
            json.dump({"property": cid, "seed": seed, "run": v["run"], "hashseed": lane_hashseed(seed, lane),
                       "kind": v["kind"], "message": v["msg"], "digest": v["digest"], "plan": v["plan"],
                       "trace_tail": v["tail"], "shrink_tries": v["tries"]}, f, indent=1, ensure_ascii=True)
            f.write("\n")
        print("violated: %s: %s" % (v["kind"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    if errors:
        for e in errors[:3]:
            print("CHECK-ERROR %s" % e, file=sys.stderr)
        return 2
    if not quiet:
        print("%s %s: held on %d simulated runs (%d distinct), %d faults fired, %d interleavings, %.1f s" % (
            cid, tier, nruns, len(shapes), sum(fired.values()), len(sigs), wall))
    return 0


def report_known(cid):
    """Known findings of this property: each is a fixed history, named here while it still fails."""
    with open(os.path.join(VERIF, "known_findings.json"), encoding="utf-8") as f:
        data = json.load(f)
    for k in data.get("known", []):
        if k["property"] == cid:
            from . import known
            if known.PROBES[k["probe"]]():
                print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))


def replay(path):
    """Re-executes a replay file; must be started with the hash seed it names."""
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != str(d["hashseed"]):
        return subprocess.call([PY, os.path.join(VERIF, "check"), "--replay", path], cwd=VERIF,
                               env=env_for(d["hashseed"]))
    check = load(d["property"])
    from . import core
    core.install()
    r = execute(check, d["plan"])
    if r.error:
        print("CHECK-ERROR " + r.error, file=sys.stderr)
        return 2
    if r.violation is None:
        print("replay: no violation (recorded: %s)" % d["kind"])
        return 0
    for t in r.tail:
        print("  " + t.encode("unicode_escape").decode())
    print("violated: %s: %s" % r.violation)
    print("replay digest %s, recorded %s%s" % (r.digest, d["digest"], " (exact)" if r.digest == d["digest"] else ""))
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1
