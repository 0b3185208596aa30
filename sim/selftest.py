"""Proves determinism of the simulator itself: many runs of every check, executed again in other host processes, with other
hash seeds where the check allows it, in reverse order and after other runs; every event log must be the same.
Usage: check --selftest [runs per check] [seed]"""
import json
import os
import random
import subprocess
import sys

from . import runner

CHECKS = ["C%02d" % i for i in range(1, 20)]


def digests(cid, seed, runs, order):
    """In this host process: the digest of every run."""
    check = runner.load(cid)
    from . import core
    core.install()
    out = {}
    ids = list(range(runs))
    if order == "back":
        ids.reverse()
    for i in ids:
        plan = check.gen(random.Random(runner.sub_seed(seed, cid, i)), "quick", i)
        plan["seed"] = [seed, i]
        r = runner.execute(check, json.loads(json.dumps(plan)))
        out[i] = [r.digest, r.violation, r.error]
    print("\n" + json.dumps(out))


def main(argv):
    if argv[:1] == ["--one"]:
        cid, seed, runs, order = argv[1:]
        digests(cid, int(seed), int(runs), order)
        sys.stdout.flush()
        os._exit(0)
    runs = int(argv[0]) if argv else 40
    seed = int(argv[1]) if len(argv) > 1 else 1
    bad = 0
    for cid in CHECKS:
        got, procs = [], []
        for order, hs in (("forth", 11), ("back", 11), ("forth", 77)):
            procs.append((order, hs, subprocess.Popen(
                [runner.PY, os.path.join(runner.VERIF, "check"), "--selftest", "--one", cid, str(seed), str(runs), order],
                cwd=runner.VERIF, env=runner.env_for(hs), stdout=subprocess.PIPE)))
        for order, hs, p in procs:
            got.append((order, hs, json.loads(p.communicate()[0].decode().strip().splitlines()[-1])))
        base = got[0][2]
        for order, hs, d in got[1:]:
            diff = [i for i in base if d[i] != base[i]]
            if diff:
                bad += 1
                print("%s: hash seed %d, %s: runs %s differ" % (cid, hs, order, diff[:8]))
        print("%s: %d runs x %d executions, %s" % (cid, runs, len(got), "ok" if not bad else "see above"))
    return 1 if bad else 0
