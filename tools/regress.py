#!/opt/venv/bin/python
"""Run the checks on every planted bug in seeded/ (scratch copies of /repo). usage: regress.py [ID-PREFIX...] [--all-checks]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    want = [a for a in sys.argv[1:] if not a.startswith("--")]
    missed = []
    for bug in sorted(os.listdir(VERIF + "/seeded")):
        if want and not any(bug.startswith(x) for x in want):
            continue
        meta = json.load(open("%s/seeded/%s/meta.json" % (VERIF, bug)))
        checks = [meta["property"]]
        if "--all-checks" in sys.argv:
            checks = sorted(c["property_id"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"])
        work = tempfile.mkdtemp(prefix="regress-")
        try:
            subprocess.check_call(["cp", "-a", "/repo", work + "/repo"])
            r = subprocess.run(["git", "-C", work + "/repo", "apply", "%s/seeded/%s/patch.diff" % (VERIF, bug)])
            if r.returncode:
                print("%-28s patch does not apply" % bug, flush=True)
                continue
            os.mkdir(work + "/verif")
            for x in ("check", "sim", "known_findings.json", "properties.jsonl", "MANIFEST.json"):
                subprocess.check_call(["cp", "-a", "%s/%s" % (VERIF, x), work + "/verif/"])
            out = []
            for c in checks:
                t = time.time()
                r = subprocess.run(["./check", c], cwd=work + "/verif", env=dict(os.environ, VERIF_REPO=work + "/repo", VERIF_SEED="1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("violated")]
                out.append("%s rc=%d %ds %s" % (c, r.returncode, time.time() - t, (v or [""])[0][:110]))
                if c == meta["property"] and r.returncode != 1:
                    missed.append(bug)
            print("%-28s %s" % (bug, " | ".join(out)), flush=True)
        finally:
            shutil.rmtree(work)
    print("missed:", missed)


main()
