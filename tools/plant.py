#!/opt/venv/bin/python
"""Plant the bugs described in a definitions file into scratch copies of /repo and keep the ones that count.

usage: plant.py DEFS.py [ID...] [--check C01,C05]

DEFS.py holds BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new)], demo)}.  Each bug is applied to a
copy of /repo, must pass the test suite, and its demo must pass on the clean copy and fail on the changed one.
Kept bugs are written to /verif/seeded/<id>/.  The property's own check is then run on the copy (VERIF_REPO).
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
import time

PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONUTF8="1")
HEAD = '''import os
import shutil
import sys
import tempfile
import warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
SCRATCH = tempfile.mkdtemp(prefix="demo") + "/"
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)
import bpmn_python.bpmn_diagram_rep as rep
import bpmn_python.bpmn_python_consts as consts
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONUTF8=1
exec timeout 200 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def run(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def one(bug_id, bug, checks):
    work = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(work, "repo")
    out = {"id": bug_id}
    try:
        subprocess.check_call(["cp", "-a", "/repo", repo])
        demo_dir = os.path.join(work, "demo")
        os.mkdir(demo_dir)
        open(os.path.join(demo_dir, "demo.py"), "w").write(HEAD + bug["demo"])
        open(os.path.join(demo_dir, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(demo_dir, "demo.sh"), 0o755)
        clean = run(["bash", demo_dir + "/demo.sh"], repo)
        for path, old, new in bug["edits"]:
            full = os.path.join(repo, "bpmn_python", path)
            text = open(full).read()
            if text.count(old) != 1:
                raise ValueError("%s: %d matches for %r" % (path, text.count(old), old[:60]))
            open(full, "w").write(text.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        broken = run(["bash", demo_dir + "/demo.sh"], repo)
        tests = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "-o",
                     "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], repo)
        last = tests.stdout.strip().splitlines()[-1]
        ok_tests = "83 passed" in last
        out.update(clean=clean.returncode, broken=broken.returncode, tests=last)
        if clean.returncode or not broken.returncode or not ok_tests:
            out["status"] = "REJECTED"
            out["detail"] = clean.stdout[-800:] if clean.returncode else (
                broken.stdout[-800:] if not broken.returncode else tests.stdout[-1500:])
            return out
        dest = os.path.join("/verif/seeded", bug_id)
        shutil.rmtree(dest, True)
        shutil.copytree(demo_dir, dest)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        out["status"] = "kept"
        out["checks"] = {}
        for check in checks or [bug["property"]]:
            verif = os.path.join(work, "verif")
            if not os.path.exists(verif):
                os.mkdir(verif)
                subprocess.check_call("cp -a /verif/check /verif/sim /verif/*.json* " + verif, shell=True)
            began = time.time()
            res = run([verif + "/check", check], verif,
                      dict(ENV, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), 1800)
            lines = [l for l in res.stdout.splitlines() if "VIOLATION" in l or "Error" in l or "violat" in l.lower()]
            out["checks"][check] = (res.returncode, round(time.time() - began), lines[:3] or res.stdout[-400:])
        return out
    except Exception as exc:
        out["status"] = "ERROR %r" % exc
        return out
    finally:
        shutil.rmtree(work, True)


def main():
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    checks = None
    for a in sys.argv[2:]:
        if a.startswith("--check="):
            checks = a.split("=")[1].split(",")
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    todo = {k: v for k, v in bugs.items() if not args or k in args}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as pool:
        for res in pool.map(lambda kv: one(kv[0], kv[1], checks), todo.items()):
            print(json.dumps(res, indent=1), flush=True)


if __name__ == "__main__":
    main()
