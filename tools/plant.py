#!/usr/bin/env python3
"""plant.py SPECS.py [--no-tests] [ID...]: turns specs of planted bugs into seeded/<id>/.

A spec is a dict(id, property, edits=[(file, old, new)], needs, breaks, demo).
Every bug is confirmed in a scratch copy of /repo before it is kept: it
compiles and imports, the stable tests pass, the demo passes without it and
fails with it.  With --catch the property's quick check is run against the
changed copy (VERIF_REPO) and its verdict printed.
"""
import argparse, json, os, runpy, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def tests(work):
    xml = os.path.join(work, "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-n", "8", "--dist", "loadfile", "-p",
        "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
        "--disable-warnings", "--basetemp=" + os.path.join(work, "tmp"), "-o",
        "python_files=spins/*.py tests/*.py test_*.py", "-o",
        "junit_family=xunit2", "--junitxml=" + xml, "spins", "examples"],
       os.path.join(work, "repo"), 1500)
    ok = set()
    for c in ET.parse(xml).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            ok.add("%s::%s" % (c.get("classname"), c.get("name")))
    return STABLE - ok


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("specs")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--catch", action="store_true")
    a = ap.parse_args()
    for s in runpy.run_path(a.specs)["SPECS"]:
        if a.ids and s["id"] not in a.ids:
            continue
        work = tempfile.mkdtemp(prefix="plant_")
        repo = os.path.join(work, "repo")
        try:
            sh(["cp", "-a", "/repo", repo], "/")
            d = os.path.join(work, "seed")
            os.mkdir(d)
            demo = s["demo"]
            with open(os.path.join(d, "demo.py"), "w") as fp:
                fp.write("import os, sys\nsys.path.insert(0, os.getcwd())\n"
                         "import warnings\nwarnings.simplefilter('ignore')\n" +
                         demo.lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as fp:
                fp.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 '
                         'MPLBACKEND=agg OPENBLAS_NUM_THREADS=1\n'
                         'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            r0 = sh(["bash", os.path.join(d, "demo.sh")], repo, 300)
            if r0.returncode:
                print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r0.stdout[-1500:])
                continue
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "edit matches", t.count(old), "times:", old)
                    bad = True
                    break
                open(p, "w").write(t.replace(old, new))
            if bad:
                continue
            diff = sh(["git", "diff"], repo).stdout
            # Only original lines may be changed.
            r1 = sh(["bash", os.path.join(d, "demo.sh")], repo, 300)
            if not r1.returncode:
                print(s["id"], "DEMO PASSES WITH BUG")
                continue
            imp = sh([PY, "-c", "import sys; sys.path.insert(0,'.'); "
                      "import spins.goos, spins.goos_sim.maxwell, "
                      "spins.invdes.problem_graph"], repo)
            if imp.returncode:
                print(s["id"], "IMPORT FAILS", imp.stdout[-800:])
                continue
            msg = ""
            if not a.no_tests:
                miss = tests(work)
                if miss:
                    print(s["id"], "TESTS FAIL:", sorted(miss)[:6])
                    continue
                dst = os.path.join(ROOT, "seeded", s["id"])
                shutil.rmtree(dst, ignore_errors=True)
                os.makedirs(dst)
                for n in ("demo.py", "demo.sh"):
                    shutil.copy(os.path.join(d, n), dst)
                open(os.path.join(dst, "patch.diff"), "w").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"],
                           "what_it_breaks": s["breaks"]},
                          open(os.path.join(dst, "meta.json"), "w"), indent=1)
                msg = "kept; "
            if a.catch:
                env = dict(ENV, VERIF_REPO=repo, VERIF_SEED="1",
                           VERIF_EVIDENCE_DIR=work)
                r = subprocess.run(
                    ["./check.sh", s["property"], "quick"], cwd=ROOT, env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                line = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                msg += "check rc=%d %s" % (r.returncode, line[:1])
                if r.returncode != 1:
                    msg += "   <<<<< MISSED"
            print(s["id"], s["property"], "ok (demo rc %d); " % r1.returncode + msg,
                  flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


main()
