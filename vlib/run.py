"""Runner: python -m vlib.run <ID> [--tier quick|thorough] [--replay FILE].

Exit status 0: every oracle verdict held; 1: violation (with a VIOLATION line);
2: the check itself could not decide (monitors not reached, harness error).
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

for var in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[var] = "1"
os.environ["MPLBACKEND"] = "agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import warnings
warnings.simplefilter("ignore")
import logging
logging.disable(logging.CRITICAL)

from vlib import core


def load(pid):
    core.FAMILIES.clear()
    mod = importlib.import_module("checks.%s" % pid)
    import spins
    where = os.path.abspath(list(spins.__path__)[0])
    if not where.startswith(os.path.abspath(REPO)):
        print("harness error: spins comes from %s" % where)
        sys.exit(2)
    return mod


def worker(conn, pid, seed, scratch):
    """Executes cases on request, one at a time, until told to stop."""
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    while True:
        job = conn.recv()
        if job is None:
            return
        fam, index = job
        try:
            res = core.run_case(core.FAMILIES[fam], seed, index)
        except core.CaseTimeout:
            res = {
                "family": fam, "index": index, "events": {}, "keys": [],
                "samples": [], "verdicts": 0, "wall": 0.0,
                "failures": [{"mech": "hang", "detail": None}],
            }
        conn.send(res)


class Pool:

    def __init__(self, n, pid, seed, scratch):
        self.ctx = mp.get_context("fork")
        self.pid, self.seed, self.scratch = pid, seed, scratch
        self.slots = [self._spawn(i) for i in range(n)]

    def _spawn(self, i):
        parent, child = self.ctx.Pipe()
        d = os.path.join(self.scratch, "w%d" % i)
        os.makedirs(d, exist_ok=True)
        proc = self.ctx.Process(
            target=worker, args=(child, self.pid, self.seed, d))
        proc.start()
        child.close()
        return {"proc": proc, "conn": parent, "job": None, "since": None,
                "i": i}

    def run(self, jobs, deadline, on_result):
        from multiprocessing.connection import wait
        jobs = list(jobs)
        jobs.reverse()
        skipped = 0
        while True:
            for s in self.slots:
                if s["job"] is None and jobs:
                    if time.time() > deadline:
                        skipped = len(jobs)
                        jobs.clear()
                        break
                    s["job"] = jobs.pop()
                    s["since"] = time.time()
                    s["conn"].send(s["job"])
            busy = [s for s in self.slots if s["job"] is not None]
            if not busy:
                return skipped
            ready = wait([s["conn"] for s in busy], timeout=2.0)
            for k, s in enumerate(self.slots):
                if s["job"] is None:
                    continue
                fam, index = s["job"]
                blank = {"family": fam, "index": index, "events": {},
                         "keys": [], "samples": [], "verdicts": 0,
                         "wall": time.time() - s["since"]}
                if s["conn"] in ready:
                    try:
                        res = s["conn"].recv()
                    except (EOFError, OSError):
                        s["proc"].join(5)
                        blank["failures"] = [{
                            "mech": "crash",
                            "detail": "worker ended with %r" %
                                      s["proc"].exitcode}]
                        res = blank
                        self.slots[k] = self._spawn(s["i"])
                    else:
                        s["job"] = None
                    on_result(res)
                elif (time.time() - s["since"] >
                      core.FAMILIES[fam].timeout + 45):
                    s["proc"].kill()
                    s["proc"].join(10)
                    blank["failures"] = [{"mech": "hang",
                                          "detail": "killed"}]
                    on_result(blank)
                    self.slots[k] = self._spawn(s["i"])

    def close(self):
        for s in self.slots:
            try:
                s["conn"].send(None)
            except (OSError, BrokenPipeError):
                pass
        for s in self.slots:
            s["proc"].join(5)
            if s["proc"].is_alive():
                s["proc"].kill()
                s["proc"].join(5)


def load_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                ent = json.loads(line)
                if ent.get("property") == pid and ent["status"] == "known":
                    out.append(ent)
    return out


def match_finding(findings, res, failure):
    for ent in findings:
        if (ent["family"] == res["family"] and
                ent["mech"] == failure["mech"]):
            return ent
    return None


class Enough(Exception):
    """Stops a run at its first violation."""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated families")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--stop", action="store_true",
                    help="end at the first violation")
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    try:
        seed = abs(int(os.environ.get("VERIF_SEED", "1")))
    except ValueError:
        seed = 1
    pid = args.pid
    t0 = time.time()

    if args.replay:
        with open(args.replay) as fp:
            rep = json.load(fp)
        mod = load(pid)
        scratch = tempfile.mkdtemp(prefix="vcase_")
        cwd = os.getcwd()
        os.chdir(scratch)
        res = core.run_case(core.FAMILIES[rep["family"]], rep["seed"],
                            rep["index"])
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
        print(json.dumps(res, indent=1))
        findings = load_findings(pid)
        bad = [f for f in res["failures"]
               if not match_finding(findings, res, f)]
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
            return 1
        return 0

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    repdir = os.path.join(evdir, "replay")
    os.makedirs(repdir, exist_ok=True)

    import_failure = None
    try:
        mod = load(pid)
    except SystemExit:
        raise
    except Exception as e:
        # The tree does not even import: the property cannot hold.
        import traceback
        import_failure = traceback.format_exc()
        print(import_failure)
        return 2

    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    only = set(args.only.split(",")) if args.only else None
    queues = []
    planned = {}
    for fam in core.FAMILIES.values():
        if only and fam.name not in only:
            continue
        n = fam.quick if tier == "quick" else fam.thorough
        n = max(1, int(round(n * args.scale)))
        planned[fam.name] = n
        queues.append([(fam.name, i) for i in range(n)])
    # Interleave the families so that a cut-off by the deadline is fair.
    jobs = []
    total = sum(len(q) for q in queues)
    order = []
    for q in queues:
        for k, job in enumerate(q):
            order.append(((k + 0.5) / len(q), job))
    order.sort(key=lambda t: t[0])
    jobs = [j for _, j in order]

    budget = 600 if tier == "quick" else float(
        os.environ.get("VERIF_BUDGET_S", "3600"))
    scratch = tempfile.mkdtemp(prefix="vcheck_%s_" % pid)
    stats = {"verdicts": 0, "evals": 0, "events": {}, "per_family": {},
             "keys": set(), "samples": [], "sampled": {}, "viol": [],
             "known": {}}
    findings = load_findings(pid)

    def on_result(res):
        stats["evals"] += 1
        stats["verdicts"] += res["verdicts"]
        for k, v in res["events"].items():
            stats["events"][k] = stats["events"].get(k, 0) + v
        pf = stats["per_family"].setdefault(
            res["family"], {"cases": 0, "verdicts": 0, "wall_s": 0.0})
        pf["cases"] += 1
        pf["verdicts"] += res["verdicts"]
        pf["wall_s"] = round(pf["wall_s"] + res["wall"], 3)
        for k in res["keys"]:
            stats["keys"].add(res["family"] + k)
        if res["samples"] and stats["sampled"].get(res["family"], 0) < 1:
            stats["sampled"][res["family"]] = 1
            stats["samples"].append({"family": res["family"],
                                     "case": res["samples"][0]})
        for f in res["failures"]:
            ent = match_finding(findings, res, f)
            if ent is not None:
                stats["known"].setdefault(ent["what"], 0)
                stats["known"][ent["what"]] += 1
            else:
                stats["viol"].append((res, f))
        if args.stop and stats["viol"]:
            raise Enough()

    pool = Pool(max(1, args.jobs), pid, seed, scratch)
    try:
        skipped = pool.run(jobs, t0 + budget, on_result)
    except Enough:
        skipped = len(jobs) - stats["evals"]
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)

    for ent in findings:
        if stats["known"].get(ent["what"]):
            print("KNOWN-FINDING: property=%s %s" % (pid, ent["what"]))

    required = getattr(mod, "REQUIRED_EVENTS", [])
    missing = [e for e in required if not stats["events"].get(e)]
    wall = time.time() - t0
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": stats["evals"],
            "distinct_nontrivial": len(stats["keys"]),
            "rule": mod.RULE,
            "samples": stats["samples"][:20],
            "oracle_verdicts": stats["verdicts"],
            "monitor_events": dict(sorted(stats["events"].items())),
            "per_family": stats["per_family"],
            "cases_cut_by_time_budget": skipped,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(stats["viol"]),
    }
    with open(os.path.join(evdir, "%s.json" % pid), "w") as fp:
        json.dump(evidence, fp, indent=1)

    if stats["viol"]:
        seen = {}
        for res, f in sorted(stats["viol"],
                             key=lambda t: (t[0]["family"], t[0]["index"])):
            k = (res["family"], f["mech"])
            seen.setdefault(k, []).append((res, f))
        first = None
        for (fam, mech), lst in seen.items():
            res, f = lst[0]
            name = "%s-%s-%d.json" % (pid, fam, res["index"])
            path = os.path.join(repdir, name)
            with open(path, "w") as fp:
                json.dump({"property": pid, "family": fam, "seed": seed,
                           "index": res["index"], "mech": mech,
                           "detail": f["detail"], "tier": tier}, fp, indent=1)
            if first is None:
                first = path
            print("  %s/%s: %d case(s), e.g. index %d: %s" %
                  (fam, mech, len(lst), res["index"],
                   json.dumps(f["detail"])[:1500 if not args.v else 6000]))
        for (fam, mech), lst in seen.items():
            res, f = lst[0]
            print("VIOLATION property=%s replay=%s" % (
                pid, os.path.join(repdir, "%s-%s-%d.json" %
                                  (pid, fam, res["index"]))))
            break
        return 1
    if missing and not only:
        print("UNDECIDED property=%s monitors saw no %s" % (pid, missing))
        return 2
    print("ok property=%s tier=%s cases=%d distinct=%d verdicts=%d "
          "events=%d wall=%.1fs%s" %
          (pid, tier, stats["evals"], len(stats["keys"]), stats["verdicts"],
           sum(stats["events"].values()), wall,
           " cut=%d" % skipped if skipped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
