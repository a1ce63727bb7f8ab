#!/opt/venv/bin/python
"""
check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
                    [--replay FILE] [--digests FILE]

Decides one property by seeded simulation.  Exit 0: it held on everything explored.
Exit 1 with a line "VIOLATION property=<id> replay=<file>": it is broken.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim.table import TABLE, COMMON_ASSUMPTIONS, COMPONENTS          # noqa: E402

NBATCH = 16


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


def hval(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=4).digest(), "big")


def known_findings(pid):
    """{signature: text} of the recorded findings of this property"""
    out = {}
    fn = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn, encoding="utf-8"):
            if line.startswith("finding: property=%s " % pid):
                rest = line[len("finding: property=%s " % pid):].strip()
                sig, _, txt = rest.partition(" ")
                if sig.startswith("sig="):
                    out[sig[4:]] = txt
    return out


class Pool(object):
    def __init__(self, scratch, workers):
        self.scratch, self.workers = scratch, workers

    def spawn(self, job, hashseed):
        job = dict(job)
        d = os.path.join(self.scratch, "b%s" % job["tag"])
        job["scratch"] = d
        job["out"] = os.path.join(self.scratch, "out-%s.json" % job["tag"])
        env = dict(os.environ)
        env.update(PYTHONHASHSEED=str(hashseed), TZ="UTC", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "pyc"), LC_ALL="C.UTF-8",
                   PYTHONPATH=HERE)
        env.pop("PYTHONWARNINGS", None)
        log = open(os.path.join(self.scratch, "log-%s.txt" % job["tag"]), "w")
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.worker",
                              json.dumps(job)], cwd=HERE, env=env, stdout=log, stderr=log)
        return p, job, log

    def run(self, jobs, wall):
        """jobs: list of (job, hashseed); returns list of results in order"""
        todo = list(enumerate(jobs))
        running, res = [], [None] * len(jobs)
        stop = False
        t_end = time.time() + wall
        while todo or running:
            while todo and len(running) < self.workers and not stop:
                i, (job, hs) = todo.pop(0)
                running.append((i, hs) + self.spawn(job, hs))
            if stop:
                todo = []
            time.sleep(0.02)
            for r in list(running):
                i, hs, p, job, log = r
                if p.poll() is None:
                    if time.time() > t_end:
                        p.kill()
                        p.wait()
                        res[i] = {"killed": True, "hashseed": hs, "job": job}
                        running.remove(r)
                    continue
                running.remove(r)
                log.close()
                try:
                    with open(job["out"]) as fd:
                        res[i] = json.load(fd)
                except Exception:
                    with open(log.name) as fd:
                        res[i] = {"crashed": fd.read()[-3000:]}
                res[i]["hashseed"] = hs
                shutil.rmtree(job["scratch"], ignore_errors=True)
                if res[i].get("violation"):
                    stop = True       # the other running batches still finish
        return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--digests")
    ap.add_argument("--noshrink", action="store_true")
    ap.add_argument("--wall", type=float)
    ap.add_argument("--evidence-dir", default=os.path.join(HERE, "evidence"))
    a = ap.parse_args()
    pid, cfg = a.pid, TABLE[a.pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="mbsim-", dir=base)
    rc = 2
    try:
        rc = decide(a, pid, cfg, tier, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def replay(a, pid, pool, case, tag="replay"):
    job = {"pid": pid, "seed": 0, "tag": tag, "replay": case["case"],
           "known": known_findings(pid)}
    return pool.run([(job, case.get("hashseed", 0))], 300)[0]


def decide(a, pid, cfg, tier, scratch, t0):
    pool = Pool(scratch, a.workers)
    known = known_findings(pid)
    if a.replay:
        with open(a.replay) as fd:
            case = json.load(fd)
        r = replay(a, pid, pool, case)
        v = r.get("violation")
        print("replay: %s" % json.dumps(v and {"cls": v["cls"], "msg": v["msg"]}))
        if r.get("errors") or r.get("crashed"):
            print("HARNESS-ERROR " + str(r.get("errors") or r.get("crashed")))
            return 2
        print("trace digest: %s (recorded %s)" % (r["digests"], case.get("digest")))
        if v and v["cls"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[v["cls"]]))
            return 0
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0

    runs = a.runs or cfg[tier]
    wall = a.wall or (cfg.get("wall", 150) if tier == "quick" else cfg.get("wall_thorough", 1500))
    print("property %s tier %s VERIF_SEED %d runs %d" % (pid, tier, a.seed, runs))
    jobs = []
    for b in range(NBATCH):
        idx = list(range(b, runs, NBATCH))
        if not idx:
            continue
        jobs.append(({"pid": pid, "seed": a.seed, "tier": tier, "tag": "%02d" % b,
                      "indices": idx, "wall": wall * min(a.workers, NBATCH) / float(NBATCH),
                      "known": known, "log": bool(a.digests), "noshrink": a.noshrink},
                     hval("hash", a.seed, pid, b) % 4000000000))
    res = pool.run(jobs, wall + 240)

    tot = {"cases": 0, "errors": [], "known": {}, "digests": set(), "stats": {}, "samples": []}
    viol = None
    errors = []
    for r in res:
        if r is None:
            continue                   # not started because a violation was found
        if r.get("killed"):
            errors.append("a batch exceeded its wall-clock limit and was killed")
            continue
        if r.get("crashed") is not None:
            errors.append("worker failed: " + r["crashed"])
            continue
        tot["cases"] += r["cases"]
        errors += r["errors"]
        for k, n in r["known"].items():
            tot["known"][k] = tot["known"].get(k, 0) + n
        tot["digests"].update(r["digests"])
        merge(tot["stats"], r["stats"])
        tot["samples"] += r["samples"]
        if r["violation"] and (viol is None or r["violation"]["run"] < viol["run"]):
            viol = dict(r["violation"], hashseed=r["hashseed"])

    if a.digests:
        allr = sorted(x for r in res if r for x in r.get("first", []))
        with open(a.digests, "w") as fd:
            json.dump(allr, fd)

    rc = 0
    if viol is not None:
        rdir = os.path.join(a.evidence_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, "%s-seed%d-run%d.json" % (pid, a.seed, viol["run"]))
        rec = {"property": pid, "seed": a.seed, "run": viol["run"], "class": viol["cls"],
               "message": viol["msg"], "hashseed": viol["hashseed"], "digest": viol["digest"],
               "case": viol["case"]}
        rr = replay(a, pid, pool, rec, "verify")
        v = rr.get("violation")
        if not (v and v["cls"] == viol["cls"]):
            rec["case"] = viol["original"]          # fall back to the unminimised case
            rr = replay(a, pid, pool, rec, "verify2")
            v = rr.get("violation")
        if v and v["cls"] == viol["cls"]:
            rec["digest"], rec["message"] = rr["digests"][0], v["msg"]
            with open(fn, "w") as fd:
                json.dump(rec, fd, indent=1, sort_keys=True)
            print("violation class: %s" % viol["cls"])
            print("  %s" % viol["msg"])
            print("  run %d of seed %d; minimised case written; replay: %s %s --replay %s"
                  % (viol["run"], a.seed, os.path.join(HERE, "check.py"), pid, fn))
            print("VIOLATION property=%s replay=%s" % (pid, fn))
            rc = 1
        else:
            errors.append("violation did not reproduce in a fresh process: %s %s"
                          % (viol["cls"], viol["msg"]))
    for sig in sorted(known):
        # a recorded finding is announced whenever the check runs
        if tot["known"].get(sig) or cfg.get("announce_known", True):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[sig]))
    if errors and rc == 0:
        for e in errors[:3]:
            print("HARNESS-ERROR " + e)
        rc = 2
    write_evidence(a, pid, cfg, tier, tot, 1 if rc == 1 else 0, time.time() - t0)
    s = tot["stats"]
    print("%d runs, %d operations, %d distinct non-trivial traces, %.1f s, rc %d"
          % (tot["cases"], s.get("ops", 0), len(tot["digests"]), time.time() - t0, rc))
    return rc


def write_evidence(a, pid, cfg, tier, tot, nviol, wall):
    s = tot["stats"]
    fired = s.get("fired", {})
    bykind = {}
    for k, n in fired.items():
        kk = k.split("@")[0]
        bykind[kk] = bykind.get(kk, 0) + n
    cov = {"evaluations": tot["cases"],
           "distinct_nontrivial": len(tot["digests"]),
           "rule": cfg["rule"],
           "samples": tot["samples"][:3],
           "seed_derivation": "run i of seed s draws everything from blake2b(s, property, i); "
                              "PYTHONHASHSEED of a batch from blake2b(s, property, batch)",
           "runs_per_hour": int(tot["cases"] * 3600 / max(wall, 0.001)),
           "simulated_processes": s.get("contexts", 0),
           "filesystem_operations": s.get("ops", 0),
           "operations_by_kind": s.get("opkinds", {}),
           "simulated_seconds": round(s.get("sim_s", 0.0), 3),
           "faults_injected": bykind,
           "faults_by_operation": fired,
           "probes": s.get("probes", {}),
           "state_measure": "distinct digests of the full sequence of file-system operations "
                            "(kind, path) and fired faults of a run",
           "components": COMPONENTS,
           "known_findings_met": tot["known"]}
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": cfg.get("level", "exploration"),
          "coverage": cov, "assumptions": COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(a.evidence_dir, exist_ok=True)
    fn = os.path.join(a.evidence_dir, pid + ".json")
    with open(fn + ".tmp", "w") as fd:
        json.dump(ev, fd, indent=1, sort_keys=True)
    os.replace(fn + ".tmp", fn)


if __name__ == "__main__":
    main()
