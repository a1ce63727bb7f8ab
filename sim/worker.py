"""one batch of simulated runs in its own process (fixed PYTHONHASHSEED)"""
import sys, os, json
from . import seam          # first: before anything captures open() etc.
import random, importlib, traceback


def load(pid):
    from . import sut       # noqa: imports the package under test
    return importlib.import_module("sim.props." + pid.lower())


def case_rng(seed, pid, i):
    return random.Random(seam.H("case", seed, pid, i))


def warm(prop, scratch):
    """trigger lazy imports outside any simulation"""
    from . import sut, bags
    d = os.path.join(scratch, "warm")
    os.makedirs(d)
    p = bags.write_bag({"name": "wb", "files": {"data/a": ["t", "x"]}, "dirs": [], "info": [],
                        "algs": ["sha256"], "tagalgs": []}, d)
    for f in ("zip", "tgz"):
        q = bags.pack(p, f, remove=False)
        sut.mbagit.open_bag(q).validate()
    os.makedirs(os.path.join(d, "o"))
    r = sut.msplit.WellPackedSplitter(10).split(p, os.path.join(d, "o"))
    sut.mrestore.restore_bag(r[-1], os.path.join(d, "o", "res"))
    bags.rmtree(d)


def escaped(ev, path):
    c = seam.cur()
    if c is not None:
        c.escapes.append((ev, path))


def main(argv):
    job = json.loads(argv[0])
    pid, seed, scratch = job["pid"], job["seed"], job["scratch"]
    os.makedirs(scratch, exist_ok=True)
    import tempfile
    tempfile.tempdir = scratch
    from . import engine, contain
    contain.install(os.path.dirname(os.path.abspath(scratch)), escaped)
    prop = load(pid)
    try:
        warm(prop, scratch)
    except Exception:
        pass                # the runs themselves will show what is wrong
    out = {"cases": 0, "errors": [], "violation": None, "known": {}, "digests": [],
           "stats": {}, "nontrivial": 0, "samples": [], "first": [], "capped": False}
    known = job.get("known", {})

    if job.get("replay"):
        case = job["replay"]
        r = engine.run_case(prop, case, scratch, known)
        out.update(cases=1, digests=[r.digest], violation=None if not r.violation else
                   {"cls": r.violation[0], "msg": r.violation[1], "case": case},
                   errors=[r.error] if r.error else [])
    else:
        t_end = seam.real_time() + job["wall"]
        seen = set()
        for i in job["indices"]:
            if seam.real_time() > t_end:
                out["capped"] = True
                break
            case = engine.norm(prop.generate(case_rng(seed, pid, i), job["tier"]))
            r = engine.run_case(prop, case, scratch, known)
            out["cases"] += 1
            merge(out["stats"], r.stats)
            if r.error:
                out["errors"].append("run %d: %s" % (i, r.error))
                if len(out["errors"]) > 3:
                    break
                continue
            nontriv = r.stats.get("ops", 0) >= 10 and \
                (not getattr(prop, "NEED_FAULT", False) or bool(r.stats.get("fired")))
            if r.digest not in seen:
                seen.add(r.digest)
                if nontriv:
                    out["digests"].append(r.digest)
            if job.get("log"):
                out["first"].append([i, r.digest, r.violation and r.violation[0]])
            if len(out["samples"]) < 1 and nontriv:
                out["samples"].append({"run": i, "case": case, "trace": r.digest})
            if r.violation:
                sig = r.violation[0]
                if sig in known:
                    out["known"][sig] = out["known"].get(sig, 0) + 1
                    continue
                small = case
                if not job.get("noshrink"):
                    try:
                        small = engine.shrink(prop, case, r.violation, scratch, known,
                                              budget_s=job.get("shrink_s", 20.0))
                    except Exception:
                        pass
                rr = engine.run_case(prop, small, scratch, known)
                if not rr.violation:
                    small, rr = case, r
                out["violation"] = {"run": i, "cls": rr.violation[0], "msg": rr.violation[1],
                                    "case": small, "original": case, "digest": rr.digest}
                break
    with open(job["out"], "w") as fd:
        json.dump(out, fd)


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v


if __name__ == "__main__":
    try:
        main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
