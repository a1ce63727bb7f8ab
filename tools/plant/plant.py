"""
plant the seeded bugs:  plant.py SPECFILE [ID...]
A spec file defines BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)].
Works on a scratch copy of /repo; keeps a bug only if it passes the stable tests and the demo
separates; then runs the property's check (with MBSIM_REPO) and prints whether it is caught.
"""
import os, sys, json, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf-8", "replace")

def tests_ok(copy):
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = base.get("stable") or base.get("passed") or base.get("tests") or base
    for i in range(3):
        out = os.path.join(copy, "..", "t.json")
        # the test script runs in /repo: apply there
        rc, log = sh("bash /opt/vp/test.sh %s" % out)
        got = json.load(open(out))
        ok = set(got.get("passed") or got.get("pass") or [])
        miss = [t for t in base if t not in ok]
        if not miss:
            return True, ""
    return False, miss[:5]

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    os.makedirs(SEED, exist_ok=True)
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        rc, st = sh("git -C /repo status --porcelain")
        assert not st.strip(), st
        d = tempfile.mkdtemp(prefix="plant-")
        dd = os.path.join(d, "bug"); os.makedirs(dd)
        try:
            with open(os.path.join(dd, "demo.py"), "w") as fd:
                fd.write("from h import *\n" + b["demo"].lstrip("\n"))
            shutil.copy(os.path.join(HERE, "h.py"), dd)
            with open(os.path.join(dd, "demo.sh"), "w") as fd:
                fd.write('#!/bin/bash\n# exits 0 when the behaviour is right, nonzero when it is not; run with cwd /repo\n'
                         'cd "${REPO:-$PWD}" && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n'
                         .replace('cd "${REPO:-$PWD}" && ', ''))
            with open(os.path.join(dd, "meta.json"), "w") as fd:
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fd, indent=1)
            rc, o = sh("bash %s/demo.sh" % dd, cwd="/repo")
            if rc != 0:
                print(b["id"], "DEMO FAILS CLEAN", o[-1500:]); continue
            for f, old, new in b["edits"]:
                fp = os.path.join("/repo", f)
                s = open(fp, encoding="utf-8").read()
                if s.count(old) != 1:
                    raise SystemExit("%s: old text occurs %d times in %s" % (b["id"], s.count(old), f))
                open(fp, "w", encoding="utf-8").write(s.replace(old, new))
            rc, diff = sh("git -C /repo diff")
            open(os.path.join(dd, "patch.diff"), "w").write(diff)
            # original lines only
            mine = []
            for f in set(e[0] for e in b["edits"]):
                rc, bl = sh("git -C /repo blame -s HEAD -- %s" % f)
                bl = bl.split("\n")
                rc, nums = sh("git -C /repo diff -U0 -- %s | grep '^@@'" % f)
                norig = 0
                for h in nums.strip().split("\n"):
                    a = h.split()[1][1:].split(",")
                    s0, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    for i in range(s0, s0 + n):
                        if not bl[i-1].startswith("^afb3cad") and not bl[i-1].startswith("afb3cad"):
                            mine.append((f, i))
                        else:
                            norig += 1
                if not norig:
                    print(b["id"], "WARNING no original line changed in", f)
            if mine:
                print(b["id"], "WARNING touches my lines", mine)
            ok, miss = tests_ok(d)
            rc, o = sh("bash %s/demo.sh" % dd, cwd="/repo")
            if not ok:
                print(b["id"], "TESTS CATCH IT", miss); continue
            if rc == 0:
                print(b["id"], "DEMO PASSES WITH BUG"); continue
            msg = o.strip().split("\n")[-1][:150]
            rc, o = sh("%s /verif/check.py %s --evidence-dir %s --wall 600" % (PY, b["prop"], d), cwd="/verif",
                       env={"VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            print("%-22s %s %s | demo: %s" % (b["id"], b["prop"],
                  "CAUGHT" if rc == 1 and v and ("property=" + b["prop"]) in v[0] else "MISSED rc=%d" % rc, msg))
            tgt = os.path.join(SEED, b["id"])
            if os.path.isdir(tgt):
                shutil.rmtree(tgt)
            shutil.copytree(dd, tgt)
        finally:
            sh("git -C /repo checkout -- .")
            shutil.rmtree(d)
            sys.stdout.flush()
main()
