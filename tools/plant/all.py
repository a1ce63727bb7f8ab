"""
all.py [ID...]: goes through /verif/seeded on scratch copies of /repo: does the patch apply, does the
demo separate, does the property's check catch it (and with what)?  Prints the rows of DESIGN.md's table.
"""
import json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEED = os.path.join(VERIF, "seeded")


def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=1200)
    return r.returncode, r.stdout.decode("utf-8", "replace")


def main():
    ids = sys.argv[1:] or sorted(os.listdir(SEED))
    workers = os.environ.get("WORKERS", "8")
    for b in ids:
        d = os.path.join(SEED, b)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="all-")
        try:
            copy = os.path.join(tmp, "repo")
            sh(["git", "clone", "-q", "/repo", copy], tmp)
            bug = os.path.join(tmp, "elsewhere")
            shutil.copytree(d, bug, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            clean, _ = sh(["bash", os.path.join(bug, "demo.sh")], copy)
            rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], copy)
            if rc:
                print("%-26s DOES NOT APPLY" % b); continue
            bad, _ = sh(["bash", os.path.join(bug, "demo.sh")], copy)
            p = meta["property"]
            rc, o = sh([PY, os.path.join(VERIF, "check.py"), p, "--workers", workers, "--noshrink", "--evidence-dir", tmp],
                       VERIF, {"MBSIM_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            ev = {}
            try:
                ev = json.load(open(os.path.join(tmp, p + ".json")))
            except (OSError, ValueError):
                pass
            v = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            why = [l for l in o.split("\n") if l.strip()][:3]
            print("| %s | %s | %s | %s |%s" % (
                b, p, "caught" if rc == 1 and v else "MISSED rc %d" % rc, meta["needs"],
                "" if clean == 0 and bad != 0 else " DEMO %d/%d" % (clean, bad)))
            sys.stdout.flush()
        finally:
            shutil.rmtree(tmp)


main()
