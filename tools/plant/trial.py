"""quick trial of planted-bug specs on a scratch copy:  trial.py SPEC WORKERS [ID...]  (no tests, /repo untouched)"""
import os, sys, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
for b in spec["BUGS"]:
    if sys.argv[3:] and b["id"] not in sys.argv[3:]:
        continue
    d = tempfile.mkdtemp(prefix="trial-")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copy(os.path.join(HERE, "h.py"), d)
        open(os.path.join(d, "demo.py"), "w").write("from h import *\n" + b["demo"].lstrip("\n"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MBSIM_REPO=repo)
        run = lambda c: subprocess.run(c, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c0 = run([PY, os.path.join(d, "demo.py")])
        for f, old, new in b["edits"]:
            s = open(os.path.join(repo, f), encoding="utf-8").read()
            assert s.count(old) == 1, (b["id"], f, s.count(old))
            open(os.path.join(repo, f), "w", encoding="utf-8").write(s.replace(old, new))
        c1 = run([PY, os.path.join(d, "demo.py")])
        t = run([PY, "-m", "pytest", "-q", "-x", "tests/multibag"])
        r = run([PY, "/verif/check.py", b["prop"], "--workers", sys.argv[2], "--evidence-dir", d, "--wall", "800"])
        v = [l for l in r.stdout.split("\n") if l.startswith("  ")][:1]
        print("%-24s %s demo %d/%d tests %s | rc %d %s" % (b["id"], b["prop"], c0.returncode, c1.returncode,
              t.stdout.strip().split("\n")[-1][:60], r.returncode, v and v[0][:140] or r.stdout[-150:]))
        if c0.returncode or not c1.returncode:
            print("   demo:", c0.stdout[-300:], "|", c1.stdout[-300:])
        sys.stdout.flush()
    finally:
        shutil.rmtree(d)
