#!/usr/bin/env python
"""Mutation testing of the checks: makes one-place changes of multibag/*.py in
scratch copies, keeps those that still pass the stable tests, runs the checks
on them, and lists those nothing catches.

    mut.py gen  OUT.jsonl               list of mutants
    mut.py run  IN.jsonl OUT.jsonl [N]  judge them, N at a time (resumable)
"""
import warnings
warnings.simplefilter('ignore')
import ast, json, os, subprocess, sys, shutil, random, threading, queue
REPO = os.environ.get("MBSIM_REPO", "/repo")
VERIF = os.environ.get("MUT_VERIF", "/verif")
PY = "/opt/venv/bin/python"
FILES = ["multibag/" + f for f in (
    "split.py restore.py amend.py access/bagit.py access/extended.py "
    "access/multibag.py validate/base.py validate/bag.py "
    "validate/headbag.py validate/member.py").split()]
ORDER = {
    "multibag/split.py": "C03 C02 C01 C18 C04 C22 C24 C23 C25 C11 C05 C07 C21",
    "multibag/restore.py": "C08 C05 C19 C12 C21 C22 C23 C25 C01 C07",
    "multibag/amend.py": "C09 C10 C06 C13 C22 C25 C08 C07",
    "multibag/access/bagit.py": "C15 C16 C14 C01 C08 C02 C04 C22 C20",
    "multibag/access/extended.py": "C15 C16 C01 C02 C08 C04 C05",
    "multibag/access/multibag.py": "C14 C09 C10 C02 C06 C25 C08 C17 C13",
    "multibag/validate/base.py": "C17 C16 C02",
    "multibag/validate/bag.py": "C17 C16 C02",
    "multibag/validate/headbag.py": "C17 C02 C16 C09",
    "multibag/validate/member.py": "C17 C02 C16",
}
QUICK = {}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=",
       ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not",
       ast.IsNot: "is"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def gen(src):
    """yields (start, end, newtext, description) in byte offsets"""
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)

    def span(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)
    parents = {}
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            parents[c] = p
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and \
           n.body and isinstance(n.body[0], ast.Expr) and \
           isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])

    def islog(n):
        s = seg(src, n) or ""
        return ("log." in s.split("(")[0] or "LOG" in s.split("(")[0]
                or "version_info" in s)

    def inlog(n):
        while n in parents:
            if isinstance(n, (ast.Expr, ast.Raise)) and (
                    islog(n) or isinstance(n, ast.Raise)):
                return True
            n = parents[n]
        return False
    for n in ast.walk(tree):
        if not hasattr(n, "lineno") or n in doc:
            continue
        if isinstance(n, ast.stmt) and not isinstance(
                n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom,
                    ast.Pass, ast.If, ast.For, ast.While, ast.Try, ast.With)):
            if not isinstance(parents[n], ast.Module) and not islog(n) and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                if isinstance(n, ast.Return):
                    if n.value is not None:
                        yield span(n) + ("return None", "return-none")
                else:
                    yield span(n) + ("pass", "drop-stmt")
        if inlog(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield span(n) + ("(%s %s %s)" % (
                seg(src, n.left), CMP[type(n.ops[0])],
                seg(src, n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            vals = ["(" + seg(src, v) + ")" for v in n.values]
            yield span(n) + ("(" + (" %s " % op).join(vals) + ")", "andor")
            o2 = "and" if op == "or" else "or"
            for i in range(len(vals)):
                yield span(n) + ("(" + (" %s " % o2).join(
                    vals[:i] + vals[i + 1:]) + ")", "drop-operand%d" % i)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield span(n) + ("bool(%s)" % seg(src, n.operand), "not")
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield span(n) + (repr(not n.value), "bool")
            elif isinstance(n.value, int):
                yield span(n) + (repr(n.value + 1), "int+1")
            elif isinstance(n.value, str) and not isinstance(
                    parents.get(n), (ast.Expr, ast.JoinedStr)):
                if n.value in ("/", "data/", "\n", os.sep):
                    yield span(n) + ("''", "empty-str")
                elif n.value in ("w", "wb", "a"):
                    yield span(n) + (repr({"w": "a", "wb": "ab", "a": "w"}[
                        n.value]), "mode")
                elif n.value:
                    yield span(n) + (repr(n.value + "x"), "str+x")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            yield span(n) + ("(" + seg(src, n.left) + ")", "left-only")
            yield span(n) + ("(" + seg(src, n.right) + ")", "right-only")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                v = seg(src, n.func.value)
                if n.func.attr in ("strip", "rstrip", "lstrip", "lower", "upper",
                                   "keys", "items", "values", "copy", "normpath",
                                   "sort", "encode", "decode", "realpath",
                                   "abspath"):
                    yield span(n) + (v, "unwrap-" + n.func.attr)
                if n.func.attr in ("startswith", "endswith"):
                    o = {"startswith": "endswith", "endswith": "startswith"}
                    yield span(n.func) + (v + "." + o[n.func.attr], "swap-with")
                if n.func.attr in ("join", "normpath", "realpath", "basename",
                                   "dirname", "isfile", "isdir", "exists") and \
                        v.endswith("path"):
                    if n.args:
                        yield span(n) + (seg(src, n.args[-1]), "path-last")
                        if len(n.args) > 1:
                            yield span(n) + (seg(src, n.args[0]), "path-first")
                    alt = {"isfile": "exists", "isdir": "exists",
                           "exists": "isfile"}
                    if n.func.attr in alt:
                        yield span(n.func) + (v + "." + alt[n.func.attr],
                                              "path-alt")
            elif isinstance(n.func, ast.Name) and n.func.id in (
                    "sorted", "list", "set", "dict", "OrderedDict", "str",
                    "int", "reversed") and len(n.args) >= 1:
                yield span(n) + (seg(src, n.args[0]), "unwrap-" + n.func.id)
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    args = [seg(src, a) for a in n.args] + [
                        "%s=%s" % (k.arg, seg(src, k.value)) if k.arg
                        else "**" + seg(src, k.value)
                        for j, k in enumerate(n.keywords) if j != i]
                    yield span(n) + (seg(src, n.func) + "(" + ", ".join(args) +
                                     ")", "drop-kw-" + kw.arg)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args):
                args = [seg(src, a) for a in n.args[:-1]] + [
                    "%s=%s" % (k.arg, seg(src, k.value)) for k in n.keywords
                    if k.arg]
                yield span(n) + (seg(src, n.func) + "(" + ", ".join(args) + ")",
                                 "drop-last-arg")
        elif isinstance(n, (ast.If, ast.While)):
            t = n.test
            if "version_info" in (seg(src, t) or ""):
                continue
            if isinstance(n, ast.If):
                yield span(t) + ("(%s) or True" % seg(src, t), "if-true")
            yield span(t) + ("(%s) and False" % seg(src, t), "if-false")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield span(n) + (seg(src, n.value), "unslice")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield span(n.type) + ("ZeroDivisionError", "no-handler")


def make():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read()
        b = src.encode()
        seen = set()
        for s, e, new, what in gen(src):
            t = b[:s] + new.encode() + b[e:]
            if t in seen or t == b:
                continue
            seen.add(t)
            try:
                compile(t, f, "exec")
            except SyntaxError:
                continue
            out.append(dict(file=f, start=s, end=e, new=new, what=what,
                            old=b[s:e].decode(),
                            line=b[:s].count(b"\n") + 1))
    for i, m in enumerate(out):
        m["id"] = i
    return out


def judge(m, copy, base):
    p = os.path.join(copy, m["file"])
    orig = open(p, "rb").read()
    try:
        open(p, "wb").write(orig[:m["start"]] + m["new"].encode() +
                            orig[m["end"]:])
        tmp = copy + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.mkdir(tmp)
        env = dict(os.environ, TMPDIR=tmp, PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
        xml = tmp + "/j.xml"
        try:
            if m.get("verdict") == "passes":
                raise LookupError
            r = subprocess.run(
                ["setpriv", "--bounding-set=-dac_override,-dac_read_search",
                 "--inh-caps=-dac_override,-dac_read_search", PY, "-m",
                 "pytest", "-q", "-x", "-p", "no:cacheprovider",
                 "--timeout=60", "--deselect",
                 "tests/multibag/testing/test_mkdata.py", "--deselect",
                 "tests/multibag/test_amend.py::TestAmender::test_amend_bag_with",
                 "--deselect",
                 "tests/multibag/test_amend.py::TestAmender::test_finalize",
                 "tests"], cwd=copy, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, timeout=300)
        except LookupError:
            r = None
        except subprocess.TimeoutExpired:
            return "tests", "timeout"
        if r is not None and r.returncode != 0:
            return "tests", ""
        if os.environ.get("MUT_TESTS_ONLY"):
            return "passes", ""
        for c in ORDER[m["file"]].split():
            n = max(100, QUICK[c] * FRAC // 100)
            try:
                r = subprocess.run(
                    [PY, VERIF + "/check.py", c, "--runs", str(n), "--workers",
                     "1", "--noshrink", "--wall", "120", "--evidence-dir",
                     tmp + "/ev"], env=dict(os.environ, MBSIM_REPO=copy),
                    cwd=VERIF, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, timeout=400)
            except subprocess.TimeoutExpired:
                return "killed", c + " timeout"
            if r.returncode != 0:
                return "killed", "%s rc %d" % (c, r.returncode)
        return "SURVIVED", ""
    finally:
        open(p, "wb").write(orig)
        shutil.rmtree(copy + ".tmp", ignore_errors=True)


def main():
    global QUICK, FRAC
    FRAC = int(os.environ.get("MUT_FRAC", "8"))
    if sys.argv[1] == "gen":
        ms = make()
        with open(sys.argv[2], "w") as f:
            for m in ms:
                f.write(json.dumps(m) + "\n")
        print(len(ms))
        return
    sys.path.insert(0, VERIF)
    from sim import table
    QUICK = {k: v["quick"] for k, v in table.TABLE.items()}
    ms = [json.loads(l) for l in open(sys.argv[2])]
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(l)["id"] for l in open(sys.argv[3])}
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 7
    ms = [m for m in ms if m["id"] not in done
          and m.get("verdict") in (None, "passes")]
    random.Random(5).shuffle(ms)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    out = open(sys.argv[3], "a")

    def go(i):
        copy = "/tmp/mutw%d/%d" % (os.getpid(), i)
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(REPO, copy, symlinks=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            v, why = judge(m, copy, None)
            with lock:
                out.write(json.dumps(dict(m, verdict=v, why=why)) + "\n")
                out.flush()
        shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/mutw%d" % os.getpid(), exist_ok=True)
    ts = [threading.Thread(target=go, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree("/tmp/mutw%d" % os.getpid(), ignore_errors=True)


main()
