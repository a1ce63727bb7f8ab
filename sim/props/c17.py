"""C17: the multibag validators reach the right verdict on head and member bags"""
from .. import gen, bags, agg, sut, engine
from ..common import *

FORMS = ["ro", "ro", "ro", "zip", "tar", "tgz"]
ABS = ["http://ex.org/a.zip", "https://x.y/z?q=1", "ark:/88434/abc", "doi:10.1/x", "ftp://h/p"]
REL = ["foo/bar", "www.ex.org/a", "../up.zip", "b.zip", "//host/x"]
BADURL = ["http://[x", "http://[::1/y"]
KEYS = ["Multibag-Version", "Multibag-Reference", "Multibag-Tag-Directory", "Multibag-Head-Version",
        "Multibag-Head-Deprecates", "Internal-Sender-Identifier", "Internal-Sender-Description",
        "Bag-Group-Identifier"]
VALS = {"Multibag-Version": ["0.4", "0.3", "0.2"],
        "Multibag-Reference": ["https://github.com/x/y", "relative/path", "x", "http://[x"],
        "Multibag-Tag-Directory": ["multibag", "nowhere", "../up", "a/../../b"],
        "Multibag-Head-Version": ["1", "2.0"],
        "Multibag-Head-Deprecates": ["0.1", "0.1, old head", "1", "0.1, @", "2.0,a,b", "0.2,", "1 , x"],
        "Internal-Sender-Identifier": ["id"], "Internal-Sender-Description": ["d"],
        "Bag-Group-Identifier": ["g"]}
NAMES = ["samplebag", "bag one", "b\u00e9.mbag", "tab\tname", " lead", "trail ", "x"]


def edit_info(rng, info, name):
    for _ in range(ch(rng, [0, 0, 1, 1, 1, 2, 3])):
        k = ch(rng, KEYS)
        r = rng.random()
        me = name.strip().replace("\t", " ")
        v = ch(rng, VALS[k]).replace("@", me)
        if k == "Multibag-Head-Deprecates" and rng.random() < 0.3:
            for _ in range(rng.randrange(1, 4)):
                info.append([k, ch(rng, VALS[k] + ["0.3, b0", "0.1, @", "1, @"]).replace("@", me)])
            continue
        if r < 0.3:
            info[:] = [x for x in info if x[0] != k]
        elif r < 0.5:
            info[:] = [x for x in info if x[0] != k] + [[k, ""]]
        elif r < 0.7:
            info.append([k, v])
        elif r < 0.8:
            info.append([k, ""])
        else:
            info[:] = [x for x in info if x[0] != k] + [[k, v]]


def edit_members(rng, ls, name):
    for _ in range(ch(rng, [0, 0, 1, 1, 2, 3])):
        do = ch(rng, ["url", "rel", "bad", "comm", "urlcomm", "info", "dup", "drop", "swap", "append",
                      "pad", "blank", "none", "prefix", "case"])
        i = rng.randrange(len(ls)) if ls else None
        if do == "none":
            del ls[:]
        elif do == "blank":
            ls.insert(rng.randrange(len(ls) + 1), ch(rng, ["", "  ", "\t"]))
        elif do == "append":
            ls.append("other bag %d" % rng.randrange(3))
        elif i is None or not ls[i].strip():
            continue
        elif do in ("url", "rel", "bad"):
            ls[i] = ls[i].split("\t")[0] + "\t" + ch(rng, {"url": ABS, "rel": REL, "bad": BADURL}[do])
        elif do == "comm":
            ls[i] = ls[i].split("\t")[0] + ch(rng, ["\t# a note", "\t\t# a note", "\t# see x:y"])
        elif do == "urlcomm":
            ls[i] = ls[i].split("\t")[0] + "\t" + ch(rng, ABS) + "\t# note"
        elif do == "info":
            ls[i] = ls[i].split("\t")[0] + ch(rng, ["\t", "\t" + ch(rng, ABS)]) + "\textra\tmore"
        elif do == "dup":
            ls.insert(rng.randrange(len(ls) + 1), ls[i])
        elif do == "drop":
            del ls[i]
        elif do == "swap":
            j = rng.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif do == "pad":
            f = ls[i].split("\t")
            f[0] += "  "
            ls[i] = "\t".join(f)
        elif do == "prefix":
            ls[i] = ls[i][:max(1, len(ls[i]) - 1)]
        elif do == "case":
            ls[i] = ls[i].swapcase()


def edit_lookup(rng, ls, name, files):
    for _ in range(ch(rng, [0, 0, 1, 1, 2, 3])):
        do = ch(rng, ["drop", "dup", "dupbag", "one", "three", "missing", "foreign", "pad", "blank",
                      "none", "up", "dir", "tag", "rebag"])
        i = rng.randrange(len(ls)) if ls else None
        if do == "none":
            del ls[:]
        elif do == "blank":
            ls.insert(rng.randrange(len(ls) + 1), "")
        elif do == "missing":
            ls.append("data/not here\t" + name)
        elif do == "foreign":
            ls.append("data/not here\tanother bag")
        elif do == "up":
            ls.append(ch(rng, ["../up/file", "data/../../x"]) + "\t" + name)
        elif do == "dir":
            ls.append("data\t" + name)
        elif do == "tag":
            ls.append("bagit.txt\t" + name)
        elif i is None or not ls[i].strip():
            continue
        elif do == "drop":
            del ls[i]
        elif do == "dup":
            ls.insert(rng.randrange(len(ls) + 1), ls[i])
        elif do == "dupbag":
            ls.append(ls[i].split("\t")[0] + "\tother bag")
        elif do == "one":
            ls[i] = ls[i].split("\t")[0]
        elif do == "three":
            ls[i] += "\tmore"
        elif do == "pad":
            ls[i] = ls[i].replace("\t", "  \t ")
        elif do == "rebag":
            ls[i] = ls[i].split("\t")[0] + "\t" + name


ch = gen.ch


def join(rng, ls, sep="\n"):
    t = sep.join(ls) + (sep if ls and rng.random() < 0.8 else "")
    if rng.random() < 0.05:
        t = "\ufeff" + t
    if t and rng.random() < 0.12:     # torn by an interrupted write
        t = t[:rng.randrange(len(t) + 1)]
    return t


def generate(rng, tier):
    a = agg.generate(rng, nmem=3, npool=6, fetch=False)
    specs = agg.specs(a)
    spec = specs[-1] if rng.random() < 0.75 else specs[0]
    td = a["td"]
    name = spec["name"] if rng.random() < 0.7 else ch(rng, NAMES)
    old = spec["name"]
    spec["name"] = name
    raw = spec["raw"]
    for k in raw:
        raw[k] = "".join(l + "\n" for l in (
            "\t".join(name if f == old else f for f in l.split("\t"))
            for l in raw[k].split("\n")[:-1]))
    for k in KEYS[5:]:
        if rng.random() < 0.6:
            spec["info"].append([k, VALS[k][0]])
    if rng.random() < 0.75:
        edit_info(rng, spec["info"], name)
    files = sorted(spec["files"])
    v02 = bags.get(spec["info"], "Multibag-Version")[-1:] == ["0.2"] and rng.random() < 0.8
    sep = "\r\n" if rng.random() < 0.08 else "\n"
    mb, lk, ag = td + "/member-bags.tsv", td + "/file-lookup.tsv", td + "/aggregation-info.txt"
    for p, f in ((mb, edit_members), (lk, edit_lookup)):
        if p in raw:
            ls = raw[p].split("\n")[:-1]
            if rng.random() < 0.35:
                pass
            elif p == lk:
                f(rng, ls, name, files)
            else:
                f(rng, ls, name)
            raw[p] = join(rng, ls, sep)
            if v02:
                q = td + ("/group-members.txt" if p == mb else "/group-directory.txt")
                raw[q] = raw.pop(p).replace("\t", " ")
            if rng.random() < 0.05:
                raw.pop(p, None)
    if ag in raw and rng.random() < 0.3:
        raw[ag] = ch(rng, ["", "no colon here\n", "A: b\nbroken\n", "A: b\n  folded\n", "A:\n", ": x\n",
                           raw[ag] + "half a li"])
    if rng.random() < 0.05:
        for p in [p for p in raw if p.startswith(td + "/")]:
            del raw[p]
    if rng.random() < 0.1 and files:
        spec["breakfile"] = ch(rng, files)
    if rng.random() < 0.1:
        spec["staletags"] = True
    c = {"bag": spec, "form": ch(rng, FORMS), "env": gen.env(rng), "order": rng.randrange(1 << 30)}
    if rng.random() < 0.25:
        c["faults"] = [[{"pos": rng.random(), "k": ch(rng, ["read", "open_r", "list"]), "sticky": 1,
                         "on": ["read", "open_r", "list"], "do": ch(rng, ["EIO", "EACCES", "ESTALE"])}]
                       for _ in range(3)]
    return c


# ------------------------------------------------------------------ the oracle
E, W, R = 1, 2, 4


def scheme(u):
    import re
    return re.match(r"^[A-Za-z][A-Za-z0-9+.\-]*:", u) is not None


def common(t, exp, info):
    exp["2-Bag", E] = bool(bags.verify(t))


def vals(info, k):
    return [v for kk, v in info if kk == k]


def head_rules(t, name):
    """{(label, type): must it fail}; labels or types not listed are not judged"""
    info = bags.info_of(t)
    x = {}
    common(t, x, info)
    ver = vals(info, "Multibag-Version")
    v = ver[-1] if ver else None
    if len(ver) < 2:
        x["3-Version", E] = not v
        x["3-Version", W] = False
        x["3-Version-val", E] = False if v in ("0.2", "0.3", "0.4", None, "") else None
    elif all(ver):
        x["3-Version", W] = True
    ref = vals(info, "Multibag-Reference")
    if len(ref) < 2:
        x["3-Reference", R] = not (ref and ref[0])
        if ref and ref[0]:
            ok = scheme(ref[0]) and "://" in ref[0]
            x["3-Reference-val", E] = not ok if ref[0] not in BADURL else True
        else:
            x["3-Reference-val", E] = False
    tds = vals(info, "Multibag-Tag-Directory")
    td = (tds[-1] if tds else "") or "multibag"
    td = td.strip("/")
    isd = t.get(os.path.normpath(td), b"") is None and not td.startswith("..")
    x["3-Tag-Directory", E] = len(tds) > 1 or (len(tds) == 1 and not tds[0]) or not isd
    hv = vals(info, "Multibag-Head-Version")
    x["3-Head-Version", E] = not hv
    x["3-Head-Version_nonempty", W] = bool(hv) and not hv[-1]
    x["3-Head-Version_single", W] = len(hv) > 1
    dep = vals(info, "Multibag-Head-Deprecates")
    if not dep:
        for k in ("notempty", "notselfdep"):
            x["3-Head-Deprecates_" + k, W] = False
        x["3-Head-Deprecates_format", E] = False
    elif not dep[0]:
        x["3-Head-Deprecates_notempty", W] = True
    else:
        if all(dep):
            x["3-Head-Deprecates_notempty", W] = False
        ps = [[f.strip() for f in d.split(",")] for d in dep]
        x["3-Head-Deprecates_format", E] = any(len(p) > 2 for p in ps)
        if hv and hv[-1] and all(dep):
            x["3-Head-Deprecates_notselfdep", W] = any(
                p[0] == hv[-1] or (len(p) > 1 and p[1] == name) for p in ps)
    recs = errs = False
    known = True
    for k in KEYS[5:]:
        vs = vals(info, k)
        recs = recs or not (vs and vs[-1])
        if vs and not vs[-1]:
            known = False
        elif vs and not all(vs):
            errs = True
    x["3-2", R] = recs
    if errs or known:
        x["3-2", E] = errs
    if not isd:
        return x
    td = os.path.normpath(td)
    v02 = v == "0.2"
    if v02 and (" " in name or any(" " in p for p in t)):
        return x
    data = t.get(td + ("/group-members.txt" if v02 else "/member-bags.tsv"))
    x["4.0-1", E] = data is None
    if data is not None:
        judge_members(x, data.decode("utf-8-sig"), name, v02)
    data = t.get(td + ("/group-directory.txt" if v02 else "/file-lookup.tsv"))
    x["4.0-2", E] = data is None
    if data is not None:
        judge_lookup(x, data.decode("utf-8-sig"), name, t, v02)
    ag = t.get(td + "/aggregation-info.txt")
    if ag is None or v in ("0.2", "0.3"):
        x["4.4-1", E] = False
    else:
        try:
            inf = bags.parse_info(ag)
            x["4.4-1", E] = False
            if any(not k for k, _ in inf):
                del x["4.4-1", E]
        except bags.Unreadable:
            x["4.4-1", E] = True
    return x


def judge_members(x, txt, name, v02):
    rows = []
    bad = fmt = False
    care1 = True
    for l in txt.split("\n"):
        if not l.strip():
            continue
        if l[0].isspace():
            care1 = False
        f = [y.strip() for y in (l.strip().split() if v02 else l.strip().split("\t"))]
        rows.append(f[0])
        if len(f) > 1 and f[1] and not f[1].startswith("#"):
            bad = bad or not scheme(f[1]) or "[" in f[1]
        if v02 and len(f) > 2:
            fmt = True
    x["4.1-1", E] = fmt
    if care1:
        x["4.1-2", E] = bad
    if v02 and "#" in txt:
        del x["4.1-2", E]
    if care1 and name == name.strip() and "\t" not in name:
        x["4.1-3", E] = name not in rows
        x["4.1-4", E] = not rows or rows[-1] != name
        x["4.1-5", W] = len(set(rows)) != len(rows)


def judge_lookup(x, txt, name, t, v02):
    rows = []
    fmt = miss = False
    for l in txt.split("\n"):
        l = l.rstrip("\r")
        if not l.strip():
            continue
        f = [y.strip() for y in (l.strip().split() if v02 else l.split("\t"))]
        fmt = fmt or len(f) != 2
        rows.append(f[0])
        if len(f) > 1 and f[1] == name and t.get(os.path.normpath(f[0])) is None:
            miss = True
    if all(rows):
        x["4.2-1", E] = fmt
        if name == name.strip() and "\t" not in name:
            x["4.2-2", E] = miss
        x["4.2-3", W] = len(set(rows)) != len(rows)
    pl = [p for p in t if p.startswith("data/") and t[p] is not None]
    unl = [p for p in pl if p not in rows]
    if not unl:
        x["4.2-4", R] = False
    elif any(os.path.basename(p)[0] not in "._" for p in unl):
        x["4.2-4", R] = True


def member_rules(t, name):
    info = bags.info_of(t)
    x = {}
    common(t, x, info)
    ver = vals(info, "Multibag-Version")
    v = ver[-1] if ver else None
    x["3-Version-for-member", R] = not v
    if not v:
        return x
    if v != "0.2":
        x["2.1a-name-TAB", E] = "\t" in name
        x["2.1b-name-wsp", E] = name != name.strip()
    head = bool(vals(info, "Multibag-Head-Version"))
    tds = vals(info, "Multibag-Tag-Directory")
    x["2-Head-Deprecates", W] = not head and bool(vals(info, "Multibag-Head-Deprecates"))
    x["2-Tag-Directory", W] = not head and (bool(tds) or "multibag" in t)
    return x


def results(path, which, want, given):
    cls = sut.vhead.HeadBagValidator if which == "head" else sut.vmember.MemberBagValidator
    if given:
        r0 = sut.vbase.ValidationResults("given", want)
        r = cls(path).validate(want, r0)
        if r is not r0:
            return "not the results object given"
    else:
        r = cls(path).validate(want)
    got = {}
    for i in r.applied():
        k = (i.label, i.type)
        got[k] = got.get(k, False) or i.failed()
        for s in (str(i), i.summary, i.description):
            if not isinstance(s, str):
                return "summary is not text"
    return got, r.ok(), [(i.label, i.type) for i in r.failed(want)]


def verdicts(path, which, want):
    mod, cls = ((sut.vhead, sut.vhead.HeadBagValidator) if which == "head"
                else (sut.vmember, sut.vmember.MemberBagValidator))
    out = [cls(path).is_valid(want)]
    for f in (lambda: cls(path).ensure_valid(want), lambda: mod.validate(path, want)):
        try:
            f()
            out.append(True)
        except sut.vbase.MultibagValidationError as ex:
            out.append(False)
            if not str(ex) or not ex.results.failed(want):
                out.append("error without content")
    return out


def place(case, w, i=""):
    spec = case["bag"]
    t = bags.build(spec)
    if spec.get("breakfile") and t.get(spec["breakfile"]) is not None:
        t[spec["breakfile"]] += b"!"
    if spec.get("staletags"):
        t["bagit.txt"] = t["bagit.txt"].replace(b"\n", b"\r\n")
    root = os.path.join(w.dir("s" + i), spec["name"])
    bags.write_tree(t, root)
    path = root
    if case["form"] != "ro":
        path = bags.pack(root, case["form"], order=case.get("order"))
    return t, path


def execute(case, w):
    name = case["bag"]["name"]
    t, path = place(case, w)
    before = bags.snap(os.path.dirname(path))
    known = []
    for which in ("head", "member"):
        exp = head_rules(t, name) if which == "head" else member_rules(t, name)
        for given in (False, True):
            for want in (sut.vbase.ALL, sut.vbase.PROB, sut.vbase.ERROR):
                out = run(w, results, path, which, want, given, env=case.get("env"))
                r = expect_ok(out, which + "-validator")
                need(not isinstance(r, str), "bad-results", r)
                got, ok, failed = r
                for k in sorted(exp):
                    if exp[k] is None or not (k[1] & want):
                        continue
                    if which == "member" and k[0].startswith("2.1") and not given:
                        # judged last, under a class of its own: see KNOWN_FINDINGS
                        if exp[k] and not got.get(k, False):
                            known.append((name, k[0]))
                            continue
                    need(got.get(k, False) == exp[k], "missed" if exp[k] else "unjust",
                         "%s validator, rule %s %s: %s" % (
                             which, k[0], {1: "error", 2: "warning", 4: "recommendation"}[k[1]],
                             "violated but not reported" if exp[k] else "reported without cause"))
                    if exp[k]:
                        w.probe("%s %s/%d" % (which, k[0], k[1]))
                need(ok == (not failed), "ok", "ok() is %r with failed %r" % (ok, failed))
                if not given:
                    o2 = run(w, verdicts, path, which, want, env=case.get("env"))
                    vs = expect_ok(o2, which + "-validator")
                    need(all(v is ok for v in vs), "verdicts-disagree",
                         "%s: ok() %r, is_valid/ensure_valid/validate() %r" % (which, ok, vs))
                    w.probe(which + (" ok" if ok else " not ok"))
    need(bags.snap(os.path.dirname(path)) == before, "changed", "validating changed the bag")
    for which, fl in zip(("head", "member", "head"), case.get("faults", [])):
        base = run(w, results, path, which, 7, False, env=case.get("env"), record=True)
        out = run(w, results, path, which, 7, False, env=case.get("env"),
                  faults=engine.resolve(fl, base.ctx.events))
        need(out.kind != "hang", "hang", out.desc())
        if out.ctx.fired:
            w.probe("read_error")
            need(not (out.ok and out.value[1]), "valid-despite-error",
                 "%s validator passed the bag although %r failed" % (which, out.ctx.fired[:2]))
    need(not known, "member-name-rules-not-applied", "bag name %r: rule %s not reported by "
         "MemberBagValidator.validate() called without a results object" % (known[0] if known else ("", "")))
