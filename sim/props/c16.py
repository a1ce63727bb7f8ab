"""C16: bag validation accepts sound bags and detects every kind of damage"""
from .. import gen, bags, agg, sut, engine
from ..common import *

FORMS = ["ro", "ro", "rw", "zip", "zip", "tar", "tgz", "tar.bz2"]
HARM = ["flip", "flip", "trunc", "grow", "remove", "remove", "swap", "sameSize", "rename", "add",
        "adddeep", "zero", "tagflip", "tagremove", "tagtrunc", "hash", "hashtag", "unlist",
        "nomanifest", "nobagit", "nodata", "bom", "badtags", "badversion", "oxum", "ghost",
        "undecodable", "conflict", "tornmanifest", "toempty", "todir", "compensate"]
BENIGN = ["none", "none", "addtag", "emptydir", "reorder", "upper", "star", "comment", "crlf",
          "dropoxum", "untagged"]


def pick(seq, i):
    return seq[i % len(seq)] if seq else None


def mutate(t, d, algs):
    """apply one damage to the tree t (in place)"""
    do, i = d["do"], d["i"]
    pl = sorted(p for p in t if p.startswith("data/") and t[p] is not None)
    full = [p for p in pl if t[p]]
    try:
        tl = sorted(set(p for e in bags.entries(t, "tagmanifest").values() for p in e
                        if t.get(p)))
    except bags.Unreadable:
        tl = []
    mans = sorted(p for p in t if p.startswith("manifest-") and p[9:-4] in algs)
    tmans = sorted(p for p in t if p.startswith("tagmanifest-"))
    p = pick(full, i)
    a = pick(pl, i)
    m = pick(mans, i)
    at = d.get("at", 0)
    if do in ("flip", "tagflip"):
        p = p if do == "flip" else pick(tl, i)
        if p:
            k = at % len(t[p])
            t[p] = t[p][:k] + bytes([t[p][k] ^ (1 << (i % 8))]) + t[p][k + 1:]
    elif do in ("trunc", "tagtrunc"):
        p = p if do == "trunc" else pick(tl, i)
        if p:
            t[p] = t[p][:at % len(t[p])]
    elif do == "toempty" and p:
        t[p] = b""
    elif do == "zero" and p:
        t[p] = bytes(len(t[p]))
    elif do == "grow" and a:
        t[a] += b"\n" if i % 2 else b"tail"
    elif do == "remove" and a:
        _rm(t, a)
    elif do == "tagremove" and tl:
        _rm(t, pick(tl, i))
    elif do == "swap" and len(full) > 1:
        b = pick(full, i + 1 + at % (len(full) - 1))
        t[p], t[b] = t[b], t[p]
    elif do == "sameSize" and p:
        t[p] = bags.content(["r", i, len(t[p])])
    elif do == "rename" and a:
        v = t[a]
        _rm(t, a)
        _put(t, "data/moved %d" % (i % 9), v)
    elif do == "add":
        _put(t, "data/extra", b"" if i % 2 else b"new")
    elif do == "adddeep":
        _put(t, "data/new/deep/.extra", b"" if i % 2 else b"new")
    elif do == "hash" and m and t[m]:
        ls = t[m].split(b"\n")
        k = at % len([x for x in ls if x])
        ls[k] = (b"1" if ls[k][:1] != b"1" else b"2") + ls[k][1:]
        t[m] = b"\n".join(ls)
    elif do == "hashtag" and tmans and t[pick(tmans, i)]:
        m = pick(tmans, i)
        t[m] = (b"1" if t[m][:1] != b"1" else b"2") + t[m][1:]
    elif do == "unlist" and a:
        for m in mans:
            t[m] = b"\n".join(x for x in t[m].split(b"\n")
                              if _cols(x)[1] != a.encode(bags.enc_of(t)))
    elif do == "tornmanifest" and m:
        t[m] = t[m][:at % (len(t[m]) + 1)]
    elif do == "nomanifest":
        for m in mans:
            del t[m]
    elif do == "nobagit":
        t.pop("bagit.txt", None)
    elif do == "nodata":
        for q in [q for q in t if q == "data" or q.startswith("data/")]:
            del t[q]
    elif do == "bom" and "bagit.txt" in t:
        t["bagit.txt"] = b"\xef\xbb\xbf" + t["bagit.txt"]
    elif do == "badtags":
        t["bagit.txt"] = [b"", b"BagIt-Version: 0.97\n", b"Tag-File-Character-Encoding: UTF-8\n",
                          b"garbage\n"][i % 4]
    elif do == "badversion":
        t["bagit.txt"] = b"BagIt-Version: " + [b"x.y", b"2.0", b"0.5", b"97"][i % 4] + \
            b"\nTag-File-Character-Encoding: UTF-8\n"
    elif do == "oxum":
        if t.get("bag-info.txt") is not None:
            ls = [x for x in t["bag-info.txt"].split(b"\n") if not x.startswith(b"Payload-Oxum")]
            n, c = sum(len(t[q]) for q in pl), len(pl)
            t["bag-info.txt"] = b"\n".join([b"Payload-Oxum: %d.%d" % [
                (n + 1, c), (n, c + 1), (c, n + 5), (n * 10 + 1, c)][i % 4]] + ls)
    elif do == "ghost" and m:
        t[m] += b"%s  data/ghost\n" % bags.digest(m[9:-4], b"?").encode()
    elif do == "undecodable":
        m = pick(mans + tmans + ["bagit.txt"], i)
        t[m] = t.get(m, b"") + b"\xff\xfe  data/\xc3\n"
    elif do == "conflict" and m and t[m]:
        ln = t[m].split(b"\n")[0]
        t[m] += (b"1" if ln[:1] != b"1" else b"2") + ln[1:] + b"\n"
    elif do == "todir" and a:
        t[a] = None
    elif do == "compensate" and len(full) > 1:
        # one byte moves from one file to another: counts and totals stay the same
        b = pick(full, i + 1 + at % (len(full) - 1))
        t[b] += t[p][-1:]
        t[p] = t[p][:-1]
    # ---- changes that leave the bag sound
    elif do == "addtag":
        _put(t, "extra notes.txt", b"x")
    elif do == "emptydir":
        t.setdefault("data/an empty one", None)
    elif do == "reorder" and m:
        ls = [x for x in t[m].split(b"\n") if x]
        t[m] = b"\n".join(ls[::-1] + [b""])
    elif do == "upper" and m:
        t[m] = b"\n".join(x[:len(_cols(x)[0])].upper() + x[len(_cols(x)[0]):]
                          for x in t[m].split(b"\n"))
    elif do == "star" and m:
        t[m] = b"\n".join(b" *".join(_cols(x)) if x else x for x in t[m].split(b"\n"))
    elif do == "comment" and m:
        t[m] = b"# by hand\n\n" + t[m]
    elif do == "crlf" and m:
        t[m] = t[m].replace(b"\r", b"").replace(b"\n", b"\r\n")
    elif do == "dropoxum" and t.get("bag-info.txt") is not None:
        t["bag-info.txt"] = b"\n".join(x for x in t["bag-info.txt"].split(b"\n")
                                       if not x.startswith(b"Payload-Oxum"))
    if d.get("retag") or do in BENIGN:
        # the tag manifests are refreshed to agree with the changed tag files
        for tm in tmans:
            if tm in t:
                alg = tm[12:-4]
                if do == "untagged":
                    del t[tm]
                    continue
                try:
                    ent = bags.parse_manifest(t[tm], tm, bags.enc_of(t))
                except bags.Unreadable:
                    continue
                t[tm] = b"".join(b"%s %s\n" % (bags.digest(alg, t[q]).encode() if t.get(q) is
                                               not None else h.encode(),
                                               q.encode(bags.enc_of(t)))
                                 for q, h in ent.items())


def _cols(line):
    """the checksum and the path on a manifest line, however they are separated"""
    c = line.rstrip(b"\r").split(None, 1)
    return (c + [b"", b""])[0], (c[1].lstrip(b"*") if len(c) > 1 else b"")


def _rm(t, p):
    t.pop(p, None)
    q = os.path.dirname(p)
    while q and q != "data" and not any(x.startswith(q + "/") for x in t):
        t.pop(q, None)
        q = os.path.dirname(q)


def _put(t, p, v):
    q = os.path.dirname(p)
    if p in t:
        return
    while q:
        if t.get(q) is not None:
            return
        q = os.path.dirname(q)
    t[p] = v
    q = os.path.dirname(p)
    while q:
        t[q] = None
        q = os.path.dirname(q)


def generate(rng, tier):
    if rng.random() < 0.2:
        spec = agg.specs(agg.generate(rng, nmem=3, npool=7))[-1]
        spec.pop("fetch", None)
        spec.pop("extra_entries", None)
    else:
        spec = gen.bag(rng, nmax=6, big=rng.random() < .3)
        if rng.random() < 0.05:
            spec["fetch"] = [["http://x/1", "12", "data/rem"]]
            spec["extra_entries"] = {a: {"data/rem": bags.digest(a, b"?")} for a in spec["algs"]}
    if rng.random() < 0.4 and not spec["tagalgs"]:
        spec["tagalgs"] = list(spec["algs"])
    gen.unorm(rng, gen.encoding(rng, spec, False))
    cases = []
    for _ in range(4):
        r = rng.random()
        ds = []
        if r < 0.3:
            ds = [gen.ch(rng, BENIGN)]
        elif r < 0.9:
            ds = [gen.ch(rng, HARM)]
        else:
            ds = [gen.ch(rng, HARM), gen.ch(rng, HARM)]
        ds = [{"do": x, "i": rng.randrange(1 << 16), "at": rng.randrange(1 << 20),
               "retag": rng.random() < .7} for x in ds]
        c = {"damage": ds, "form": gen.ch(rng, FORMS), "env": gen.env(rng),
             "order": rng.randrange(1 << 30), "noent": rng.random() < .2}
        if spec.get("mnorm") == "NFD" and c["form"] == "rw":
            c["form"] = "ro"        # the bagit library finds files by their composed names only
        if rng.random() < 0.4:
            c["faults"] = [[{"pos": rng.random(), "k": gen.ch(rng, ["read", "read", "open_r", "list"]),
                             "do": gen.ch(rng, ["EIO", "EIO", "EACCES", "ESTALE", "EMFILE"])}]
                           for _ in range(3)]
            for fl in c["faults"]:
                if rng.random() < 0.5 or c["form"] != "ro":
                    # the file or device stays unreadable (readers of archives probe formats, and
                    # may recover from a passing error)
                    fl[0].update(sticky=1, on=["read", "open_r", "list"])
        cases.append(c)
    return {"bag": spec, "cases": cases}


def ask(path, how):
    """verdicts of every validation entry point: {name: (verdict, detail)}"""
    out = {}
    mk = {"rw": lambda: sut.mext.ExtendedReadWritableBag(path)}.get(
        how, lambda: sut.mbagit.open_bag(path))
    try:
        mk()
    except Exception as ex:
        return {"open": type(ex).__name__}

    def tr(name, f):
        try:
            out[name] = f()
        except Exception as ex:
            out[name] = False      # refusing with an error is a rejection
    tr("validate", lambda: mk().validate() or "no verdict")
    tr("is_valid", lambda: mk().is_valid())
    tr("complete", lambda: mk().validate(completeness_only=True))
    tr("processes", lambda: mk().validate(processes=2))
    if mk().has_oxum():
        tr("fast", lambda: mk().validate(fast=True))
    if how != "rw":
        tr("ext", lambda: sut.mext.as_extended(mk()).validate())
        tr("validator", lambda: sut.vbag.BagValidator(path).validate().ok())
        tr("validator2", lambda: sut.vbag.BagValidator(path).is_valid(sut.vbase.ERROR))
        tr("ensure", lambda: sut.vbag.BagValidator(path).ensure_valid() is None)
        for k, cls in (("member", sut.vmember.MemberBagValidator), ("head", sut.vhead.HeadBagValidator)):
            try:
                r = cls(path).validate(sut.vbase.ERROR)
            except Exception:
                out[k] = False
                continue
            f = [x for x in r.applied(sut.vbase.ERROR) if x.label == "2-Bag"]
            out[k] = len(f) == 1 and f[0].passed()
    return out


def one(path, kind):
    """a single validation, for fault runs; True means declared valid"""
    if kind == 0:
        return sut.mbagit.open_bag(path).validate() is True
    if kind == 1:
        return sut.mbagit.open_bag(path).is_valid()
    return sut.vbag.BagValidator(path).validate().ok()


def execute(case, w):
    spec = case["bag"]
    for i, c in enumerate(case["cases"]):
        t = bags.build(spec)
        was = bags.verify(t)
        for d in c["damage"]:
            mutate(t, d, spec["algs"])
        bad = bags.verify(t)
        benign = all(d["do"] in BENIGN for d in c["damage"])
        if benign and not was:
            need(not bad, "harness", repr((c["damage"], bad)))
        care = True
        if bad and all("bad line in" in x for x in bad):
            care = False       # malformed manifest lines alone: ignoring them is allowed
        for d in c["damage"]:
            if d["do"] == "bom" and t.get("bagit.txt"):
                bad = bad + ["byte-order mark"]
            if d["do"] == "badversion" and t.get("bagit.txt"):
                bad = bad + ["bad version"]
            if d["do"] in ("tagflip", "tagtrunc") and (not bad or not any(
                    x.startswith(("checksum mismatch", "tag checksum", "listed", "payload file in"))
                    for x in bad)):
                care = False   # random edits of special files that the checker knows no rule for
            if d["do"] == "tornmanifest" and not bad and spec["version"] != "0.97":
                care = False   # a file listed in only one of two manifests
        root = os.path.join(w.dir("b%d" % i), spec["name"])
        bags.write_tree(t, root)
        path, form = root, c["form"]
        if form not in ("ro", "rw"):
            path = bags.pack(root, form, order=c.get("order"), direntries=not c.get("noent"))
        before = bags.snap(os.path.dirname(root))
        tag = "+".join(d["do"] for d in c["damage"])
        if not any(d["do"] in ("oxum",) for d in c["damage"]) or form != "rw":
            out = run(w, ask, path, form, env=c.get("env"))
            v = expect_ok(out, "validate")
            if care and bad:
                for k, x in v.items():
                    if k in ("open", "complete", "fast"):
                        continue
                    need(x is False, "accepted-damaged", "%s of %s as %s says %r; but %s" %
                         (k, tag, form, x, "; ".join(bad[:3])))
                if any(x.startswith(("listed payload file missing", "payload file in no"))
                       for x in bad) and "complete" in v:
                    need(v["complete"] is False, "accepted-incomplete", "%s as %s: %s" %
                         (tag, form, "; ".join(bad[:3])))
                if any(x.startswith("Payload-Oxum") for x in bad) and "fast" in v:
                    need(v["fast"] is False, "accepted-size", "%s as %s: %s" %
                         (tag, form, "; ".join(bad[:3])))
                w.probe("rejected")
                w.probe("d:" + tag if len(c["damage"]) == 1 else "d:two")
            elif care:
                need("open" not in v, "rejected-sound", "%s as %s cannot be opened: %s" %
                     (tag, form, v.get("open")))
                for k, x in v.items():
                    need(x is True, "rejected-sound", "%s of %s as %s says %r" % (k, tag, form, x))
                w.probe("accepted")
            need(bags.snap(os.path.dirname(root)) == before, "changed", "validating changed the bag")
        if form == "rw" or not c.get("faults"):
            continue
        base = run(w, one, path, 0, env=c.get("env"), record=True)
        for j, fl in enumerate(c["faults"]):
            fl = engine.resolve(fl, base.ctx.events)
            out = run(w, one, path, j % 3, env=c.get("env"), faults=fl)
            need(out.kind != "hang", "hang", out.desc())
            if out.ctx.fired and (form == "ro" or fl[0].get("sticky")):
                w.probe("read_error")
                need(not (out.ok and out.value), "valid-despite-error",
                     "%s as %s declared valid although %r failed" % (tag, form, out.ctx.fired[:2]))
            elif care and bad:
                need(not (out.ok and out.value), "accepted-damaged", "%s: %s" % (tag, bad[:2]))
