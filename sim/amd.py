"""generated amendments and conversions, and the reference model of the new head bag"""
import os
from . import bags, gen, agg
from .gen import ch

MORSEL = "complies with the Multibag BagIt profile"
URIS = ["http://ex.org/a b", "ark:/88434/x", "doi:10.1/\u00e9", "https://h.ex/b.zip?x=1#f"]
COMMS = ["a comment", "see #4", "\u00fcber: x", "v1.0 -- final"]
INFOS = [["abc"], ["x=1", "two words"], ["\u00e9"], []]


def details(rng):
    d = {}
    if rng.random() < 0.3:
        d["pid"] = ch(rng, URIS)
    if rng.random() < 0.3:
        d["comment"] = ch(rng, COMMS)
    if rng.random() < 0.25:
        d["info"] = list(ch(rng, INFOS))
    return d


def lu_lists(rng, spec):
    """include/exclude lists for a bag"""
    d = {}
    files = sorted(spec["files"])
    cand = set(files)
    for p in files:
        q = os.path.dirname(p)
        while q:
            cand.add(q)
            q = os.path.dirname(q)
    cand = sorted(cand)
    if cand and rng.random() < 0.3:
        inc = rng.sample(cand, min(len(cand), rng.randrange(1, 4)))
        if rng.random() < 0.5:
            inc.insert(0, "data")
        if rng.random() < 0.1:
            inc.append("data/no such")
        d["include"] = inc
    if cand and rng.random() < 0.35:
        ex = rng.sample(cand, min(len(cand), rng.randrange(1, 3)))
        fileset = set(d.get("include", [])) & set(files)
        d["exclude"] = [e for e in ex if e not in fileset]
        if rng.random() < 0.2:
            d["exclude"].append("data/tri")
    return d


def generate(rng, nadd=3, lists=True, plain=True, amendee_forms=True, npool=7, versions=True):
    """an amendment of an aggregation (or of a plain bag)"""
    pool = sorted(gen.payload_paths(rng, rng.randrange(1, npool + 1)).files)
    c = {}
    isplain = plain and rng.random() < 0.35
    if isplain:
        s = sub_bag(rng, "plain bag" if rng.random() < .5 else "p1", pool)
        c["plain"] = s
    else:
        a = agg.generate(rng, nmem=3, npool=npool, fetch=False, dirdel=False)
        if rng.random() < 0.5:         # overlap with the amendments' paths
            own = sorted(p for m in a["members"] for p in m["files"] if p.startswith("data/"))
            own = [p for p in dict.fromkeys(own)]
            pool = [p for p in pool if not any(agg.conflict(p, q) for q in own)] + own
            pool = pool[:npool + 4]
        else:
            own = [p for m in a["members"] for p in m["files"]]
            pool = [p for p in pool if not any(p != q and agg.conflict(p, q) for q in own)]
        c["agg"] = a
        c["mdetails"] = [details(rng) for _ in a["members"]]
        if versions and rng.random() < 0.15:
            c["profile"] = ch(rng, ["0.2", "0.3"])
            if c["profile"] == "0.2":
                for i, m in enumerate(a["members"]):
                    m["name"] = "m_%d" % i
                    m["files"] = {p: v for p, v in m["files"].items() if " " not in p}
                    m["dirs"] = []
                    m.pop("mtimes", None)
                a.pop("old", None)
                c["mdetails"] = [{k: v for k, v in d.items() if k == "pid" and " " not in v}
                                 for d in c["mdetails"]]
                a.pop("deleted", None)
                a["td"] = "multibag"
        if rng.random() < 0.5:
            c["deprecates"] = [ch(rng, ["0.1", "0.5,old head"]) for _ in
                               range(rng.randrange(0, 3))]
    c["adds"] = []
    for i in range(rng.randrange(0, nadd + 1)):
        s = sub_bag(rng, ["upd%d" % i, "up date %d" % i][rng.randrange(2)], pool)
        d = details(rng)
        if lists:
            d.update(lu_lists(rng, s))
        c["adds"].append({"bag": s, "o": d, "form": ch(rng, ["dir", "dir", "zip", "tar", "tgz"])})
    nh = sub_bag(rng, ["newhead", "new head", "nh\u00e9.v2"][rng.randrange(3)], pool)
    if rng.random() < 0.3:        # names that continue one another
        have = [m["name"] for m in c["agg"]["members"]] if "agg" in c else [c["plain"]["name"]]
        for b in [x["bag"] for x in c["adds"]] + [nh]:
            n = ch(rng, have) + ch(rng, [".1", "_1", ".x", "0", " b", ".1.2"])
            if n not in have:
                b["name"] = n
            have.append(b["name"])
    if rng.random() < 0.4:
        dels = list(c.get("agg", {}).get("deleted", [])) + pool + ["data/other"]
        nh["raw"] = {"multibag/deleted.txt":
                     "".join(p + "\n" for p in rng.sample(dels, min(len(dels), rng.randrange(1, 4)))
                             if p not in nh["files"])}
    c["newhead"] = nh
    o = details(rng)
    if lists:
        o.update(lu_lists(rng, nh))
    c["opts"] = o
    c["version"] = ch(rng, ["2", "2.0.1", "1.1", "v3 beta"])
    c["amendee_form"] = ch(rng, ["dir", "dir", "zip", "tgz"]) if amendee_forms else "dir"
    c["by"] = ch(rng, ["path", "path", "rw", "ro"])
    c["addobj"] = c["by"] != "path" and rng.random() < 0.5
    return c


def sub_bag(rng, name, pool):
    files = {p: gen.cont(rng, False) for p in pool if rng.random() < 0.5}
    if rng.random() < 0.4:
        files["metadata/" + ch(rng, gen.PLAIN)] = gen.text_cont(rng)
    algs = list(ch(rng, gen.ALGSETS))
    return {"name": name, "files": files, "dirs": [], "info": gen.info(rng) if
            rng.random() < 0.9 else None,
            "algs": algs, "tagalgs": algs if rng.random() < 0.6 else [], "version": "0.97",
            "oxum": rng.random() < 0.8, "sep": "  "}


# ------------------------------------------------------------------ writing
def amendee_specs(c):
    """specs of the bags of the amended aggregation, head last"""
    if "plain" in c:
        return [dict(c["plain"])]
    a = c["agg"]
    sp = agg.specs(a)
    head = sp[-1]
    td = a.get("td", "multibag")
    v = c.get("profile", "0.4")
    info = [x for x in head["info"] if x[0] not in ("Multibag-Head-Deprecates", "Multibag-Version")]
    info.append(["Multibag-Version", v])
    for d in c.get("deprecates", []):
        info.append(["Multibag-Head-Deprecates", d])
    head["info"] = info
    lines = []
    det = c.get("mdetails") or []
    for i, m in enumerate(a["members"]):
        d = det[i] if i < len(det) else {}
        lines.append(fmt_member(m["name"], d))
    raw = head["raw"]
    if v == "0.2":
        raw.pop(td + "/member-bags.tsv")
        raw[td + "/group-members.txt"] = "".join(
            m["name"] + ("  " + (det[i].get("pid") or "") if i < len(det) and det[i].get("pid")
                         else "") + "\n" for i, m in enumerate(a["members"]))
        raw[td + "/group-directory.txt"] = raw.pop(td + "/file-lookup.tsv").replace("\t", "   ")
    else:
        raw[td + "/member-bags.tsv"] = "".join(lines)
    return sp


def fmt_member(name, d):
    out = name
    if d.get("pid") or d.get("info"):
        out += "\t" + (d.get("pid") or "")
    if d.get("info"):
        out += "\t" + "\t".join(d["info"])
    if d.get("comment"):
        out += "\t# " + d["comment"]
    return out + "\n"


def write(c, w, store="store", order=None):
    """writes all bags; returns dict with paths: amendee, newhead, adds"""
    d = w.dir(store)
    sp = amendee_specs(c)
    paths = [bags.write_bag(s, d) for s in sp]
    am = bags.pack(paths[-1], c.get("amendee_form", "dir"), order=order)
    adds = []
    for x in c.get("adds", []):
        p = bags.write_bag(x["bag"], d)
        adds.append(bags.pack(p, x.get("form", "dir"), order=order))
    nh = bags.write_bag(c["newhead"], d)
    return {"amendee": am, "members": paths[:-1], "adds": adds, "newhead": nh, "store": d}


def perform(c, p, sut):
    """the amendment itself, through the package"""
    am = p["amendee"]
    by = c.get("by", "path")
    if by == "rw" and os.path.isdir(am):
        am = sut.mbagit.Bag(am)
    elif by in ("ro", "rw"):
        am = sut.mbagit.open_bag(am)
    before = None
    if by != "path":
        before = {k: list(v) if isinstance(v, list) else v for k, v in am.info.items()}
    adds = [dict(x.get("o", {}), path=q) for x, q in zip(c.get("adds", []), p["adds"])]
    if by != "path" and c.get("addobj"):
        for x in adds:                   # opened by the caller
            if by == "rw" and os.path.isdir(x["path"]):
                x["path"] = sut.mbagit.Bag(x["path"])
            else:
                x["path"] = sut.mbagit.open_bag(x["path"])
    sut.do_amend(am, p["newhead"], c.get("version", "2"), adds, c.get("opts"))
    if before is not None:
        after = {k: list(v) if isinstance(v, list) else v for k, v in am.info.items()}
        return (before, after)
    return None


# ------------------------------------------------------------------ model
def selected(spec, o):
    """files of a bag that its include/exclude lists put in the lookup"""
    inc = o.get("include")
    if inc is None:
        inc = ["data"]
    ex = o.get("exclude") or []
    files = list(spec["files"]) + list(spec.get("raw", {}))
    out = []
    for i in inc:
        if i in ex:
            continue
        if i in files:
            out.append(i)
        else:
            for f in files:
                if f.startswith(i + "/") and not any(f == e or f.startswith(e + "/") for e in ex):
                    out.append(f)
    return out


def expected(c):
    """the new head's tables"""
    mem, lu, dele = [], {}, set()
    if "plain" in c:
        s = c["plain"]
        mem.append((s["name"], None, [], None))
        for p in s["files"]:
            if p.startswith("data/"):
                lu[p] = s["name"]
        dep = ["1"]
    else:
        a = c["agg"]
        det = c.get("mdetails") or []
        for i, m in enumerate(a["members"]):
            d = det[i] if i < len(det) else {}
            mem.append((m["name"], d.get("pid"), d.get("info") or [], d.get("comment")))
            for p in m["files"]:
                if p.startswith("data/"):
                    lu[p] = m["name"]
        dep = list(c.get("deprecates", [])) + [a.get("headversion", "1")]
        dele = set(a.get("deleted") or [])
    for x in c.get("adds", []):
        o = x.get("o", {})
        mem.append((x["bag"]["name"], o.get("pid"), o.get("info") or [], o.get("comment")))
        for p in selected(x["bag"], o):
            lu[p] = x["bag"]["name"]
        dele -= set(x["bag"]["files"])
    nh, o = c["newhead"], c.get("opts") or {}
    mem.append((nh["name"], o.get("pid"), o.get("info") or [], o.get("comment")))
    for p in selected(nh, o):
        lu[p] = nh["name"]
    dele -= set(nh["files"])
    for t in nh.get("raw", {}).values():
        dele |= set(l for l in t.split("\n") if l)
    return {"members": mem, "lookup": lu, "deleted": dele, "deprecates": dep,
            "version": c.get("version", "2")}


def expected_convert(spec, version, pid):
    return {"members": [(spec["name"], pid, [], None)],
            "lookup": {p: spec["name"] for p in spec["files"] if p.startswith("data/")},
            "deleted": set(), "deprecates": [], "version": version}


def expected_maker(spec, o):
    mem, lu, ver = [], {}, None
    for st in o["steps"]:
        do = st["do"]
        ver = ver or "1"
        if do == "member":
            mem = [(spec["name"], st.get("pid"), st.get("info") or [], st.get("comment"))]
        elif do == "lookup":
            if st.get("trunc"):
                lu = {}
            for p in selected(spec, st):
                lu.setdefault(p, spec["name"])
        elif do == "info":
            ver = st.get("version") or "1"
        elif do == "convert":
            mem = [(spec["name"], st.get("pid"), [], None)]
            lu = {p: spec["name"] for p in selected(spec, {})}
            ver = st["version"]
    return {"members": mem, "lookup": lu, "deleted": set(), "deprecates": [], "version": ver}


def check_head(tree, spec, exp, need, what="head", fullinfo=True):
    """tree of the new head bag vs the model; spec: the bag it was made from"""
    src = bags.build(spec)
    bad = bags.verify(tree)
    need(not bad, what + "-invalid", "; ".join(bad[:4]))
    from .world import diff_trees
    d = diff_trees(bags.payload(src), bags.payload(tree))
    need(not d, what + "-payload", "; ".join(d))
    td = bags.tagdir_of(tree)
    ex = {p: v for p, v in bags.extras(tree).items() if not p.startswith(td + "/")}
    d = diff_trees({p: v for p, v in bags.extras(src).items() if not p.startswith(td + "/")}, ex)
    need(not d, what + "-tagfiles", "; ".join(d))
    need(bags.entries(tree) == bags.entries(src), what + "-checksums",
         "payload manifests changed")
    got = bags.members(tree)
    need(got == [tuple(m) for m in exp["members"]], what + "-members", "member list %r, expected %r"
         % (got, exp["members"]))
    lu = bags.lookup(tree)
    need(len(dict(lu)) == len(lu), what + "-lookup", "path listed twice in the lookup")
    need(dict(lu) == exp["lookup"], what + "-lookup", "lookup: missing or wrong %r, unexpected %r" %
         (sorted(set(exp["lookup"].items()) - set(lu))[:4],
          sorted(set(lu) - set(exp["lookup"].items()))[:4]))
    dl = bags.deleted(tree)
    need(dl == exp["deleted"], what + "-deleted", "deletions %r, expected %r" %
         (sorted(dl), sorted(exp["deleted"])))
    info = bags.info_of(tree)
    need(bags.get(info, "Multibag-Head-Version") == [exp["version"]], what + "-version",
         "Multibag-Head-Version %r" % bags.get(info, "Multibag-Head-Version"))
    need(bags.get(info, "Multibag-Head-Deprecates") == exp["deprecates"], what + "-deprecates",
         "Multibag-Head-Deprecates %r, expected %r" %
         (bags.get(info, "Multibag-Head-Deprecates"), exp["deprecates"]))
    need(bags.get(info, "Multibag-Version") == ["0.4"], what + "-profile", "Multibag-Version %r" %
         bags.get(info, "Multibag-Version"))
    if not fullinfo:
        return
    a, b = {}, {}
    for k, v in bags.info_of(src):
        if k not in ("Bag-Size", "Bag-Count") and not k.startswith("Multibag-"):
            a.setdefault(k, []).append(v)
    for k, v in info:
        if k == "Internal-Sender-Description" and MORSEL in v:
            continue
        if k not in ("Bag-Size", "Bag-Count") and not k.startswith("Multibag-"):
            b.setdefault(k, []).append(v)
    need(a == b, what + "-baginfo", "other bag-info metadata %r, expected %r" % (b, a))
