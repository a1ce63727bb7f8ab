"""
Generated aggregations, written with our own code (no package code involved), and the
reference model of what combining them must give (the profile's section "Combining
Multibags Into a Single Bag").
"""
import os, re, unicodedata
from . import bags, gen
from .gen import ch

MB_TAGS = ("Multibag-Version", "Multibag-Reference", "Multibag-Tag-Directory",
           "Multibag-Head-Version", "Multibag-Head-Deprecates")


def conflict(p, q):
    return p == q or p.startswith(q + "/") or q.startswith(p + "/")


def generate(rng, nmem=4, npool=9, fetch=True, deletes=True, oldheads=True, agginfo=None,
             mixalgs=True, big=False, tagdirs=True, dirdel=True, v02=False):
    """an aggregation: members in order, the last one being the head"""
    n = rng.randrange(1, nmem + 1)
    pool = gen.payload_paths(rng, rng.randrange(1, npool + 1))
    tagpool = gen.Paths()
    for _ in range(rng.randrange(0, 4)):
        p = ch(rng, gen.TAGROOT)
        if rng.random() < 0.5:
            p = ch(rng, gen.TAGDIRS) + "/" + ch(rng, gen.PLAIN if rng.random() < .7 else gen.ATOMS)
        if rng.random() < 0.25:
            p = gen.twin_tag(rng, sorted(pool.files)) or p
        tagpool.add(p, None)
    paths = sorted(pool.files)
    tpaths = sorted(tagpool.files)
    alg0 = list(ch(rng, gen.ALGSETS))
    mixed = mixalgs and rng.random() < 0.35
    names = gen.names(rng, n, lambda i: ch(rng, ["m%d", "agg.part%d", "bag %d", "b\u00e9_%d.mbag",
                                                 "x%d.head"]) % i)
    td = "multibag" if (not tagdirs or rng.random() < 0.75) else ch(rng, ["mbtags", "multibag2x", "tags/mb", "mb tags"])
    emptypool = []
    for _ in range(rng.randrange(0, 3)):
        d = ch(rng, ["data/" + ch(rng, gen.DIRS) + "/" + ch(rng, gen.DIRS), "data/empty", "etag",
                     "meta2/e"])
        if not any(conflict(d, p) for p in paths + tpaths) and d not in emptypool:
            emptypool.append(d)
    fpool = []
    if fetch and rng.random() < 0.3:
        for i in range(rng.randrange(1, 4)):
            p = "data/remote/" + ch(rng, gen.PLAIN) if rng.random() < .7 else \
                gen.data_path(rng, gen.PLAIN, 2)
            if not any(conflict(p, q) for q in paths + emptypool) and \
                    not any(conflict(p, q) for q in fpool):
                fpool.append(p)
    members = []
    for i in range(n):
        k = 0.25 + 0.6 * rng.random()
        own = [p for p in paths if rng.random() < k]
        tags = [p for p in tpaths if rng.random() < 0.5]
        algs = list(ch(rng, gen.ALGSETS)) if mixed else alg0
        files = {}
        for p in own:
            files[p] = gen.cont(rng, big)
            if members and rng.random() < 0.3:
                for m in members:
                    if p in m["files"]:
                        files[p] = m["files"][p]
        for p in tags:
            files[p] = gen.text_cont(rng)
        dirs = [d for d in emptypool if rng.random() < 0.5]
        dirs = [d for d in dirs if not any(conflict(d, p) for p in files)]
        m = {"name": names[i], "files": files, "dirs": dirs,
             "info": gen.info(rng, ids=False) + [["Multibag-Version", "0.4"]],
             "algs": algs, "tagalgs": algs if rng.random() < 0.6 else [],
             "version": "0.97", "oxum": rng.random() < 0.8, "sep": ch(rng, [" ", "  "])}
        fl = [p for p in fpool if rng.random() < 0.6]
        if fl:
            m["fetch"] = [["http://h%d.ex/%d" % (i, j), ch(rng, ["-", "12", "0"]), p]
                          for j, p in enumerate(fl)]
            m["extra_entries"] = {a: {p: bags.digest(a, (p + a).encode()) for p in fl}
                                  for a in algs}
        gen.style(rng, m)
        if i < n - 1 and not fl:
            gen.encoding(rng, m)
        if rng.random() < 0.4:
            m["mtimes"] = {p: 1e9 + rng.randrange(10 ** 8) for p in files}
            for p in sorted(files):
                if rng.random() < 0.3:
                    m["mtimes"][p] = ch(rng, [0, 1, 86399.5, 951782400.25, 1e9 + 0.75, 2 ** 31 + 7, 4e9 + 0.5])
        members.append(m)
    a = {"members": members, "td": td}
    cand = paths + tpaths + fpool + emptypool
    if dirdel:
        for p in list(cand):
            d = os.path.dirname(p)
            while d and d != "data":
                cand.append(d)
                d = os.path.dirname(d)
    cand = sorted(set(cand))
    if deletes and cand and rng.random() < 0.5:
        dl = [ch(rng, cand) for _ in range(rng.randrange(1, 4))]
        if rng.random() < 0.3:
            dl.append("data/never there")
        a["deleted"] = sorted(set(dl))
    if agginfo is None:
        agginfo = rng.random() < 0.75
    if agginfo:
        a["agginfo"] = gen.info(rng)
        if rng.random() < 0.3:
            a["agginfo"].append(["Payload-Oxum", "99.9"])
    if oldheads:
        a["old"] = [i for i in range(n - 1) if rng.random() < 0.25]
        a["oldagg"] = rng.random() < 0.5
    a["headversion"] = ch(rng, ["1", "2.0", "1.1.0"])
    if v02 and rng.random() < 0.12 and not any(re.search(r"\s", x) for x in names + paths):
        a["v02"] = True                 # tables as in an earlier version of the profile
        a.pop("deleted", None)
    return a


def unorm(rng, a):
    """decomposed file names on disk, as after a stay on another system, with the manifests of some
    members giving the composed ones"""
    def nfd(p):
        return unicodedata.normalize("NFD", p)
    if rng.random() > 0.08:
        return a
    for m in a["members"]:
        if m.get("enc") or any(len(set(map(nfd, m[k]))) != len(m[k]) for k in ("files", "dirs")) or \
                any(nfd(f[2]) != f[2] for f in m.get("fetch", [])):
            return a
    for m in a["members"]:
        m["files"] = {nfd(p): c for p, c in m["files"].items()}
        m["dirs"] = [nfd(p) for p in m["dirs"]]
        if "mtimes" in m:
            m["mtimes"] = {nfd(p): c for p, c in m["mtimes"].items()}
        if rng.random() < 0.6:
            m["mnorm"] = "NFC"
    if a.get("deleted"):
        a["deleted"] = [nfd(p) for p in a["deleted"]]
    return a


def specs(a):
    """complete bag specs of the members (head tags and files added)"""
    out = []
    td = a.get("td", "multibag")
    ms = a["members"]
    for i, m in enumerate(ms):
        s = dict(m)
        s["raw"] = dict(s.get("raw", {}))
        s["info"] = [list(x) for x in (s.get("info") or [])]
        s.setdefault("files", {})
        s.setdefault("dirs", [])
        head = i == len(ms) - 1
        if head:
            s.pop("enc", None)
        if head or i in a.get("old", []):
            lu = {}
            for x in ms[:i + 1]:
                for p in sorted(x.get("files", {})):
                    if p.startswith("data/"):
                        lu[p] = x["name"]
            s["raw"][td + "/member-bags.tsv"] = "".join(x["name"] + "\n" for x in ms[:i + 1])
            s["raw"][td + "/file-lookup.tsv"] = "".join("%s\t%s\n" % e for e in lu.items())
            s["info"] += [["Multibag-Head-Version", a.get("headversion", "1") if head
                           else "0.%d" % i]]
            if td != "multibag" or head:
                s["info"].append(["Multibag-Tag-Directory", td])
            if head:
                s["info"].append(["Multibag-Reference", "https://github.com/x"])
                s["info"].append(["Multibag-Head-Deprecates", "0.0"])
                if a.get("deleted"):
                    s["raw"][td + "/deleted.txt"] = "".join(p + "\n" for p in a["deleted"])
                if a.get("agginfo") is not None:
                    s["raw"][td + "/aggregation-info.txt"] = \
                        bags.info_bytes(a["agginfo"]).decode("utf-8")
            else:
                # an older head: its own tables must play no part
                dl = sorted(ms[0].get("files", {}))[:2]
                s["raw"][td + "/deleted.txt"] = "".join(p + "\n" for p in dl)
                if a.get("oldagg"):
                    s["raw"][td + "/aggregation-info.txt"] = "Contact-Name: Old Head\n"
        if a.get("v02"):
            s["info"] = [[k, "0.2" if k == "Multibag-Version" else v] for k, v in s["info"]]
            for new, old in (("member-bags.tsv", "group-members.txt"),
                             ("file-lookup.tsv", "group-directory.txt")):
                if td + "/" + new in s["raw"]:
                    s["raw"][td + "/" + old] = s["raw"].pop(td + "/" + new).replace("\t", "   ")
        out.append(s)
    return out


def is_deleted(p, deleted):
    return any(p == d or p.startswith(d + "/") for d in deleted)


def combine(a, upto=None):
    """the reference model: what restoring must give"""
    td = a.get("td", "multibag")
    dl = a.get("deleted", [])
    files, dirs, origin, entries, fetch = {}, set(), {}, {}, {}
    for m, s in zip(a["members"], specs(a)):
        t = bags.build(s)
        for p, v in t.items():
            if v is None:
                dirs.add(p)
            elif not bags.ROOT_SPECIAL.match(p):
                files[p] = v
                origin[p] = m["name"]
        ent = {}
        for alg, e in bags.entries(t).items():
            for p, h in e.items():
                ent.setdefault(p, {})[alg] = h
        entries.update(ent)
        for u, sz, p in m.get("fetch", []):
            fetch[p] = (u, sz)
    tds = {td, "multibag"}

    def gone(p):
        return is_deleted(p, dl) or is_deleted(p, tds)
    out = {"files": {p: v for p, v in files.items() if not gone(p)},
           "dirs": set(d for d in dirs if not gone(d)),
           "origin": origin,
           "entries": {p: e for p, e in entries.items() if not gone(p)},
           "fetch": {p: f for p, f in fetch.items() if not is_deleted(p, dl)}}
    if a.get("agginfo") is not None:
        info = {}
        for k, v in a["agginfo"]:
            if k not in MB_TAGS and k not in ("Payload-Oxum", "Bag-Size"):
                info.setdefault(k, []).append(re.sub(r"\s+", " ", v))
        out["info"] = info
    return out


def write(a, parent, forms=None, order=None, direntries=True, headform="dir"):
    """write (and pack) the members under parent; returns their paths"""
    out = []
    for i, s in enumerate(specs(a)):
        p = bags.write_bag(s, parent)
        f = headform if i == len(a["members"]) - 1 else (forms[i % len(forms)] if forms else "dir")
        out.append(bags.pack(p, f, order=order, direntries=direntries))
    return out


def expected_valid(model):
    """True if every listed payload file is present"""
    return all(p in model["files"] for p in model["entries"]) and \
        all(p in model["entries"] for p in model["files"] if p.startswith("data/"))


def check_combined(got, model, need, what="restored", dirs=True):
    """got: tree of the restored bag"""
    from .world import diff_trees
    mine = {p: v for p, v in got.items() if v is not None and not bags.ROOT_SPECIAL.match(p)}
    d = diff_trees(model["files"], mine)
    need(not d, what + "-files", "; ".join(d))
    if dirs:
        gd = set(p for p, v in got.items() if v is None)
        need(gd == model["dirs"], what + "-dirs", "directories: missing %r, unexpected %r" % (
            sorted(model["dirs"] - gd)[:4], sorted(gd - model["dirs"])[:4]))
    ent = {}
    for alg, e in bags.entries(got).items():
        for p, h in e.items():
            ent.setdefault(p, {})[alg] = h
    if ent != model["entries"]:
        bad = [(p, model["entries"].get(p), ent.get(p)) for p in
               sorted(set(ent) | set(model["entries"])) if ent.get(p) != model["entries"].get(p)]
        need(False, what + "-manifest", "payload manifests (path, expected, got): %r" % bad[:3])
    f = {}
    if got.get("fetch.txt") is not None:
        for l in bags.lines(got["fetch.txt"], "fetch.txt"):
            parts = l.strip().split(None, 2)
            need(len(parts) == 3, what + "-fetch", "bad line %r in fetch.txt" % l)
            need(parts[2] not in f, what + "-fetch", "%s twice in fetch.txt" % parts[2])
            f[parts[2]] = (parts[0], parts[1])
    need(f == model["fetch"], what + "-fetch", "fetch.txt: %r, expected %r" % (f, model["fetch"]))
    if "info" in model:
        info = {}
        for k, v in bags.info_of(got):
            if k not in ("Payload-Oxum", "Bag-Size"):
                info.setdefault(k, []).append(v)
        need(info == model["info"], what + "-baginfo", "bag-info %r, expected %r" %
             (info, model["info"]))
    else:
        for k, v in bags.info_of(got):
            need(k not in MB_TAGS, what + "-baginfo", "%s left in bag-info" % k)
    pl = bags.payload(got)
    ox = bags.get(bags.info_of(got), "Payload-Oxum")
    want = "%d.%d" % (sum(len(v) for v in pl.values()), len(pl))
    need(ox == [want], what + "-oxum", "Payload-Oxum %r, should be %s" % (ox, want))
    missing = [p for p in model["entries"] if p not in model["files"]]
    bad = bags.verify(got, allow_missing=missing)
    need(not bad, what + "-invalid", "; ".join(bad[:4]))
