"""C15: a bag reads the same whatever form it is stored in"""
import re
from .. import gen, bags, agg, sut
from ..common import *

FORMS = ["ro", "ro", "rw", "rw", "rwbag", "zip", "zip", "tar", "tgz", "tar.gz", "tar.bz2"]
TEXTS = ["", "plain\n", "no end", "\ufeffbom\nx", "a\r\nb\r\n", "l1\x0bl2\x85l3\n\u2028x", "\n\n x \n",
         "\u00e9\u65e5\U0001f600\n", "a\rb"]


def damage(rng, spec):
    files = sorted(spec["files"])
    pl = [p for p in files if p.startswith("data/")]
    r = rng.random()
    if r < 0.5 or not pl:
        return None
    if r < 0.65:
        return {"do": "flip", "path": gen.ch(rng, pl)}
    if r < 0.75:
        return {"do": "remove", "path": gen.ch(rng, files)}
    if r < 0.85:
        return {"do": "add", "path": "data/extra file"}
    if r < 0.93:
        return {"do": "grow", "path": gen.ch(rng, files)}
    return {"do": "remove", "path": gen.ch(rng, ["manifest-%s.txt" % spec["algs"][0], "bag-info.txt"])}


def apply_damage(tree, d):
    if not d:
        return tree
    t = dict(tree)
    p = d["path"]
    if d["do"] == "flip" and t.get(p):
        t[p] = t[p][:-1] + bytes([t[p][-1] ^ 1])
    elif d["do"] == "remove":
        t.pop(p, None)
        q = os.path.dirname(p)
        while q and q != "data" and not any(x.startswith(q + "/") for x in t):
            t.pop(q, None)      # no empty directories that archives would not show
            q = os.path.dirname(q)
    elif d["do"] == "add" and p not in t:
        t[p] = b"new"
    elif d["do"] == "grow" and t.get(p) is not None:
        t[p] += b"x"
    return t


def generate(rng, tier):
    if rng.random() < 0.25:
        spec = agg.specs(agg.generate(rng, nmem=3, npool=7))[-1]
    else:
        spec = gen.bag(rng, nmax=9, big=rng.random() < .2)
        if rng.random() < 0.2:
            spec["fetch"] = [["http://x/%d" % i, gen.ch(rng, ["-", "12"]), "data/rem %d" % i]
                             for i in range(rng.randrange(1, 3))]
            spec["extra_entries"] = {a: {f[2]: bags.digest(a, b"?") for f in spec["fetch"]}
                                     for a in spec["algs"]}
    ps = gen.Paths()
    for p in spec["files"]:
        ps.add(p, spec["files"][p])
    texts = []
    for i in range(rng.randrange(0, 4)):
        p = gen.ch(rng, ["about %d.txt", "data/txt %d", "notes/n%d", "data/deep/er/t%d"]) % i
        if ps.add(p, ["t", gen.ch(rng, TEXTS)]):
            texts.append(p)
    spec["files"] = ps.files
    spec["dirs"] = [d for d in spec["dirs"] if not any(agg.conflict(d, t) for t in texts)]
    if rng.random() < 0.1 and spec["info"] is not None:
        spec["info"].append(["Payload-Oxum", gen.ch(rng, ["1.1", "0.0", "2.7"])])
    gen.encoding(rng, spec)
    fs = rng.sample(FORMS, 4)
    if rng.random() < 0.3 and not set(spec["name"]) & set("?!%#:@"):
        fs[rng.randrange(4)] = "url"
    return {"bag": spec, "texts": texts, "damage": damage(rng, spec),
            "forms": [{"form": f, "order": rng.randrange(1 << 30), "slash": rng.random() < .2,
                       "noent": rng.random() < .3, "env": gen.env(rng)} for f in fs]}


def profile(path, how, tree, texts, dest, slash):
    """everything the reading API says"""
    if slash and os.path.isdir(path):
        path += "/"
    if how == "rw":
        mk = lambda: sut.mext.ExtendedReadWritableBag(path)
    elif how == "rwbag":
        mk = lambda: sut.mext.as_extended(sut.mbagit.Bag(path))
    else:
        mk = lambda: sut.mext.as_extended(sut.mbagit.open_bag(path))
    E = sut.lib_bagit.BagError
    try:
        b = mk()
    except E as ex:
        return {"open": type(ex).__name__}

    def tr(f):
        try:
            return f()
        except E as ex:
            return "BagError"

    def fails(f):
        try:
            f()
        except Exception:
            return True
        return False
    files = sorted(p for p in tree if tree[p] is not None)
    dirs = sorted(p for p in tree if tree[p] is None)
    asked = files + dirs + ["nope", "data/nope", "data/no/pe", "dat", "multibag/none",
                            "..", "../none", "../" + b.name + "x", "../" + b.name + "x/f.txt",
                            "data/../../" + b.name + "x/f.txt", "../" + b.name + "x/none"]
    o = {"open": "ok", "name": b.name, "version": b.version, "encoding": b.encoding,
         "info": {k: v for k, v in b.info.items()}, "tags": dict(b.tags),
         "infoorder": list(b.info),
         "algs": sorted(set(b.algorithms)),
         "entries": {p: dict(e) for p, e in b.entries.items()},
         "payload_entries": {p: dict(e) for p, e in b.payload_entries().items()},
         "tagfile_entries": {p: dict(e) for p, e in b.tagfile_entries().items()},
         "fetch": tr(lambda: [list(x) for x in b.fetch_entries()]),
         "tofetch": tr(lambda: sorted(b.files_to_be_fetched())),
         "payload": sorted(b.payload_files()),
         "missing": sorted(b.missing_optional_tagfiles()),
         "manifests": sorted(os.path.basename(m) for m in b.manifest_files()),
         "tagmanifests": sorted(os.path.basename(m) for m in b.tagmanifest_files()),
         "has_oxum": b.has_oxum(),
         "compare": tr(lambda: [sorted(x) for x in b.compare_manifests_with_fs()]),
         "walk": sorted([d, sorted(s), sorted(f)] for d, s, f in b.walk()),
         "subwalks": {d: sorted([x, sorted(s), sorted(f)] for x, s, f in b.walk(d))
                      for d in dirs},
         "nowalk": fails(lambda: list(b.walk("nope"))) and
         fails(lambda: list(b.walk("../" + b.name + "x"))),
         "exists": [p for p in asked if b.exists(p)],
         "isfile": [p for p in asked if b.isfile(p)],
         "isdir": [p for p in asked if b.isdir(p)],
         "size": {p: b.sizeof(p) for p in files},
         "nosize": fails(lambda: b.sizeof("nope")) and
         fails(lambda: b.sizeof("../" + b.name + "x/f.txt")),
         "nonstandard": sorted(b.nonstandard()),
         "head": b.is_head_multibag(), "ishead": sut.mmb.is_headbag(path),
         "readonly": b.is_readonly}
    o["text"] = {}
    o["lines"] = {}
    for p in texts:
        with b.open_text_file(p) as fd:
            o["text"][p] = fd.read()
        with b.open_text_file(p) as fd:
            o["lines"][p] = list(fd)
    os.makedirs(dest)
    for p in files + dirs:
        b.replicate(p, dest, sut.LOG if len(p) % 2 else None)
    o["norepl"] = fails(lambda: b.replicate("nope", dest)) and \
        fails(lambda: b.replicate("../" + b.name + "x/f.txt", dest))
    for k, kw in (("valid", {}), ("fast", {"fast": True}),
                  ("complete", {"completeness_only": True})):
        c = mk()
        o[k] = c.is_valid(**kw)
        o[k + "2"] = tr(lambda: mk().validate(**kw))
    if o["head"]:
        h = sut.mmb.as_headbag(mk())
        M = sut.mmb.MultibagError

        def th(f):
            try:
                return f()
            except M:
                return "missing"
        o["hv"] = (h.head_version, h.profile_version, h.multibag_tag_dir)
        o["members"] = th(lambda: [(m.name, m.uri, m.info, m.comment) for m in h.member_bags()])
        o["lookup"] = th(lambda: [list(x) for x in h.iter_file_lookup()])
        o["deleted"] = sorted(h.deleted_paths())
    return o


def expected(tree, name, texts):
    """what our own reader says about the parts it knows"""
    files = sorted(p for p in tree if tree[p] is not None)
    dirs = sorted(p for p in tree if tree[p] is None)
    walk = []
    for d in [""] + dirs:
        kids = [p for p in tree if os.path.dirname(p) == d]
        walk.append([d, sorted(os.path.basename(p) for p in kids if tree[p] is None),
                     sorted(os.path.basename(p) for p in kids if tree[p] is not None)])
    walk.sort()
    ent = {}
    for kind in ("manifest", "tagmanifest"):
        for alg, e in bags.entries(tree, kind).items():
            for p, h in e.items():
                ent.setdefault(p, {})[alg] = h
    info = {}
    for k, v in bags.info_of(tree):
        if k in info:
            info[k] = (info[k] if isinstance(info[k], list) else [info[k]]) + [v]
        else:
            info[k] = v
    return {"name": name, "payload": [p for p in files if p.startswith("data/")],
            "walk": walk, "exists": files + dirs, "isfile": files, "isdir": dirs,
            "size": {p: len(tree[p]) for p in files}, "entries": ent,
            "subwalks": {d: [x for x in walk if x[0] == d or x[0].startswith(d + "/")]
                         for d in dirs},
            "nonstandard": sorted([p for p in files if not bags.ROOT_SPECIAL.match(p)] +
                                  bags.empty_dirs(tree)),
            "valid": not bags.verify(tree), "head": bags.is_head(tree), "nowalk": True,
            "nosize": True, "norepl": True,
            "manifests": sorted(p for p in files if p.startswith("manifest-")
                                and p[9:-4] in bags.ALGS),
            "info": info}


def execute(case, w):
    spec = case["bag"]
    tree = apply_damage(bags.build(spec), case.get("damage"))
    texts = [p for p in case.get("texts", []) if p in tree]
    exp = expected(tree, spec["name"], texts)
    seen = []
    for i, f in enumerate(case["forms"]):
        d = w.dir("s%d" % i)
        root = os.path.join(d, spec["name"])
        bags.write_tree(tree, root)
        bags.write_tree({"f.txt": b"a neighbour"}, root + "x")
        path = root
        form = f["form"]
        if form == "url":
            path = "osfs://" + root
        elif form not in ("ro", "rw", "rwbag"):
            path = bags.pack(root, form, order=f.get("order"), direntries=not f.get("noent"))
        before = bags.snap(d)
        dest = w.path("rep%d" % i)
        out = run(w, profile, path, form, tree, texts, dest, f.get("slash"), env=f.get("env"))
        p = expect_ok(out, "read-" + ("packed" if path != root else form))
        w.probe(form)
        if p["open"] == "ok":
            for k in sorted(exp):
                v = plain(k, p[k])
                need(v == exp[k], "wrong-" + k, "%s of the bag as %s: %s" %
                     (k, form, _d(exp[k], v)))
            for q in texts:
                t = tree[q].decode("utf-8-sig").replace("\r\n", "\n").replace("\r", "\n")
                need(p["text"][q].replace("\r\n", "\n").replace("\r", "\n") == t, "wrong-text",
                     "%s as %s: %r" % (q, form, p["text"][q]))
            rep = bags.read_tree(dest)
            dd = diff_trees(tree, rep)
            need(not dd, "wrong-replica", "replicated from %s: %s" % (form, "; ".join(dd)))
            need(p.pop("readonly") == (form not in ("rw", "rwbag")), "readonly", form)
            for k in ("valid", "fast", "complete"):
                need((p[k + "2"] is True) == p[k], "verdicts-disagree", "%s: is_valid %r, "
                     "validate %r" % (k, p[k], p[k + "2"]))
        need(bags.snap(d) == before, "changed", "reading changed the bag")
        seen.append((form, p))
    for form, p in seen[1:]:
        for k in sorted(set(p) | set(seen[0][1])):
            need(p.get(k) == seen[0][1].get(k), "forms-differ-" + k, "%s as %s and %s: %s" %
                 (k, seen[0][0], form, _d(seen[0][1].get(k), p.get(k))))
    w.probe("valid" if exp["valid"] else "damaged")


def plain(k, v):
    """without what the model does not keep: folding of metadata, case of checksums"""
    if k == "info":
        fold = lambda x: re.sub(r"\s+", " ", x)
        return {n: [fold(y) for y in x] if isinstance(x, list) else fold(x)
                for n, x in v.items()}
    if k == "entries":
        return {n: {a: h.lower() for a, h in x.items()} for n, x in v.items()}
    return v


def _d(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return "; ".join("%r: %r / %r" % (k, a.get(k, "-"), b.get(k, "-")) for k in
                         sorted(set(a) | set(b)) if a.get(k, "-") != b.get(k, "-"))[:400]
    if isinstance(a, list) and isinstance(b, list):
        return "first only %r, second only %r" % ([x for x in a if x not in b][:3],
                                                  [x for x in b if x not in a][:3])
    return "%r / %r" % (a, b)
