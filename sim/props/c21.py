"""C21: damage is never laundered: recorded checksums travel with the data"""
from .. import gen, bags, agg, amd, sut, engine, seam
from ..common import *
from .c10 import combine

FORMS = ["dir", "dir", "zip", "tar", "tgz", "tar.bz2"]
HARM = ["flip", "flip", "cut", "extend", "empty", "same", "lost", "lost", "swap", "unlisted"]


def harms(rng):
    return [{"what": gen.ch(rng, HARM), "which": rng.random(), "r": rng.random(),
             "seed": rng.randrange(1 << 20)} for _ in range(gen.ch(rng, [1, 1, 1, 2, 3]))]


def generate(rng, tier):
    do = gen.ch(rng, ["split", "split", "restore", "restore", "amend", "convert", "chain"])
    c = {"do": do, "env": gen.env(rng), "order": rng.randrange(1 << 30)}
    if do in ("split", "chain"):
        c["bag"] = gen.bag(rng, nmax=7, big=rng.random() < 0.1)
        c["bag"]["files"].setdefault("data/a", gen.cont(rng, False))
        if not gen_ok(c["bag"]):
            c["bag"]["files"] = {"data/a": ["t", "abc"], "data/b/c": ["r", 3, 50]}
            c["bag"]["dirs"] = []
        c["split"] = gen.split_opts(rng, c["bag"])
        c["harm"] = harms(rng)
        if do == "chain":
            c["forms"] = [gen.ch(rng, FORMS) for _ in range(4)]
            c["again"] = rng.random() < 0.4
            c["when"] = gen.ch(rng, ["before", "between"])
            c["piece"] = rng.random()
    elif do == "restore":
        c["agg"] = agg.generate(rng, nmem=4, npool=6, tagdirs=False, fetch=rng.random() < 0.3)
        c["forms"] = [gen.ch(rng, FORMS) for _ in range(4)]
        c["headform"] = gen.ch(rng, ["dir", "dir", "zip", "tgz"])
        c["way"] = gen.ch(rng, ["new", "new", "emptydir", "inplace"])
        c["harm"] = harms(rng)
        c["member"] = [rng.random() for _ in range(3)]
    else:
        pool = sorted(gen.payload_paths(rng, 5).files)
        c["newhead"] = amd.sub_bag(rng, "new head", pool)
        c["old"] = amd.sub_bag(rng, "old bag", pool)
        c["add"] = amd.sub_bag(rng, "added", pool)
        if do == "amend" and rng.random() < 0.3:
            own = set(c["newhead"]["files"])
            dl = [p for p in pool if p not in own]
            if dl:
                c["newhead"]["raw"] = {"multibag/deleted.txt": gen.ch(rng, dl) + "\n"}
        c["forms"] = [gen.ch(rng, FORMS) for _ in range(2)]
        c["which"] = gen.ch(rng, ["newhead", "newhead", "old", "add"]) if do == "amend" else "newhead"
        c["harm"] = harms(rng)
        c["faults"] = [{"pos": rng.random(), "do": gen.ch(rng, ["EIO", "crash"])}] \
            if rng.random() < 0.2 else []
    return c


def gen_ok(spec):
    ps = gen.Paths()
    for p in sorted(spec["files"]):
        if not ps.add(p, 1):
            return False
    return not any(agg.conflict(d, p) for d in spec["dirs"] for p in spec["files"]
                   if d == p or d.startswith(p + "/"))


def spoil(tree, hs, w=None):
    """apply the damage to a tree; returns the set of paths touched"""
    hit = set()
    for h in hs:
        pl = sorted(bags.payload(tree))
        what = h["what"]
        if what == "unlisted":
            p = "data/slipped in %d" % (h["seed"] % 3)
            if p not in tree:
                tree[p] = b"not recorded"
                tree["data"] = None
                hit.add(p)
        elif pl:
            p = pl[min(len(pl) - 1, int(h["which"] * len(pl)))]
            b = tree[p]
            if what == "lost":
                del tree[p]
            elif what == "swap":
                q = pl[h["seed"] % len(pl)]
                if tree[q] == b:
                    continue
                tree[p], tree[q] = tree[q], b
                hit.add(q)
            elif what == "extend" or not b:
                tree[p] = b + b"\0" * (1 + h["seed"] % 9)
            elif what == "cut":
                tree[p] = b[:int(len(b) * h["r"])]
            elif what == "empty":
                tree[p] = b""
            elif what == "same":
                n = bags.blob(h["seed"], len(b))
                tree[p] = n if n != b else bytes(x ^ 1 for x in b)
            else:
                k = int(h["r"] * len(b))
                tree[p] = b[:k] + bytes([b[k] ^ (1 << h["seed"] % 8)]) + b[k + 1:]
            hit.add(p)
        else:
            continue
        if w:
            w.probe("harm_" + what)
    return hit


def wrong(tree):
    """payload paths on which content and record disagree"""
    pl, out = bags.payload(tree), set()
    ent = bags.entries(tree)
    listed = set()
    for alg, e in ent.items():
        for p, h in e.items():
            listed.add(p)
            if p not in pl or bags.digest(alg, pl[p]) != h:
                out.add(p)
    return out | (set(pl) - listed)


def verdicts(w, path, tree, bad, what):
    """a bag with harm in it must be rejected, one without must be accepted"""
    own = wrong(tree)
    v = package_valid(w, path)
    need(v.kind in ("ok", "raise"), "hang", v.desc())
    ok = v.ok and v.value is True
    if bad:
        need(own, what + "-laundered", "%s: the checksums recorded for %r agree with the damaged content"
             % (os.path.basename(path), sorted(bad)[:4]))
        need(not ok, what + "-laundered", "%s, which received damaged %r, is accepted as valid" %
             (os.path.basename(path), sorted(bad)[:4]))
        w.probe("rejected")
    else:
        need(not own, what + "-spoilt", "%s should be unharmed but does not agree with its manifests: %r" %
             (os.path.basename(path), sorted(own)[:4]))
        need(ok, what + "-spoilt", "%s should be unharmed but is rejected: %s" %
             (os.path.basename(path), v.desc()))


def by_path(tree):
    out = {}
    for alg, e in bags.entries(tree).items():
        for p, h in e.items():
            out.setdefault(p, {})[alg] = h
    return out


def execute(case, w):
    {"split": do_split, "chain": do_split, "restore": do_restore, "amend": do_amend,
     "convert": do_amend}[case["do"]](case, w)


def do_split(case, w):
    spec, o, env = case["bag"], case["split"], case.get("env")
    tree = bags.build(spec)
    good = dict(tree)
    between = case["do"] == "chain" and case.get("when") == "between"
    hit = set() if between else spoil(tree, case.get("harm", []), w)
    src = os.path.join(w.dir("src"), spec["name"])
    bags.write_tree(tree, src)
    if o.get("by") == "packed" and o["kind"] == "plan":
        src = bags.pack(src, o.get("form", "zip"))
    outdir = w.dir("out")
    r = split(w, src, outdir, o, env)
    if not r.ok:
        need(r.kind == "raise" and hit, "split-failed", r.desc())
        w.probe("raised")
        return
    pieces = r.value
    trees = [bags.read_tree(p) for p in pieces]
    ent = by_path(good)
    seen, have = {}, set()
    lost = set(p for p in hit if p not in tree)
    for p, t in zip(pieces, trees):
        e = by_path(t)
        for f, h in e.items():
            need(h == ent.get(f), "split-checksums", "%s: recorded checksums of %s: %r, in the source %r" %
                 (os.path.basename(p), f, h, ent.get(f)))
            seen[f] = 1
        for f, v in bags.payload(t).items():
            have.add(f)
            if f not in hit:
                need(v == good.get(f), "split-content", "%s in %s differs" % (f, os.path.basename(p)))
        bad = set(f for f in hit if f in bags.payload(t) or (f in lost and f in e))
        verdicts(w, p, t, bad & wrong(tree), "split")
    miss = [f for f in ent if f not in seen]
    need(not miss, "split-forgotten", "recorded in the source but in no output: %r" % miss[:4])
    miss = [f for f in bags.payload(good) if f not in hit and f not in have]
    need(not miss, "split-lost", "undamaged files not carried: %r" % miss[:4])
    if case["do"] != "chain":
        return

    # a second generation: the head is split again, pieces are packed, then all is restored
    if between:
        i = min(len(pieces) - 1, int(case.get("piece", 0) * len(pieces)))
        h = spoil(trees[i], case.get("harm", []), w)
        bags.rmtree(pieces[i])
        bags.write_tree(trees[i], pieces[i])
        hit = h
    whole = {}
    for t in trees:
        whole.update(bags.payload(t))
    head = pieces[-1]
    members = pieces[:-1]
    if case.get("again"):
        r = split(w, head, outdir, {"kind": "neigh", "max": 60, "base": "second"}, env)
        if not r.ok:
            need(r.kind == "raise" and hit, "split-failed", r.desc())
            return
        members, head = pieces + r.value[:-1], r.value[-1]
        w.probe("split_twice")
    pack_pieces(members, case.get("forms"), order=case.get("order"))
    dest = w.path("restored")
    r = restore(w, head, dest, env=env)
    if not r.ok:
        need(r.kind == "raise" and hit, "restore-failed", r.desc())
        w.probe("raised")
        return
    got = bags.read_tree(dest)
    need(by_path(got) == ent, "chain-checksums", "the restored bag's manifests differ from the source's: %s"
         % [x for x in sorted(set(ent) | set(by_path(got))) if ent.get(x) != by_path(got).get(x)][:4])
    check_rest(got, good, hit, "chain")
    bad = set(f for f in hit if whole.get(f) != good.get(f))
    verdicts(w, dest, got, bad, "chain")


def check_rest(got, good, hit, what):
    a = {p: v for p, v in bags.payload(good).items() if p not in hit}
    b = {p: v for p, v in bags.payload(got).items() if p not in hit}
    d = diff_trees(a, b)
    need(not d, what + "-neighbours", "undamaged files: " + "; ".join(d))


def do_restore(case, w):
    a, env = case["agg"], case.get("env")
    specs = agg.specs(a)
    units = [bags.build(s) for s in specs]
    good = combine(units, set(a.get("deleted") or []))
    hit = set()
    for h, m in zip(case.get("harm", []), case.get("member") or [0.5] * 3):
        i = min(len(units) - 1, int(m * len(units)))
        hit |= spoil(units[i], [h], w)
    store = w.dir("store")
    way = case.get("way", "new")
    for i, (s, t) in enumerate(zip(specs, units)):
        p = os.path.join(store, s["name"])
        bags.write_tree(t, p)
        f = (case.get("forms") or ["dir"])[i % max(1, len(case.get("forms") or ["dir"]))]
        if i == len(units) - 1:
            f = "dir" if way == "inplace" else case.get("headform", "dir")
        head = bags.pack(p, f, order=case.get("order"))
    dest = head if way == "inplace" else w.path("restored")
    if way == "emptydir":
        os.mkdir(dest)
    r = restore(w, head, None if way == "inplace" else dest, env=env)
    if not r.ok:
        need(r.kind == "raise" and hit, "restore-failed", r.desc())
        w.probe("raised")
        return
    model = combine(units, set(a.get("deleted") or []))
    got = bags.read_tree(dest)
    e = by_path(got)
    need(e == model["entries"], "restore-checksums", "manifest entries (path, expected, got): %r" %
         [(p, model["entries"].get(p), e.get(p)) for p in sorted(set(e) | set(model["entries"]))
          if e.get(p) != model["entries"].get(p)][:3])
    x = {p: v for p, v in good["files"].items() if p.startswith("data/") and p not in hit}
    y = {p: v for p, v in bags.payload(got).items() if p not in hit}
    d = diff_trees(x, y)
    need(not d, "restore-neighbours", "undamaged files: " + "; ".join(d))
    # does the content that the rules select agree with what is recorded for it?
    bad = set()
    for p in set(model["entries"]) | set(q for q in model["files"] if q.startswith("data/")):
        v, en = model["files"].get(p), model["entries"].get(p)
        if v is None or not en or any(bags.digest(al, v) != hh for al, hh in en.items()):
            bad.add(p)
    if bad <= set(p for p in model["entries"] if p not in good["files"]) and bad:
        return                                      # only files that are yet to be fetched
    verdicts(w, dest, got, bad, "restore")


def do_amend(case, w):
    env = case.get("env")
    store = w.dir("store")
    specs = {"newhead": case["newhead"], "old": case["old"], "add": case["add"]}
    trees, paths, hit = {}, {}, set()
    for k in ("old", "add", "newhead"):
        trees[k] = bags.build(specs[k])
        if case.get("which", "newhead") == k:
            hit = spoil(trees[k], case.get("harm", []), w)
        paths[k] = os.path.join(store, specs[k]["name"])
        bags.write_tree(trees[k], paths[k])
    fs = case.get("forms") or ["dir"]
    paths["old"] = bags.pack(paths["old"], fs[0], order=case.get("order"))
    paths["add"] = bags.pack(paths["add"], fs[-1], order=case.get("order"))
    if case["do"] == "convert":
        def fn():
            sut.do_convert(paths["newhead"], "1", None)
    else:
        def fn():
            sut.do_amend(paths["old"], paths["newhead"], "2", [{"path": paths["add"]}])
    if case.get("faults"):
        # an attempt that fails or dies first
        base = run(w, fn, env=env, record=True)
        bags.rmtree(paths["newhead"])
        bags.write_tree(trees["newhead"], paths["newhead"])
        run(w, fn, env=env, faults=engine.resolve(case["faults"], base.ctx.events))
        t = bags.read_tree(paths["newhead"])
        need(by_path(t) == by_path(trees["newhead"]) or wrong(t), "amend-laundered",
             "after a failed attempt the manifests agree with the damaged payload")
    r = run(w, fn, env=env)
    if not r.ok:
        need(r.kind == "raise" and (hit or case.get("faults")), "amend-failed", r.desc())
        w.probe("raised")
        return
    t = bags.read_tree(paths["newhead"])
    need(by_path(t) == by_path(trees["newhead"]), "amend-checksums", "the payload manifests changed")
    d = diff_trees(bags.payload(trees["newhead"]), bags.payload(t))
    need(not d, "amend-payload", "; ".join(d))
    verdicts(w, paths["newhead"], t, wrong(trees["newhead"]), "amend")
    if case["do"] == "convert":
        return
    dest = w.path("restored")
    r = restore(w, paths["newhead"], dest, env=env)
    if not r.ok:
        need(r.kind == "raise" and hit, "restore-failed", r.desc())
        return
    dl = set(l for x in case["newhead"].get("raw", {}).values() for l in x.split("\n") if l)
    model = combine([trees["old"], trees["add"], trees["newhead"]], dl)
    got = bags.read_tree(dest)
    need(by_path(got) == model["entries"], "restore-checksums", "manifests of the restored bag: %r" %
         [(p, model["entries"].get(p), by_path(got).get(p)) for p in
          sorted(set(by_path(got)) | set(model["entries"]))
          if by_path(got).get(p) != model["entries"].get(p)][:3])
    fake = dict((p, v) for p, v in model["files"].items())
    bad = set(p for p in set(model["entries"]) | set(q for q in fake if q.startswith("data/"))
              if p not in fake or not model["entries"].get(p) or
              any(bags.digest(al, fake[p]) != hh for al, hh in model["entries"][p].items()))
    verdicts(w, dest, got, bad, "restore")
