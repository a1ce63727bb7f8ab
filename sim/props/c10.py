"""C10: every published version of an aggregation stays restorable as it grows"""
from .. import gen, bags, agg, amd, sut, engine
from ..common import *

FORMS = ["zip", "tar", "tgz", "tar.bz2"]


def generate(rng, tier):
    pool = sorted(gen.payload_paths(rng, rng.randrange(3, 10)).files)
    kind = gen.ch(rng, ["split", "split", "plain", "convert", "agg"])
    c = {"kind": kind, "env": gen.env(rng), "order": rng.randrange(1 << 30)}
    if kind == "agg":
        a = agg.generate(rng, nmem=3, npool=6, fetch=False, dirdel=False, tagdirs=False)
        for i, m in enumerate(a["members"]):
            m["name"] = "v1 m%d" % i
        c["agg"] = a
        pool = [p for p in pool if not any(agg.conflict(p, q) for m in a["members"]
                                           for q in list(m["files"]) + m["dirs"])]
        pool += sorted(set(p for m in a["members"] for p in m["files"] if p.startswith("data/")))
    else:
        s = amd.sub_bag(rng, "first", pool)
        if rng.random() < 0.4:
            for d in ("data/an empty dir", "etag/x"):
                if not any(agg.conflict(d, p) for p in pool):
                    s["dirs"].append(d)
        c["bag"] = s
        if kind == "split":
            c["split"] = gen.split_opts(rng, s)
            c["split"].pop("nopass", None)
            if c["split"].get("by") == "packed":
                c["split"]["by"] = "path"
    steps = []
    present = set(pool)
    for i in range(rng.randrange(1, 6 if tier == "thorough" else 5)):
        st = {"repack": [[rng.random(), gen.ch(rng, FORMS + ["dir"])] for _ in
                         range(gen.ch(rng, [0, 1, 2, 4]))], "env": gen.env(rng)}
        if rng.random() < 0.12:
            st["do"] = "splithead"
            st["max"] = gen.ch(rng, [1, 30, 200, 5000])
        else:
            st["do"] = "amend"
            st["adds"] = []
            for j in range(gen.ch(rng, [0, 0, 1, 2])):
                st["adds"].append(amd.sub_bag(rng, "s%d add%d" % (i, j), pool))
            nh = amd.sub_bag(rng, ["s%d.head", "head s%d"][rng.randrange(2)] % i, pool)
            own = set(nh["files"])
            if rng.random() < 0.5:
                dl = [p for p in pool if p not in own]
                dl = rng.sample(dl, min(len(dl), rng.randrange(1, 4)))
                if dl:
                    nh["raw"] = {"multibag/deleted.txt": "".join(p + "\n" for p in sorted(dl))}
            st["newhead"] = nh
            st["addforms"] = [gen.ch(rng, ["dir", "dir"] + FORMS) for _ in st["adds"]]
            if rng.random() < 0.35:
                st["kills"] = [{"pos": rng.random(), "do": "crash"} for _ in
                               range(rng.randrange(1, 3))]
                if rng.random() < 0.5:
                    st["kills"][0]["k"] = gen.ch(rng, ["write", "open_w", "unlink", "rename"])
            if rng.random() < 0.2:
                st["error"] = {"pos": rng.random(), "do": gen.ch(rng, ["EIO", "ENOSPC"]),
                               "k": gen.ch(rng, ["read", "write", "open_w", "open_r"])}
        steps.append(st)
    c["steps"] = steps
    if rng.random() < 0.35:       # bag names that continue one another
        stem = gen.ch(rng, ["mds", "v1", "b.x"])
        n = [0]

        def rename(b):
            b["name"] = stem + "".join(".%d" % x for x in range(n[0]))
            n[0] += 1
        if "bag" in c:
            rename(c["bag"])
            c.get("split", {}).pop("names", None)
            c.get("split", {}).pop("base", None)
        allb = []
        for s in steps:
            allb += s.get("adds", []) + ([s["newhead"]] if "newhead" in s else [])
        for b in allb:
            rename(b)
        if rng.random() < 0.5:
            nn = [b["name"] for b in allb]
            rng.shuffle(nn)
            for b, x in zip(allb, nn):
                b["name"] = x
    return c


class Store(object):
    def __init__(self, w, order):
        self.w, self.dir, self.order = w, w.dir("store"), order
        self.at = {}             # bag name -> path
        self.trees = {}          # bag name -> tree as published

    def put(self, path, form="dir"):
        n = os.path.basename(path)
        self.trees[n] = bags.read_tree(path)
        self.at[n] = bags.pack(path, form, order=self.order)
        return n

    def repack(self, which, form):
        names = sorted(self.at)
        if not names:
            return
        n = names[min(len(names) - 1, int(which * len(names)))]
        p = self.at[n]
        if os.path.isfile(p):
            if form != "dir":
                return
            bags.unpack(p, self.dir)
            os.unlink(p)
            self.at[n] = os.path.join(self.dir, n)
        else:
            self.at[n] = bags.pack(p, form, order=self.order)


def combine(units, deleted):
    """overlay of bag trees in order, without the deleted files"""
    files, dirs, ent = {}, set(), {}
    for t in units:
        for p, v in t.items():
            if v is None:
                dirs.add(p)
            elif not bags.ROOT_SPECIAL.match(p):
                files[p] = v
        e2 = {}
        for alg, e in bags.entries(t).items():
            for p, h in e.items():
                e2.setdefault(p, {})[alg] = h
        ent.update(e2)

    def gone(p):
        return agg.is_deleted(p, deleted) or p.split("/")[0] == "multibag"
    return {"files": {p: v for p, v in files.items() if not gone(p)},
            "dirs": set(d for d in dirs if not gone(d)),
            "entries": {p: e for p, e in ent.items() if not gone(p)}, "fetch": {}}


def execute(case, w):
    st = Store(w, case.get("order"))
    env = case.get("env")
    versions = []                # (head name, units, deleted)
    kind = case["kind"]
    deleted = set()
    if kind == "agg":
        a = case["agg"]
        units = [bags.build(s) for s in agg.specs(a)]
        for p in agg.write(a, st.dir):
            head = st.put(p)
        deleted = set(a.get("deleted") or [])
        versions.append((head, list(units), set(deleted)))
    else:
        spec = case["bag"]
        units = [bags.build(spec)]
        if kind == "split":
            src = put_source(w, spec, case["split"])
            for p in expect_ok(split(w, src, st.dir, case["split"], env), "split"):
                head = st.put(p)
            versions.append((head, list(units), set()))
        else:
            root = bags.write_bag(spec, st.dir)
            if kind == "convert":
                expect_ok(run(w, sut.do_convert, root, "1", None, env=env), "convert")
            head = st.put(root)
            if kind == "convert":
                versions.append((head, list(units), set()))
    w.probe("v1_" + kind)
    for i, s in enumerate(case.get("steps", [])):
        for which, form in s.get("repack", []):
            st.repack(which, form)
        ops = (units, deleted)
        if s["do"] == "splithead":
            hp = st.at[head]
            if os.path.isfile(hp) or not versions:
                continue
            out = expect_ok(split(w, hp, st.dir, {"kind": "neigh", "max": s["max"],
                                                  "base": "hs%d" % i}, s.get("env")), "split")
            for p in out:
                head = st.put(p)
            w.probe("head_split")
        else:
            head = amend(w, st, head, s, i)
            new = [bags.build(x) for x in s.get("adds", [])] + [bags.build(s["newhead"])]
            for t in new:
                deleted = deleted - set(t)
            for t in s["newhead"].get("raw", {}).values():
                deleted = deleted | set(l for l in t.split("\n") if l)
            units = units + new
        versions.append((head, list(units), set(deleted)))
        check(w, st, versions[-1], s.get("env"), i, True)
    for i, v in enumerate(versions):
        if i + 1 < len(versions) or not case.get("steps"):
            check(w, st, v, env, 100 + i, False)
    w.probe("versions_%d" % len(versions))


def amend(w, st, head, s, i):
    adds = []
    for x, f in zip(s.get("adds", []), s.get("addforms") or ["dir"] * 9):
        n = st.put(bags.write_bag(x, st.dir), f)
        adds.append(st.at[n])
    newhead = bags.write_bag(s["newhead"], st.dir)
    ver = "%d" % (i + 2)

    def fn():
        sut.do_amend(st.at[head], newhead, ver, [{"path": a} for a in adds])
    plans = [[k] for k in s.get("kills", [])] + ([[s["error"]]] if s.get("error") else [])
    if plans:
        # a dry run elsewhere numbers the operations
        keep = bags.read_tree(newhead)
        base = run(w, fn, env=s.get("env"), record=True)
        expect_ok(base, "amend")
        bags.rmtree(newhead)
        bags.write_tree(keep, newhead)
        for k in plans:
            out = run(w, fn, env=s.get("env"), faults=engine.resolve(k, base.ctx.events))
            w.probe("killed" if out.kind == "crash" else "failed" if not out.ok else "survived")
            need(out.kind != "hang", "hang", out.desc())
        out = run(w, fn, env=s.get("env"))
        if not out.ok:
            # the remains cannot be used: start again from a fresh copy
            w.probe("restarted")
            bags.rmtree(newhead)
            bags.write_tree(keep, newhead)
            expect_ok(run(w, fn, env=s.get("env")), "amend")
    else:
        expect_ok(run(w, fn, env=s.get("env")), "amend")
    return st.put(newhead)


def check(w, st, version, env, i, newest):
    head, units, deleted = version
    dest = w.path("res%d" % i)
    out = restore(w, st.at[head], dest, env=env)
    expect_ok(out, "restore")
    model = combine(units, deleted)
    agg.check_combined(bags.read_tree(dest), model, need,
                       "newest" if newest else "older", dirs=not deleted)
    bags.rmtree(dest)
    w.probe("restored_newest" if newest else "restored_older")
    if newest:
        t = st.trees[head]
        for p, b in bags.lookup(t):
            if agg.is_deleted(p, deleted) or not p.startswith("data/"):
                continue
            need(b in st.trees and st.trees[b].get(p) == model["files"].get(p), "lookup-wrong",
                 "the newest head says %s is in %s" % (p, b))
        lu = dict(bags.lookup(t))
        for p in model["files"]:
            if p.startswith("data/"):
                need(p in lu, "lookup-missing", "%s is not in the newest head's lookup" % p)
