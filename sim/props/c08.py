"""C08: restoring combines members as the profile's combination rules say"""
from .. import gen, bags, agg, sut
from ..common import *

FORMS = ["dir", "dir", "zip", "tar", "tgz", "tar.gz", "tar.bz2"]


def generate(rng, tier):
    many = rng.random() < 0.005
    a = agg.generate(rng, nmem=40 if many else 6 if tier == "thorough" else 5, npool=40 if many else 12,
                     v02=True)
    agg.unorm(rng, a)
    return {"agg": a, "forms": [gen.ch(rng, FORMS) for _ in a["members"]]
            if rng.random() < 0.6 else [], "order": rng.randrange(1 << 30),
            "direntries": rng.random() < 0.7,
            "headform": gen.ch(rng, ["dir", "dir", "zip", "tgz"]),
            "compdir": rng.random() < 0.25,
            "ways": rng.sample(["inplace", "headpath", "new", "emptydir", "slash", "object", "roobject",
                                "relative", "inobject", "destbag"], 2),
            "envs": [gen.env(rng), gen.env(rng)]}


def execute(case, w):
    a = case["agg"]
    model = agg.combine(a)
    trees = []
    for i, way in enumerate(case.get("ways", ["new"])):
        store = w.dir("store%d" % i)
        hf = case.get("headform", "dir")
        if way in ("inplace", "headpath", "inobject"):
            hf = "dir"
        paths = agg.write(a, store, case.get("forms"), case.get("order"),
                          case.get("direntries", True), hf)
        head = paths[-1]
        comp = None
        if case.get("compdir"):
            other = w.dir("heads%d" % i)
            nh = os.path.join(other, os.path.basename(head))
            os.rename(head, nh)
            head, comp = nh, store
        env = (case.get("envs") or [{}])[i % max(1, len(case.get("envs") or [{}]))]
        if way == "inplace":
            target = head
            out = restore(w, head, None, comp, env=env)
        elif way == "headpath":
            target = head
            out = restore(w, head, head + "/", comp, env=env)
        elif way == "inobject":
            target = head
            out = run(w, lambda: sut.do_restore(sut.mmb.open_headbag(head), None, comp), env=env)
        elif way in ("object", "roobject"):
            target = os.path.join(w.dir("res%d" % i), "restored")
            out = run(w, lambda: sut.do_restore(sut.mmb.open_headbag(head, way == "roobject"), target, comp),
                      env=env)
        elif way == "relative":
            target = os.path.join(w.dir("res%d" % i), "restored")
            cwd = w.dir("cwd%d" % i)

            def rel():
                os.chdir(cwd)
                r = os.path.relpath
                return sut.do_restore(r(head), r(target), comp and r(comp))
            out = run(w, rel, env=env)
        elif way == "destbag":
            # an existing bag without content to be filled out, given as a bag
            target = os.path.join(w.dir("res%d" % i), "restored")
            os.makedirs(os.path.join(target, "data"))
            for m in a["members"][-1:]:
                for f, c in bags.build(m).items():
                    if f == "bagit.txt":
                        with open(os.path.join(target, f), "wb") as fd:
                            fd.write(c)
            out = run(w, lambda: sut.do_restore(head, sut.mbagit.Bag(target), comp), env=env)
        else:
            target = os.path.join(w.dir("res%d" % i), "restored")
            if way == "emptydir":
                os.mkdir(target)
            h = head + "/" if way == "slash" and os.path.isdir(head) else head
            out = restore(w, h, target + ("/" if way == "slash" else ""), comp, env=env)
        expect_ok(out, "restore")
        if way != "relative":
            need(os.path.realpath(out.value.path) == os.path.realpath(target), "returned-bag",
                 "the bag returned is at %s" % sut.clean(out.value.path))
            disk = info_multi(bags.info_of(bags.read_tree(target)), ())
            ret = {k: v if isinstance(v, list) else [v] for k, v in out.value.info.items()}

            def plain(d):
                return {k: [" ".join(x.split()) for x in v] for k, v in d.items()}
            need(plain(ret) == plain(disk), "returned-bag", "the bag returned gives the metadata %r, on disk %r" % (ret, disk))
        got = bags.read_tree(target)
        agg.check_combined(got, model, need, "restored")
        times = {}
        for m in a["members"]:
            for p, t in m.get("mtimes", {}).items():
                times[(m["name"], p)] = t
        packed = {bags.bagname(p) for p in paths if os.path.isfile(p) or
                  os.path.isfile(os.path.join(w.path("heads%d" % i), os.path.basename(p)))}
        for p in model["files"]:
            t = times.get((model["origin"][p], p))
            if t is None or model["origin"][p] in packed:
                continue
            w.probe("mtime_checked")
            mt = os.stat(os.path.join(target, p)).st_mtime
            need(abs(mt - t) < 2, "restored-mtime", "modification time of %s: %r, in %s %r" %
                 (p, mt, model["origin"][p], t))
        if agg.expected_valid(model):
            v = package_valid(w, target)
            need(v.ok and v.value is True, "restored-rejected", v.desc())
        got.pop("bag-info.txt", None)
        trees.append((way, {p: v for p, v in got.items() if not p.startswith("tagmanifest-")},
                      info_multi(bags.info_of(bags.read_tree(target)), ("Bag-Size",))))
    for way, t, info in trees[1:]:
        d = diff_trees(trees[0][1], t)
        d = [x for x in d if "content differs manifest-" not in x and "differs fetch" not in x]
        need(not d, "ways-differ", "restored %s vs %s: %s" % (trees[0][0], way, "; ".join(d)))
        need(info == trees[0][2], "ways-differ", "bag-info when restored %s: %r, %s: %r" %
             (trees[0][0], trees[0][2], way, info))
    w.probe("members_%d" % len(a["members"]))
    if a.get("deleted"):
        w.probe("deletions")
    if model["fetch"]:
        w.probe("fetch")
    if a.get("old"):
        w.probe("old_heads")
