"""C09: an amendment produces a correct new head bag"""
from .. import gen, bags, agg, amd, sut
from ..common import *


def maker(rng, spec):
    """steps of a conversion done by hand"""
    steps = []
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        if r < 0.4:
            steps.append(dict(amd.lu_lists(rng, spec), do="lookup", trunc=rng.random() < 0.3,
                              str=rng.random() < 0.3))
        elif r < 0.6:
            steps.append(dict(amd.details(rng), do="member"))
        elif r < 0.75:
            steps.append({"do": "info", "version": gen.ch(rng, [None, "3", "x 1"])})
        elif r < 0.88:
            steps.append({"do": "convert", "version": gen.ch(rng, ["1", "7.1"]),
                          "pid": gen.ch(rng, [None] + amd.URIS)})
        else:
            steps += [{"do": "info", "version": "5"}, {"do": "again"}]
    dos = [s["do"] for s in steps]
    if "convert" not in dos:
        if "member" not in dos:
            steps.append(dict(amd.details(rng), do="member"))
        if "lookup" not in dos:
            steps.append(dict(amd.lu_lists(rng, spec), do="lookup"))
    steps.append({"do": "info", "version": gen.ch(rng, ["2", "1.0.0", "v \u00e9"])})
    return {"steps": steps, "tagdir": gen.ch(rng, [None, None, "multibag", "mb tags", "mbx/mb"])}


def generate(rng, tier):
    if rng.random() < 0.06:
        spec = dict(gen.bag(rng, nmax=6, big=False), name="to convert")
        return {"convert": spec, "maker": maker(rng, spec), "env": gen.env(rng)}
    if rng.random() < 0.12:
        return {"convert": dict(gen.bag(rng, nmax=6, big=False), name="to convert"),
                "version": gen.ch(rng, ["1", "1.0", "b 2"]),
                "pid": gen.ch(rng, [None] + amd.URIS), "env": gen.env(rng)}
    c = amd.generate(rng)
    case = {"amd": c, "env": gen.env(rng), "order": rng.randrange(1 << 30), "chain": []}
    for i in range(rng.randrange(0, 3) if rng.random() < 0.4 else 0):
        pool = sorted(set(p for p in list(c["newhead"]["files"]) + list(c.get("plain", {})
                      .get("files", {})) if p.startswith("data/")))
        nh = amd.sub_bag(rng, "chain%d" % i, pool)
        if rng.random() < 0.4:
            dl = [p for p in pool if p not in nh["files"]]
            if dl:
                nh["raw"] = {"multibag/deleted.txt": gen.ch(rng, dl) + "\n"}
        case["chain"].append({"newhead": nh, "version": "c%d" % i,
                              "form": gen.ch(rng, ["dir", "zip", "tar"]), "env": gen.env(rng)})
    return case


def read_api(path):
    """what the package's own reading API says about the head at path"""
    hb = sut.mmb.open_headbag(path)
    return {"members": [(m.name, m.uri, list(m.info), m.comment) for m in hb.member_bags()],
            "deleted": sorted(hb.deleted_paths()),
            "lookup": dict(hb.iter_file_lookup()),
            "lookups": {p: hb.lookup_file(p) for p, b in hb.iter_file_lookup()},
            "version": hb.head_version, "profile": hb.profile_version,
            "names": list(hb.member_bag_names), "head": sut.mmb.is_headbag(path)}


def check_api(w, path, exp, env=None):
    r = expect_ok(run(w, read_api, path, env=env), "read")
    need(r["members"] == [tuple(m) for m in exp["members"]] and
         r["names"] == [m[0] for m in exp["members"]], "api-members", "members read back: %r" %
         r["members"])
    need(r["lookup"] == exp["lookup"] and r["lookups"] == exp["lookup"], "api-lookup",
         "lookup read back differs")
    need(r["deleted"] == sorted(exp["deleted"]), "api-deleted", "deletions read back %r" %
         r["deleted"])
    need(r["head"] and r["version"] == exp["version"], "api-version", "version %r" % r["version"])


def execute(case, w):
    env = case.get("env")
    if "convert" in case:
        spec = case["convert"]
        root = bags.write_bag(spec, w.dir("store"))
        if "maker" in case:
            o = case["maker"]
            if not any(x["do"] == "convert" for x in o["steps"]) and not (
                    any(x["do"] == "member" for x in o["steps"]) and
                    any(x["do"] == "lookup" for x in o["steps"])):
                return
            if not amd.expected_maker(spec, o)["lookup"]:
                # whether a lookup of nothing is written as an empty file is left open
                o = dict(o, steps=[{"do": "lookup", "trunc": True}] + o["steps"])
            expect_ok(run(w, sut.do_maker, root, o, env=env), "convert")
            exp = amd.expected_maker(spec, o)
            t = bags.read_tree(root)
            need(bags.tagdir_of(t) == (o.get("tagdir") or "multibag"), "head-tagdir",
                 "the tag directory is %r" % bags.tagdir_of(t))
            amd.check_head(t, spec, exp, need)
            check_api(w, root, exp, env)
            w.probe("convert_by_hand")
            return
        expect_ok(run(w, sut.do_convert, root, case.get("version", "1"), case.get("pid"),
                      env=env), "convert")
        exp = amd.expected_convert(spec, case.get("version", "1"), case.get("pid"))
        amd.check_head(bags.read_tree(root), spec, exp, need)
        check_api(w, root, exp, env)
        w.probe("convert")
        return
    c = case["amd"]
    p = amd.write(c, w, order=case.get("order"))
    r = expect_ok(run(w, amd.perform, c, p, sut, env=env), "amend")
    if r is not None:
        need(r[0] == r[1], "handle-modified", "the caller's handle on the amended bag changed: "
             "%r -> %r" % r)
    exp = amd.expected(c)
    tree = bags.read_tree(p["newhead"])
    amd.check_head(tree, c["newhead"], exp, need)
    check_api(w, p["newhead"], exp, env)
    w.probe("plain" if "plain" in c else "aggregation")
    if exp["deleted"]:
        w.probe("deletions")
    prev, pexp = p["newhead"], exp
    for st in case.get("chain", []):
        prev = bags.pack(prev, st.get("form", "dir"))
        nh = bags.write_bag(st["newhead"], p["store"])
        expect_ok(run(w, sut.do_amend, prev, nh, st.get("version", "9"), env=st.get("env")),
                  "amend")
        exp = {"members": pexp["members"] + [(st["newhead"]["name"], None, [], None)],
               "lookup": dict(pexp["lookup"]),
               "deleted": set(d for d in pexp["deleted"] if d not in st["newhead"]["files"]),
               "deprecates": pexp["deprecates"] + [pexp["version"]],
               "version": st.get("version", "9")}
        for q in amd.selected(st["newhead"], {}):
            exp["lookup"][q] = st["newhead"]["name"]
        for t in st["newhead"].get("raw", {}).values():
            exp["deleted"] |= set(l for l in t.split("\n") if l)
        amd.check_head(bags.read_tree(nh), st["newhead"], exp, need)
        check_api(w, nh, exp, env)
        prev, pexp = nh, exp
        w.probe("chained")
