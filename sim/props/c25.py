"""C25: nothing outside the bag being written is touched, whatever the bags' files say"""
import io, tarfile, zipfile
from .. import gen, bags, agg, amd, sut, engine
from ..common import *
from .c12 import kills

# @ stands for the surroundings (absolute); everything these lead to is in the scratch directory
DIRS_OUT = ["..", "../sib", "../../sib", "../../../outer", "data/../../sib", "./../sib", "@/sib",
            "multibag/../../sib", "../sib/y", "../other bag/data", "@/mid/sib/y", "../other bag",
            "../new place", "../../new/place", "@/new place", "multibag/../../new place"]
DIRS_IN = [".", "./", "data", "data/d", "multibag/../data", "/", "data/."]
PATHS_OUT = ["../sib", "../../sib/x", "../../../outer/keep.txt", "data/../../other bag", "@/sib/y",
             "../other bag/data/a", "..", "../..", "data/../..", "multibag/../../sib", "@/mid/sib/x",
             "./../sib/x", "../store", "data/d/../../../sib"]
NAMES_OUT = ["../sib/y", "../sib", "@/sib", "../../sib", "..", ".", "a/../../sib", "../other bag"]
SLIPS = ["../slipped", "../../sib/x", "/abs slip", "data/../../slipped", "../other bag/data/a"]


def generate(rng, tier):
    a = agg.generate(rng, nmem=3, npool=5, tagdirs=False, fetch=False)
    for m in a["members"]:
        m.pop("enc", None)
    op = gen.ch(rng, ["restore", "restore", "restore", "inplace", "inplace", "amend", "convert",
                      "table", "split", "look", "maker"])
    case = {"agg": a, "op": op, "env": gen.env(rng), "order": rng.randrange(1 << 30),
            "hostile": [], "form": gen.ch(rng, ["dir", "dir", "zip", "tgz"])}
    kinds = ["tagdir", "tagdir", "deleted", "deleted", "members", "slip", "lookup", "manifest", "fetch"]
    for _ in range(rng.randrange(1, 3)):
        k = gen.ch(rng, kinds)
        if op in ("table", "convert", "amend", "maker") and rng.random() < 0.6:
            k = "tagdir"
        if k == "tagdir":
            v = gen.ch(rng, DIRS_OUT + DIRS_IN)
        elif k == "members":
            v = gen.ch(rng, NAMES_OUT)
        elif k == "slip":
            v = gen.ch(rng, SLIPS)
        else:
            v = gen.ch(rng, PATHS_OUT)
        case["hostile"].append({"kind": k, "v": v, "i": rng.randrange(6)})
    case["tables"] = rng.random() < 0.6
    if op == "table":
        case["calls"] = [gen.ch(rng, CALLS) for _ in range(rng.randrange(1, 7))]
    if op == "maker":
        case["tagdir"] = gen.ch(rng, DIRS_OUT + DIRS_IN)
    if rng.random() < 0.3:
        case["kill"] = kills(rng, 1)[0]
    return case


CALLS = ["ensure", "members", "lookup", "deleted", "clear", "info", "add", "delete", "migrate",
         "save", "remove"]


def surround(w):
    """the neighbourhood that must stay as it is"""
    for p, v in {"outer/keep.txt": b"keep", "outer/sib/x": b"x", "outer/sib/y/z": b"zz",
                 "outer/mid/sib/x": b"x2", "outer/mid/sib/y/z": b"z2", "outer/mid/sib/y/data/q": b"q",
                 "outer/mid/res/sib/x": b"x3", "outer/mid/res/sib/y/z": b"z3",
                 "outer/mid/store/sib/x": b"x4", "outer/mid/store/sib/y/z": b"z4"}.items():
        q = w.path(p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as fd:
            fd.write(v)
    for d in ("outer/mid/res", "outer/mid/store"):
        bags.write_bag({"name": "other bag", "files": {"data/a": ["t", "other"]}, "dirs": [],
                        "info": [], "algs": ["sha256"]}, w.path(d))


def slip(path, arcname):
    """add an entry with a hostile name to an archive"""
    base = bags.bagname(path)
    name = arcname if arcname.startswith("/") else base + "/" + arcname
    if path.endswith(".zip"):
        with zipfile.ZipFile(path, "a") as z:
            z.writestr(zipfile.ZipInfo(name, (2020, 1, 2, 3, 4, 6)), b"slipped")
    elif path.endswith((".tgz", ".tar")):
        mode = "gz" if path.endswith("gz") else ""
        with tarfile.open(path, "r:" + mode) as t:
            old = [(m, t.extractfile(m).read() if m.isfile() else None) for m in t.getmembers()]
        with tarfile.open(path, "w:" + mode) as t:
            for m, d in old:
                t.addfile(m, io.BytesIO(d) if d is not None else None)
            ti = tarfile.TarInfo(name)
            ti.size = 7
            t.addfile(ti, io.BytesIO(b"slipped"))


def at(s, w):
    return s.replace("@", w.path("outer"))


def write_table(root, sub, files):
    """tables where a tag directory claims to be; only ever inside the scratch directory"""
    d = os.path.normpath(os.path.join(root, sub))
    if not d.startswith(os.path.dirname(os.path.dirname(os.path.dirname(root)))):
        return
    for f, t in files.items():
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f)
        if not os.path.exists(p):
            with open(p, "w", encoding="utf-8") as fd:
                fd.write(t)


def prepare(case, w):
    """write the aggregation with the hostile content; returns the paths of the members"""
    a = case["agg"]
    store = w.path("outer/mid/store")
    sp = agg.specs(a)
    head = sp[-1]
    form = "dir" if case["op"] in ("inplace", "amend", "convert", "table", "maker") else \
        case.get("form", "dir")
    tables = {p.split("/", 1)[1]: t for p, t in head["raw"].items() if p.startswith("multibag/")}
    extra = []
    for h in case.get("hostile", []):
        v = at(h["v"], w)
        if h["kind"] == "tagdir":
            head["info"] = [x for x in head["info"] if x[0] != "Multibag-Tag-Directory"] + \
                [["Multibag-Tag-Directory", v]]
            extra.append(v)
        elif h["kind"] == "deleted":
            tables["deleted.txt"] = tables.get("deleted.txt", "") + v + "\n"
        elif h["kind"] == "members":
            ls = tables["member-bags.tsv"].split("\n")
            ls.insert(h["i"] % len(ls), v)
            tables["member-bags.tsv"] = "\n".join(ls)
        elif h["kind"] == "lookup":
            tables["file-lookup.tsv"] += "%s\t%s\n" % (v, head["name"])
        elif h["kind"] == "manifest":
            s = sp[h["i"] % len(sp)]
            s["extra_entries"] = {x: dict(s.get("extra_entries", {}).get(x, {}),
                                          **{v: bags.digest(x, b"keep")}) for x in s["algs"]}
        elif h["kind"] == "fetch":
            s = sp[h["i"] % len(sp)]
            s["fetch"] = s.get("fetch", []) + [["http://x/1", "4", v]]
    for f, t in tables.items():
        head["raw"]["multibag/" + f] = t
    out = []
    for i, s in enumerate(sp):
        p = bags.write_bag(s, store)
        if i == len(sp) - 1:
            for v in extra if case.get("tables", True) else ():
                write_table(p, v, tables)
        for h in case.get("hostile", []):
            if h["kind"] == "slip" and h["i"] % len(sp) == i and not (i == len(sp) - 1 and form == "dir"):
                p = bags.pack(p, "zip" if h["i"] % 2 else "tgz", order=case.get("order"))
                slip(p, at(h["v"], w))
                break
        else:
            p = bags.pack(p, form if i == len(sp) - 1 else case.get("form", "dir"))
        out.append(p)
    return out


def calls(path, names, other):
    """edits of a head bag's tables; those refused are skipped"""
    refused = 0
    h = sut.mmb.HeadBag(path)
    for n in names:
        try:
            if n == "ensure":
                h.ensure_tagdir()
            elif n == "members":
                h.save_member_bags()
            elif n == "lookup":
                h.save_file_lookup()
            elif n == "deleted":
                h.save_deleted()
            elif n == "clear":
                h.clear_file_lookup()
            elif n == "info":
                h.update_info("3")
            elif n == "add":
                h.add_member_bag("mm")
                h.add_file_lookup("data/xx", "mm")
            elif n == "delete":
                h.set_deleted("data/xx")
            elif n == "migrate":
                h.set_multibag_tag_dir(other, True)
            elif n == "remove":
                h.remove_member_bag("mm")
            elif n == "save":
                h.save()
        except (sut.mmb.MultibagError, ValueError, OSError, RuntimeError):
            refused += 1
    return refused


def look(path):
    for f in (lambda: sut.mbagit.open_bag(path).validate(),
              lambda: sut.mext.as_extended(sut.mbagit.open_bag(path)).is_valid(),
              lambda: sut.vhead.HeadBagValidator(path).validate(sut.vbase.ALL),
              lambda: sut.vmember.MemberBagValidator(path).validate(sut.vbase.ALL),
              lambda: sut.mmb.open_headbag(path).member_bags(),
              lambda: sut.mmb.open_headbag(path).deleted_paths(),
              lambda: dict(sut.mmb.open_headbag(path).iter_file_lookup())):
        try:
            f()
        except Exception:
            pass


def execute(case, w):
    op, env = case["op"], case.get("env")
    a = case["agg"]
    base = None
    for kill in (False, True) if case.get("kill") else (False,):
        bags.rmtree(w.path("outer"))
        surround(w)
        paths = prepare(case, w)
        head = paths[-1]
        mine = head
        dest = w.path("outer/mid/res/restored")
        if op == "restore":
            mine = dest

            def fn():
                return sut.do_restore(head, dest)
        elif op == "inplace":
            def fn():
                return sut.do_restore(head)
        elif op == "amend":
            new = bags.write_bag({"name": "amended", "files": {"data/n": ["t", "n"]}, "dirs": [],
                                  "info": [["Multibag-Tag-Directory", at(h["v"], w)] for h in
                                           case.get("hostile", []) if h["kind"] == "tagdir"][:1],
                                  "algs": ["sha256"]}, w.path("outer/mid/store"))
            mine = new

            def fn():
                return sut.do_amend(head, new, "9")
        elif op == "convert":
            def fn():
                return sut.do_convert(head)
        elif op == "maker":
            def fn():
                return sut.do_maker(head, {"tagdir": at(case.get("tagdir", ".."), w), "steps": [
                    {"do": "member"}, {"do": "lookup", "trunc": True}, {"do": "info"}]})
        elif op == "table":
            other = at((case.get("hostile") or [{"v": ".."}])[-1]["v"], w)

            def fn():
                return calls(head, case.get("calls", []), other)
        elif op == "split":
            mine = w.path("outer/mid/res/out")
            os.mkdir(mine)

            def fn():
                return sut.do_split(head, mine, {"kind": "plan", "groups": []})
        else:
            mine = None

            def fn():
                return look(head)
        def rest():
            s = bags.snap(w.path("outer"))
            if mine is None:
                return s
            rel = os.path.relpath(mine, w.path("outer"))
            return {k: v for k, v in s.items() if k != rel and not k.startswith(rel + "/")}
        before = rest()
        top = sorted(os.listdir(w.root))
        faults = engine.resolve([case["kill"]], base.ctx.events) if kill else ()
        out = run(w, fn, env=env, faults=faults, record=not kill)
        base = base or out
        need(out.kind != "hang", "hang", out.desc())
        need(not out.ctx.escapes, "escaped", "%s: %r" % (op, out.ctx.escapes[:2]))
        need(sorted(os.listdir(w.root)) == top, "outside-touched", "%s: top of the scratch directory: "
             "%r" % (op, os.listdir(w.root)))
        d = diff_trees(before, rest())
        need(not d, "outside-touched", "%s (%s) changed files outside: %s" %
             (op, out.desc() if not out.ok else "ok", "; ".join(d)))
        w.probe(op + ("_ok" if out.ok else "_refused" if out.kind == "raise" else "_killed"))
        if out.ok and op in ("restore", "inplace") and \
                all(h["kind"] == "tagdir" for h in case.get("hostile", [])):
            # whatever is called the tag directory, the payload must not go with it
            want = {p: v for p, v in agg.combine(a)["files"].items() if p.startswith("data/")}
            d = [x for x in diff_trees(want, bags.payload(bags.read_tree(mine)), 50)
                 if not x.startswith("unexpected")]
            need(not d, "payload-lost", "%s: %s" % (op, "; ".join(d[:5])))
            w.probe("payload_checked")
