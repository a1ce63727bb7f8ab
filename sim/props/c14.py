"""C14: the tables of a head bag behave like durable tables"""
import copy
from .. import gen, bags, sut, engine
from ..common import *

ODD = ["\u00e9", "\u2028", "\x85", "\x0b", "\x1c", "\u00a0", "\u3000", "\U0001f600", "#", "  ", ":",
       "%", "\\", "\"", "'", ",", "\ud7ff", "\u0301"]
NAMES = ["m1", "m 2", "b.zip", "#name", "m10", "m", "multibag", "\u65e5\u672c"]
PATHS = ["data/a", "data/a b", "data/a/b", "data/#x", "data/trial1", "data/trial10", "meta.json",
         "multibag/deleted.txt", "data/\u00fc", "d", "data/a%20b"]
URIS = ["http://x.org/a?b=c#d", "ark:/88434/mds0#v1", "doi:10/1 2", "x", "\u00e9:/"]
COMMENTS = ["c", "a #comment", "see: x, y", "\u00fcber", "v # 2"]
INFOS = ["i", "k=v", "two  spaces", "12", "a#b"]


def odd(rng, s):
    if rng.random() < 0.3:
        k = rng.randrange(1, len(s) + 1) if len(s) > 1 else 1
        s = s[:k] + gen.ch(rng, ODD) + (s[k:] or "z")
        if s[-1].isspace():
            s += "z"
    return s


def member(rng, names):
    m = {"name": gen.ch(rng, names)}
    if rng.random() < 0.5:
        m["uri"] = odd(rng, gen.ch(rng, URIS))
    if rng.random() < 0.4:
        m["comment"] = odd(rng, gen.ch(rng, COMMENTS))
    if rng.random() < 0.4:
        m["info"] = [odd(rng, gen.ch(rng, INFOS)) for _ in range(rng.randrange(1, 4))]
    return m


def generate(rng, tier):
    names = [odd(rng, n) for n in rng.sample(NAMES, rng.randrange(2, 6))]
    paths = [odd(rng, p) for p in rng.sample(PATHS, rng.randrange(2, 8))]
    case = {"td": gen.ch(rng, ["multibag", "multibag", "mb tags", None, "tags/mb"]), "ops": [],
            "how": gen.ch(rng, ["HeadBag", "open", "as"]), "env": gen.env(rng),
            "probe": names + ["absent", "side"],
            "paths": paths + ["data/absent"] + [f for f in sorted(SIDE["files"]) if f not in paths]}
    if rng.random() < 0.5:
        case["init"] = {"m": [member(rng, names) for _ in range(rng.randrange(0, 4))],
                        "l": [[p, gen.ch(rng, names)] for p in paths if rng.random() < 0.6],
                        "d": [p for p in paths if rng.random() < 0.3]}
        if rng.random() < 0.3:
            case["init"]["pad"] = gen.ch(rng, [" ", "   "])
    for _ in range(rng.randrange(6, 40 if tier == "thorough" else 26)):
        r = rng.random()
        if r < 0.16:
            op = dict(member(rng, names), do="add")
            if rng.random() < 0.3:
                op["keep"] = 1
        elif r < 0.22:
            op = {"do": "remove", "name": gen.ch(rng, names)}
        elif r < 0.25:
            op = {"do": "set", "m": [member(rng, names) for _ in range(rng.randrange(0, 4))]}
        elif r < 0.41:
            op = {"do": "lu", "path": gen.ch(rng, paths), "bag": gen.ch(rng, names)}
        elif r < 0.46:
            op = {"do": "unlu", "path": gen.ch(rng, paths)}
        elif r < 0.48:
            op = {"do": "clear"}
        elif r < 0.51:
            from .. import amd
            op = dict(amd.lu_lists(rng, SIDE), do="side", member=rng.random() < 0.6,
                      form=gen.ch(rng, ["dir", "dir", "zip", "tgz"]))
            if rng.random() < 0.6:
                op["as"] = gen.ch(rng, names)
        elif r < 0.57:
            op = {"do": "del", "path": gen.ch(rng, paths)}
        elif r < 0.61:
            op = {"do": "undel", "path": gen.ch(rng, paths)}
        elif r < 0.82:
            op = {"do": "save", "t": gen.ch(rng, ["m", "l", "d", "mld", "mld", "ml", "dl"])}
            if rng.random() < 0.3:
                op["t"] = gen.ch(rng, ["m", "l", "d"])
                op["fault"] = {"do": gen.ch(rng, ["crash", "crash", "torn", "torn", "EIO", "ENOSPC",
                                                  "EDQUOT"]), "frac": gen.ch(rng, [0, .3, .7])}
                if rng.random() < 0.4:
                    op["fault"].update({"on": ["write"], "count": 9})
                else:
                    op["fault"]["at"] = rng.randrange(0, 5)
        elif r < 0.9:
            op = {"do": "reopen"}
        elif r < 0.93:
            op = {"do": "reread", "t": gen.ch(rng, ["m", "l", "d"])}
        elif r < 0.95:
            op = {"do": "info", "v": gen.ch(rng, ["1", "2.0", "v 3"])}
        elif r < 0.96:
            op = {"do": "tagdir", "name": gen.ch(rng, ["mb2", "multibag", "t x", "multi", "multibag2", "mb",
                                                   "tags/mb", "tags/mb2/x", "M"])}
        else:
            op = {"do": "packed", "form": gen.ch(rng, ["zip", "tar", "tgz", "tar.bz2"])}
        case["ops"].append(op)
        if rng.random() < 0.4:
            case["ops"].append({"do": "check"})
    return case


SIDE = {"name": "side", "files": {f: ["t", f] for f in (
    "data/a", "data/d/b", "data/d/e/f g", "data/d2/c", "data/dx", "t.txt", "meta/m.xml")},
    "dirs": ["data/none"], "algs": ["sha256"], "tagalgs": [], "info": []}


def mi(m):
    return (m["name"], m.get("uri"), list(m.get("info") or []), m.get("comment"))


FILES = {"m": "member-bags.tsv", "l": "file-lookup.tsv", "d": "deleted.txt"}
EMPTY = {"m": [], "l": {}, "d": set()}


class Table(object):
    def __init__(self):
        self.mem = copy.deepcopy(EMPTY)
        self.saved = {"m": None, "l": None, "d": None}     # None: no file

    def reset(self, t="mld"):
        for x in t:
            self.mem[x] = copy.deepcopy(EMPTY[x] if self.saved[x] is None else self.saved[x])

    def save(self, t):
        self.saved[t] = copy.deepcopy(self.mem[t])
        if t == "d" and not self.mem[t]:
            self.saved[t] = None

    def remove(self, name):
        self.mem["m"] = [m for m in self.mem["m"] if m[0] != name]
        for p in [p for p, b in self.mem["l"].items() if b == name]:
            self.mem["d"].discard(p)
            del self.mem["l"][p]


def state(hb, probes, paths):
    return {"m": [(m.name, m.uri, list(m.info), m.comment) for m in hb.member_bags()],
            "names": list(hb.member_bag_names),
            "l": {p: hb.lookup_file(p) for p in paths},
            "f": {n: hb.files_in_member(n) for n in probes},
            "d": sorted(hb.deleted_paths())}


def ro_state(path, probes, paths):
    hb = sut.mmb.open_headbag(path, True)
    Missing = sut.mmb.MissingMultibagFileError

    def get(f, dflt):
        try:
            return f()
        except Missing:
            return dflt
    return {"m": get(lambda: [(m.name, m.uri, list(m.info), m.comment) for m in
                              hb.member_bags()], []),
            "names": get(lambda: list(hb.member_bag_names), []),
            "l": {p: get(lambda: hb.lookup_file(p), None) for p in paths},
            "order": get(lambda: [list(x) for x in hb.iter_file_lookup()], []),
            "f": {n: hb.files_in_member(n) for n in probes},
            "d": sorted(hb.deleted_paths())}


def compare(got, t, case, what):
    m = EMPTY["m"] if t["m"] is None else t["m"]
    l = EMPTY["l"] if t["l"] is None else t["l"]
    d = EMPTY["d"] if t["d"] is None else t["d"]
    need(got["m"] == m, what + "-members", "members %r, expected %r" % (got["m"], m))
    need(got["names"] == [x[0] for x in m], what + "-members", "names %r" % got["names"])
    exp = {p: l.get(p) for p in case.get("paths", [])}
    need(got["l"] == exp, what + "-lookup", "lookup %r, expected %r" % (got["l"], exp))
    exp = {n: [p for p, b in l.items() if b == n] for n in case.get("probe", [])}
    need(got["f"] == exp, what + "-files-in-member", "files %r, expected %r" % (got["f"], exp))
    if "order" in got:
        need(got["order"] == [list(x) for x in l.items()], what + "-lookup", "lookup entries %r, "
             "expected %r" % (got["order"], list(l.items())))
    need(got["d"] == sorted(d), what + "-deleted", "deletions %r, expected %r" %
         (got["d"], sorted(d)))


def execute(case, w):
    env = case.get("env")
    td = case.get("td")
    T = Table()
    spec = {"name": "hb", "files": {"data/a": ["t", "x"]}, "dirs": [], "algs": ["sha256"],
            "tagalgs": [], "raw": {},
            "info": [["Multibag-Version", "0.4"]] + ([["Multibag-Tag-Directory", td]] if td else [])}
    td = td or "multibag"
    if "init" in case:
        i = case["init"]
        T.saved["m"] = [mi(m) for m in i.get("m", [])]
        T.saved["l"] = dict((a, b) for a, b in i.get("l", []))
        T.saved["d"] = set(i.get("d", [])) or None
        from ..amd import fmt_member
        spec["raw"][td + "/member-bags.tsv"] = "".join(
            fmt_member(m["name"], {"pid": m.get("uri"), "info": m.get("info"),
                                   "comment": m.get("comment")}) for m in i.get("m", []))
        spec["raw"][td + "/file-lookup.tsv"] = "".join("%s\t%s\n" % x for x in
                                                       T.saved["l"].items())
        if i.get("pad"):       # the profile allows spaces before (and after) the delimiter
            f = td + "/file-lookup.tsv"
            spec["raw"][f] = spec["raw"][f].replace("\t", i["pad"] + "\t" + i["pad"])
            f = td + "/member-bags.tsv"
            spec["raw"][f] = "".join(l.replace("\t", i["pad"] + "\t", 1) + "\n" for l in
                                     spec["raw"][f].split("\n")[:-1])
        if T.saved["d"]:
            spec["raw"][td + "/deleted.txt"] = "".join(p + "\n" for p in i["d"])
        T.reset()
    root = bags.write_bag(spec, w.dir("store"))

    def opened():
        how = case.get("how")
        if how == "open":
            return sut.mmb.open_headbag(root)
        if how == "as":
            return sut.mmb.as_headbag(sut.mbagit.Bag(root))
        return sut.mmb.HeadBag(root)

    def do(fn, *a, **k):
        return run(w, fn, *a, env=env, **k)
    hb = expect_ok(do(opened), "open")

    def disk(what, tables="mld"):
        tree = bags.read_tree(root)
        read = {"m": bags.members, "l": lambda t: dict(bags.lookup(t)), "d": bags.deleted}
        for t in tables:
            f = td + "/" + FILES[t]
            if T.saved[t] is None:
                need(f not in tree or not tree[f], what + "-file", "%s exists" % f)
                continue
            need(tree.get(f) is not None, what + "-file", "%s missing" % f)
            got = read[t](tree)
            need(got == T.saved[t] and (t != "l" or list(got) == list(T.saved[t])),
                 what + "-file", "%s holds %r, expected %r" % (f, got, T.saved[t]))
            if t == "l":
                need(len(bags.lookup(tree)) == len(got), what + "-file", "duplicates in " + f)

    for op in case["ops"]:
        k = op["do"]
        if k == "add":
            a = (op["name"], op.get("uri"), op.get("comment"), op.get("info"))
            if op.get("keep"):
                expect_ok(do(hb.add_member_bag, *a, override=False), k)
            else:
                if not any(m[0] == op["name"] for m in T.mem["m"]) and \
                        any(b == op["name"] for b in T.mem["l"].values()):
                    continue      # not specified: lookup entries of a bag not yet a member
                expect_ok(do(hb.add_member_bag, *a), k)
                T.remove(op["name"])
            T.mem["m"].append(mi(op))
        elif k == "remove":
            expect_ok(do(hb.remove_member_bag, op["name"]), k)
            T.remove(op["name"])
        elif k == "set":
            ms = [sut.mmb.MemberInfo(m["name"], m.get("uri"), m.get("comment"),
                                     *(m.get("info") or [])) for m in op["m"]]
            expect_ok(do(hb.set_member_bags, ms), k)
            ms.append(sut.mmb.MemberInfo("not handed over"))       # the caller's list is its own
            T.mem["m"] = [mi(m) for m in op["m"]]
        elif k == "lu":
            expect_ok(do(hb.add_file_lookup, op["path"], op["bag"]), k)
            T.mem["l"][op["path"]] = op["bag"]
        elif k == "side":
            from ..amd import selected
            nm = op.get("as") or "side"
            known = any(m[0] == nm for m in T.mem["m"])
            if op.get("member") and not known and nm in T.mem["l"].values():
                continue
            q = w.path("others/side" + ("" if op.get("form", "dir") == "dir" else "." + op["form"]))
            if not os.path.exists(q):
                r = bags.write_bag(SIDE, w.dir("others/%s" % op.get("form", "dir")))
                os.rename(bags.pack(r, op.get("form", "dir")), q)
            before = bags.read_tree(root)
            kw = {"member_name": op["as"]} if op.get("as") else {}

            def side():
                hb.update_for_member(sut.mbagit.open_bag(q), op.get("include"), op.get("exclude"),
                                     bool(op.get("member")), **kw)
            expect_ok(do(side), k)
            if op.get("member"):
                T.remove(nm)
                T.mem["m"].append((nm, None, [], None))
            # in which order the files of one bag get listed is open
            sel = selected(SIDE, op)
            lst = expect_ok(do(hb.files_in_member, nm), "read")
            for f in sorted(sel, key=lambda f: lst.index(f) if f in lst else -1):
                T.mem["l"][f] = nm
            need(bags.read_tree(root) == before, "early-write", "files changed before anything was saved")
            w.probe("side")
        elif k == "unlu":
            expect_ok(do(hb.remove_file_lookup, op["path"]), k)
            T.mem["l"].pop(op["path"], None)
        elif k == "clear":
            expect_ok(do(hb.clear_file_lookup), k)
            T.mem["l"] = {}
            T.saved["l"] = None
        elif k == "del":
            expect_ok(do(hb.set_deleted, op["path"]), k)
            T.mem["d"].add(op["path"])
        elif k == "undel":
            expect_ok(do(hb.unset_deleted, op["path"]), k)
            T.mem["d"].discard(op["path"])
        elif k == "save":
            fns = {"m": hb.save_member_bags, "l": hb.save_file_lookup, "d": hb.save_deleted}
            for t in op.get("t", "mld"):
                if T.mem[t] != EMPTY[t] and T.saved[t] is None or T.saved[t] is not None:
                    pass
                before = bags.read_tree(root)
                f = op.get("fault")
                if not f:
                    expect_ok(do(fns[t]), "save")
                else:
                    out = do(fns[t], faults=[f])
                    need(out.kind != "hang", "hang", out.desc())
                    after = bags.read_tree(root)
                    for u in "mld":
                        if u != t:
                            g = td + "/" + FILES[u]
                            need(before.get(g) == after.get(g), "other-table", "%s changed while "
                                 "saving %s failed at %r" % (g, FILES[t], out.ctx.fired[:1]))
                    w.probe("save_" + out.kind)
                    if out.kind == "crash":
                        disk("after-crash", [u for u in "mld" if u != t])
                        g = os.path.join(root, td, FILES[t])
                        if before.get(td + "/" + FILES[t]) is not None:
                            bags.write_tree({FILES[t]: before[td + "/" + FILES[t]]},
                                            os.path.dirname(g))
                        elif os.path.exists(g):
                            os.unlink(g)
                        T.reset()
                        hb = expect_ok(do(opened), "open")
                        break
                    if out.kind == "raise":
                        expect_ok(do(fns[t]), "save-again")
                # a table that was never touched is not written
                if not (T.saved[t] is None and T.mem[t] == EMPTY[t]):
                    T.save(t)
                disk("saved", [t])
        elif k == "reopen":
            T.reset()
            hb = expect_ok(do(opened), "open")
        elif k == "reread":
            t = op.get("t", "m")
            if T.saved[t] is None and t != "d":
                continue
            expect_ok(do({"m": lambda: hb.member_bags(True), "d": lambda: hb.deleted_paths(True),
                          "l": lambda: hb.lookup_file("data/a", True)}[t]), k)
            T.reset(t)
        elif k == "info":
            expect_ok(do(hb.update_info, op["v"]), k)
            need(hb.head_version == op["v"], "head-version", hb.head_version)
            td = hb.multibag_tag_dir
        elif k == "tagdir":
            if op["name"] == td or os.path.exists(os.path.join(root, op["name"])) or \
                    op["name"].startswith(td + "/") or \
                    not os.path.isdir(os.path.join(root, td)):
                continue

            def mv():
                hb.set_multibag_tag_dir(op["name"], True)
                hb.save()
            expect_ok(do(mv), k)
            td = op["name"]
        elif k == "packed":
            q = bags.pack(root, op.get("form", "zip"), remove=False,
                          dest=w.path("copy." + op.get("form", "zip")))
            r = do(ro_state, q, case.get("probe", []), case.get("paths", []))
            compare(expect_ok(r, "read"), T.saved, case, "packed")
            os.unlink(q)
        elif k == "check":
            compare(expect_ok(do(state, hb, case.get("probe", []), case.get("paths", [])), "read"),
                    T.mem, case, "handle")
            disk("disk")
            r = do(ro_state, root, case.get("probe", []), case.get("paths", []))
            compare(expect_ok(r, "read"), T.saved, case, "readonly")
        w.probe(k)
