"""C02: every piece of a split is sound and the head describes them truly"""
from .. import gen, bags, sut
from ..common import *
from .c24 import check_names


def make_head_source(rng, spec):
    """turn the source into a head bag of an existing aggregation"""
    td = gen.ch(rng, ["multibag", "multibag", "mbtags"])
    mem = ["old%d" % i for i in range(rng.randrange(0, 3))] + [spec["name"]]
    lu = [["data/elsewhere/%d" % i, mem[rng.randrange(len(mem) - 1)]]
          for i in range(rng.randrange(0, 3))] if len(mem) > 1 else []
    lu += [[p, spec["name"]] for p in sorted(spec["files"]) if p.startswith("data/")]
    raw = {td + "/member-bags.tsv": "".join(m + "\n" for m in mem),
           td + "/file-lookup.tsv": "".join("%s\t%s\n" % tuple(x) for x in lu)}
    if rng.random() < 0.5:
        raw[td + "/deleted.txt"] = "data/gone\ndata/gone2\n"
    if rng.random() < 0.5:
        raw[td + "/aggregation-info.txt"] = "Contact-Name: old\n"
    spec["raw"] = raw
    spec["info"] = (spec["info"] or []) + [["Multibag-Version", "0.4"],
                                           ["Multibag-Tag-Directory", td],
                                           ["Multibag-Head-Version", "2.0"],
                                           ["Multibag-Head-Deprecates", "1.0"]]
    return {"td": td, "members": mem, "lookup": lu}


def generate(rng, tier):
    spec = gen.encoding(rng, gen.bag(rng, nmax=12 if tier == "thorough" else 9))
    spec["files"] = {p: c for p, c in spec["files"].items() if not p.startswith("multibag/")}
    gen.unorm(rng, spec)
    case = {"bag": spec, "env": gen.env(rng)}
    if rng.random() < 0.2:
        case["head"] = make_head_source(rng, spec)
    gen.crowd(rng, spec)
    o = gen.split_opts(rng, spec)
    case["split"] = o
    return case


def expected_info(src_info, bagname, nopass, oxum):
    """{key: sorted values} for one piece, from the source's bag-info"""
    src = {}
    for k, v in src_info:
        src.setdefault(k, []).append(v)
    out = {}

    def add(k, vals):
        out.setdefault(k, []).extend(vals)
    for k, vals in src.items():
        if k.startswith("Multibag-") or k in nopass:
            continue
        if k == "Internal-Sender-Identifier":
            add(k, [bagname])
            add("Multibag-Source-" + k, vals)
        elif k == "Internal-Sender-Description":
            add("Multibag-Source-" + k, vals)
        elif k == "External-Identifier":
            add("Multibag-Source-" + k, vals)
            add(k, [vals[0] + "/mbag:" + bagname])
            add("Bag-Group-Identifier", vals)
        elif k == "Bag-Size":
            add("Multibag-Source-" + k, vals)
        elif k == "Payload-Oxum":
            add(k, [oxum])
        else:
            add(k, vals)
    return {k: sorted(v) for k, v in out.items()}


def issues(cls, path):
    v = cls(path)
    r = v.validate(sut.vbase.ALL)
    return [(i.label, i.type, i.summary) for i in r.failed(sut.vbase.PROB)]


def check_pieces(w, case, pieces, want_src, what="piece"):
    """the heart of C02: pieces are the paths of the written bags in order"""
    o = case["split"]
    headinfo = case.get("head")
    mbfiles = set()
    if headinfo:
        mbfiles = {headinfo["td"] + "/" + f for f in
                   ("member-bags.tsv", "file-lookup.tsv", "deleted.txt", "aggregation-info.txt")}
    src_files = dict(bags.payload(want_src))
    src_files.update({p: v for p, v in bags.extras(want_src).items() if p not in mbfiles})
    src_info = bags.info_of(want_src)
    ent_p, ent_t = bags.entries(want_src), bags.entries(want_src, "tagmanifest")
    where = {}
    trees = [bags.read_tree(p) for p in pieces]
    names = [os.path.basename(p) for p in pieces]
    need(len(set(names)) == len(names), what + "-names", "duplicate output names %r" % names)
    for i, t in enumerate(trees):
        nm = names[i]
        ishead = i == len(trees) - 1
        bad = bags.verify(t)
        need(not bad, what + "-invalid", "%s: %s" % (nm, "; ".join(bad[:4])))
        need(bags.is_head(t) == ishead, what + "-headness",
             "%s (%d of %d) head=%r" % (nm, i + 1, len(trees), bags.is_head(t)))
        if not ishead:
            need("multibag" not in t, what + "-tagdir", "%s has a multibag directory" % nm)
        own = dict(bags.payload(t))
        own.update(bags.extras(t))
        for p in own:
            if ishead and p.startswith("multibag/") and p not in src_files:
                continue
            need(p in src_files, what + "-stray", "%s: unexpected file %s" % (nm, p))
            need(p not in where, what + "-duplicate", "%s is in both %s and %s" %
                 (p, where.get(p), nm))
            need(own[p] == src_files[p], what + "-content", "%s: content of %s differs" % (nm, p))
            where[p] = nm
        for kind, ent in (("manifest", ent_p), ("tagmanifest", ent_t)):
            got = bags.entries(t, kind)
            for p in own:
                if p not in where or where[p] != nm:
                    continue
                exp = {a: e[p] for a, e in ent.items() if p in e}
                g = {a: e[p] for a, e in got.items() if p in e}
                need(exp == g, what + "-checksums",
                     "%s: recorded checksums of %s: %r, source has %r" % (nm, p, g, exp))
            for a in got:
                for p in got[a]:
                    need(p in own, what + "-stale-entry", "%s: %s lists %s" % (nm, kind, p))
        pl = bags.payload(t)
        exp = expected_info(src_info, nm, o.get("nopass") or [],
                            "%d.%d" % (sum(len(v) for v in pl.values()), len(pl)))
        inf = bags.info_of(t)
        got = {}
        for k, v in inf:
            if k.startswith("Multibag-") and not k.startswith("Multibag-Source-"):
                continue
            got.setdefault(k, []).append(v)
        isd = got.pop("Internal-Sender-Description", None)
        has = any(k == "Internal-Sender-Description" for k, v in src_info) and \
            "Internal-Sender-Description" not in (o.get("nopass") or [])
        need(bool(isd) == has, what + "-baginfo", "%s: Internal-Sender-Description %r" % (nm, isd))
        got = {k: sorted(v) for k, v in got.items()}
        need(got == exp, what + "-baginfo", "%s: expected %r, got %r" % (nm, exp, got))
        need(bags.get(inf, "Multibag-Version") == ["0.4"], what + "-version",
             "%s: Multibag-Version %r" % (nm, bags.get(inf, "Multibag-Version")))
    miss = sorted(set(src_files) - set(where))
    need(not miss, what + "-lost", "not in any output bag: %r" % miss[:5])
    # empty directories
    dirs = [d for d in bags.empty_dirs(want_src) if d != "data"]
    for d in dirs:
        need(any(d in t and t[d] is None for t in trees), what + "-lost-dir",
             "empty directory %s in no output bag" % d)

    # the head
    head = trees[-1]
    mem = [m[0] for m in bags.members(head)]
    exp = [m for m in (headinfo["members"] if headinfo else []) if m not in names] + names
    need(mem == exp, what + "-members", "member list %r, expected %r" % (mem, exp))
    lu = bags.lookup(head)
    d = dict(lu)
    need(len(d) == len(lu), what + "-lookup", "a path is listed twice in the lookup")
    exp = dict((x[0], x[1]) for x in (headinfo["lookup"] if headinfo else []))
    exp.update(where)
    need(d == exp, what + "-lookup", "lookup differs: %s" % sorted(
        set(d.items()) ^ set(exp.items()))[:4])
    if headinfo:
        exp = set()
        if headinfo["td"] + "/deleted.txt" in want_src:
            exp = {"data/gone", "data/gone2"}
        need(bags.deleted(head) == exp, what + "-deleted", "deletions %r" % bags.deleted(head))
    need(bags.get(bags.info_of(head), "Multibag-Head-Version") == ["1"], what + "-headversion",
         "Multibag-Head-Version %r" % bags.get(bags.info_of(head), "Multibag-Head-Version"))
    if "bag-info.txt" in want_src:
        need(head.get("multibag/aggregation-info.txt") is not None, what + "-agginfo",
             "no aggregation-info.txt")
        a = info_multi(bags.parse_info(head["multibag/aggregation-info.txt"]), ())
        need(a == info_multi(src_info, ()), what + "-agginfo", "aggregation-info differs from "
             "the source's bag-info: %r" % a)
    return trees, where


def check_validators(w, pieces, env=None):
    for i, p in enumerate(pieces):
        cls = sut.vhead.HeadBagValidator if i == len(pieces) - 1 else \
            sut.vmember.MemberBagValidator
        out = run(w, issues, cls, p, env=env)
        need(out.ok, "validator-failed", "%s: %s" % (os.path.basename(p), out.desc()))
        need(not out.value, "validator-complains", "%s: %r" % (os.path.basename(p), out.value[:3]))


def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    want = bags.build(spec)
    outdir = w.dir("out")
    pieces = expect_ok(split(w, src, outdir, o, case.get("env")), "split")
    need(len(pieces) > 0, "split-nothing", "no bags written")
    need(sorted(os.listdir(outdir)) == sorted(os.path.basename(p) for p in pieces),
         "stray-output", "%r" % sorted(os.listdir(outdir)))
    w.probe("pieces_%s" % min(len(pieces), 5))
    if o["kind"] != "plan":
        check_names(o, [os.path.basename(p) for p in pieces], os.path.basename(src))
    if case.get("head"):
        w.probe("head_source")
    check_pieces(w, case, pieces, want)
    check_validators(w, pieces, case.get("env"))
