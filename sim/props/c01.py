"""C01: split, then restore, gives back the original bag"""
from .. import gen, bags
from ..common import *


def generate(rng, tier):
    spec = gen.unorm(rng, gen.encoding(rng, gen.bag(rng, nmax=12 if tier == "thorough" else 9)))
    gen.crowd(rng, spec)
    o = gen.split_opts(rng, spec)
    o.pop("nopass", None)
    forms = [gen.ch(rng, ["dir", "dir", "zip", "tar", "tgz", "tar.gz", "tar.bz2"])
             for _ in range(6)] if rng.random() < 0.6 else []
    return {"bag": spec, "split": o, "forms": forms, "order": rng.randrange(1 << 30),
            "direntries": rng.random() < 0.7,
            "dest": gen.ch(rng, ["inplace", "new", "new", "emptydir", "headpath", "slash"]),
            "opened": gen.ch(rng, ["path", "path", "path", "object"]),
            "env1": gen.env(rng), "env2": gen.env(rng)}




def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    want = bags.build(spec)
    outdir = w.dir("out")
    pieces = expect_ok(split(w, src, outdir, o, case.get("env1")), "split")
    need(len(pieces) > 0, "split-nothing", "no bags written")
    head = pieces[-1]
    dest = case.get("dest", "new")
    inplace = dest in ("inplace", "headpath")
    packed = pack_pieces(pieces, case.get("forms"), case.get("order"),
                         case.get("direntries", True), keep_dir=[head] if inplace else ())
    head = packed[-1]
    w.probe("pieces_%s" % min(len(pieces), 5))
    kw = {"env": case.get("env2")}
    if dest == "inplace":
        target = head
        out = restore(w, head, None, **kw)
    elif dest == "headpath":
        target = head
        out = restore(w, head, head, **kw)
    else:
        target = os.path.join(w.dir("res"), "restored")
        if dest == "emptydir":
            os.mkdir(target)
        h = head
        if dest == "slash" and os.path.isdir(head):
            h = head + "/"
        out = restore(w, h, target + ("/" if dest == "slash" else ""), **kw)
    expect_ok(out, "restore")
    got = bags.read_tree(target)
    check_same_bag(got, want, "restored")
    v = package_valid(w, target)
    need(v.ok and v.value is True, "restored-rejected", v.desc())


