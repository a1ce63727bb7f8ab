"""C03: plans honour the limits, reservations, and do not depend on listing order"""
from .. import gen, bags, sut
from ..common import *


def generate(rng, tier):
    spec = gen.bag(rng, nmax=16 if rng.random() < 0.3 else 10, big=rng.random() < 0.3)
    if rng.random() < 0.4:          # sizes from a small set, so that limits are hit exactly
        sz = [rng.randrange(0, 60) for _ in range(3)]
        for p in spec["files"]:
            spec["files"][p] = ["r", rng.randrange(1 << 30), gen.ch(rng, sz)]
    gen.crowd(rng, spec, 0.01)
    o = gen.split_opts(rng, spec, plan=False)
    o.pop("names", None)
    if rng.random() < 0.3:          # a limit that equals a sum of sizes
        ks = rng.sample(sorted(spec["files"]), min(len(spec["files"]), rng.randrange(1, 4)))
        m = sum(len(bags.content(spec["files"][k])) for k in ks)
        if m > 0:
            o["max"] = m
            if o.get("target"):
                o["target"] = max(1, min(o["target"], m))
    return {"bag": spec, "split": o, "orders": [rng.randrange(1 << 30) for _ in range(3)],
            "env": gen.env(rng)}


def _plan(src, o):
    return [[list(m["contents"]), m.get("name")] for m in sut.make_plan(src, o).manifests()]


def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    tree = bags.build(spec)
    files = dict(bags.payload(tree))
    files.update(bags.extras(tree))
    mx, tgt = o["max"], o.get("target") or o["max"]
    reserved = set(f.lstrip("/") for f in o.get("forhead", [])) & set(files)
    plans = []
    for od in [None] + case.get("orders", []):
        e = dict(case.get("env") or {}, order=od)
        plans.append(expect_ok(run(w, _plan, src, o, env=e), "plan"))
    outdir = w.dir("out")
    pieces = expect_ok(split(w, src, outdir, o, case.get("env")), "split")
    written = []
    for p in pieces:
        t = bags.read_tree(p)
        own = set(bags.payload(t)) | set(bags.extras(t))
        written.append((os.path.basename(p), set(f for f in own if f in files)))
    # the distribution depends on the content only
    dist = [[(name, sorted(f for f in cont if f in files)) for cont, name in pl] for pl in plans]
    for d in dist[1:]:
        need(d == dist[0], "order-dependent", "file distribution depends on listing order: "
             "%r vs %r" % (dist[0], d))
    need([(n, sorted(f)) for n, f in written] == dist[0], "plan-not-followed",
         "written bags differ from the plan: %r vs %r" % (written, dist[0]))
    # limits on the written bags
    last = len(written) - 1
    for i, (name, fs) in enumerate(written):
        sizes = sorted(len(files[f]) for f in fs)
        tot = sum(sizes)
        if i == last and reserved and all(f in reserved for f in fs if len(files[f])):
            # the bag formed for the reserved files
            continue
        if tot > mx:
            w.probe("oversized")
            need(len([s for s in sizes if s]) == 1, "max-exceeded",
                 "%s holds %d bytes (max %d) in %d non-empty files" %
                 (name, tot, mx, len([s for s in sizes if s])))
        if tot > tgt:
            w.probe("over_target")
            need(any(tot - s <= tgt for s in sizes), "target-exceeded",
                 "%s holds %d bytes, target %d, sizes %r" % (name, tot, tgt, sizes))
            seq = [len(files[f]) for f in plans[0][i][0] if f in files]
            seq = [s for s in seq if s]
            need(sum(seq[:-1]) <= tgt, "target-exceeded", "%s goes on being filled after the target "
                 "%d has been crossed: sizes, in order, %r" % (name, tgt, seq))
        if tot == mx:
            w.probe("exact_max")
    # reservations
    for f in reserved:
        w.probe("reserved")
        holders = [n for n, fs in written if f in fs]
        need(holders == [written[last][0]], "reservation",
             "%s reserved for the head is in %r (head %s)" % (f, holders, written[last][0]))
    allf = set()
    for n, fs in written:
        allf |= fs
    need(allf == set(files), "lost", "not planned: %r" % sorted(set(files) - allf)[:5])
