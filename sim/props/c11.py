"""C11: a split killed midway never leaves an incomplete aggregation that looks complete"""
from .. import gen, bags, sut, engine
from ..common import *
from .c12 import kills

NEED_FAULT = True


def generate(rng, tier):
    spec = gen.bag(rng, nmax=6, big=rng.random() < 0.2)
    o = gen.split_opts(rng, spec)
    env = gen.env(rng)
    env.pop("clock", None)
    ks = kills(rng, 7, ("write", "write", "open_w", "mkdir", "link", "rename", "unlink"))
    for k in ks:
        if rng.random() < 0.45:          # the last third, where the head is written
            k["pos"] = 0.6 + 0.4 * rng.random()
        elif rng.random() < 0.4:
            k["re"] = gen.ch(rng, ["bag-info.txt", "/multibag/", "manifest-"])
            k["pos"] = 0.7 + 0.3 * rng.random()
    return {"bag": spec, "split": o, "env": env, "kills": ks}


def _is_head(path):
    return sut.mmb.is_headbag(path)


def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    srcsnap = bags.snap(w.path("src"))
    env = case.get("env")
    outdir = w.dir("out")
    base = split(w, src, outdir, o, env, step=lambda b: None, record=True)
    expect_ok(base, "split")
    want = {os.path.basename(p): bags.read_tree(p) for p in base.value}
    names = [os.path.basename(p) for p in base.value]
    for i, k in enumerate(case.get("kills", [])):
        bags.rmtree(outdir)
        os.mkdir(outdir)
        given = []
        out = split(w, src, outdir, o, env, engine.resolve([k], base.ctx.events),
                    step=given.append)
        need(out.kind != "hang", "hang", out.desc())
        if out.kind != "crash":
            continue
        w.probe("crashed")
        at = out.ctx.fired[-1:]
        trees = {n: bags.read_tree(os.path.join(outdir, n)) for n in sorted(os.listdir(outdir))}
        for p in given:
            n = os.path.basename(p)
            d = diff_trees(want.get(n, {}), trees.get(n, {}))
            need(not d, "handed-out-incomplete", "%s had been handed out when the process died at "
                 "%r: %s" % (n, at, "; ".join(d)))
            w.probe("handed_out")
        for n, t in trees.items():
            r = run(w, _is_head, os.path.join(outdir, n))
            if not (bags.is_head(t) or (r.ok and r.value)):
                continue
            w.probe("head_at_crash")
            need(n == names[-1], "wrong-head", "%s is recognised as a head bag" % n)

            def strip(x):
                return {p: v for p, v in x.items() if p != "bag-info.txt" and
                        not p.startswith("tagmanifest-")}
            d = diff_trees(strip(want[n]), strip(t))
            need(not d, "incomplete-head", "the process died at %r; %s is recognised as a head "
                 "bag but: %s" % (at, n, "; ".join(d)))
            for m, u, x, c in bags.members(t):
                if m != n and m in want:
                    d = diff_trees(want[m], trees.get(m, {}))
                    need(not d, "incomplete-member", "head present, but %s: %s" %
                         (m, "; ".join(d)))
        need(bags.snap(w.path("src")) == srcsnap, "source-changed", "the source bag changed")
        if i % 3 == 0:
            again = w.dir("again")
            bags.rmtree(again)
            os.mkdir(again)
            r = split(w, src, again, o, env)
            expect_ok(r, "re-run")
            got = {os.path.basename(p): bags.read_tree(p) for p in r.value}
            for n in sorted(set(want) | set(got)):
                need(_same(want.get(n), got.get(n)), "rerun-differs",
                     "%s: %s" % (n, "; ".join(diff_trees(want.get(n, {}), got.get(n, {})))))


def _same(a, b):
    """equal up to the order of lines in lists whose order follows the directory listing"""
    if a is None or b is None or set(a) != set(b):
        return False
    for p in a:
        if a[p] == b[p]:
            continue
        if a[p] is None or b[p] is None:
            return False
        if sorted(a[p].split(b"\n")) != sorted(b[p].split(b"\n")) and \
                not p.startswith("tagmanifest-"):
            return False
    return not bags.verify(b)
