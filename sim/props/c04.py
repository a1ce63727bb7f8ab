"""C04: a split that hits an I/O failure reports it"""
from .. import gen, bags, sut, engine, seam
from ..common import *

NEED_FAULT = True
ERRS = ["EIO", "EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "ESTALE"]


def fault_list(rng, n, kinds=None):
    """n independent single-fault experiments"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.12:       # the disk becomes full and stays so
            out.append([{"pos": rng.random(), "k": list(seam.SPACE_KINDS), "do": "ENOSPC",
                         "on": list(seam.SPACE_KINDS), "sticky": 1}])
        elif r < 0.2:      # the device fails and stays so
            out.append([{"pos": rng.random(), "do": "EIO", "sticky": 1}])
        elif r < 0.27:     # a burst
            out.append([{"pos": rng.random(), "do": gen.ch(rng, ERRS), "sticky": 1,
                         "count": rng.randrange(2, 5)}])
        elif r < 0.35:     # two separate errors
            out.append([{"pos": rng.random(), "k": k, "do": gen.ch(rng, ERRS)} for k in
                        (gen.ch(rng, kinds or KINDS), gen.ch(rng, kinds or KINDS))])
        else:
            out.append([{"pos": rng.random(), "k": gen.ch(rng, kinds or KINDS),
                         "do": gen.ch(rng, ERRS)}])
    return out


KINDS = ["read", "read", "write", "write", "open_r", "open_w", "list", "list", "mkdir", "link",
         "chmod", "utime", "unlink", "rename"]


def generate(rng, tier):
    spec = gen.bag(rng, nmax=7, big=rng.random() < 0.3)
    o = gen.split_opts(rng, spec)
    env = gen.env(rng)
    env.pop("clock", None)
    return {"bag": spec, "split": o, "env": env, "faults": fault_list(rng, 6)}


def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    env = case.get("env")
    ref = w.dir("ref")
    base = split(w, src, ref, o, env, record=True)
    expect_ok(base, "split")
    want = bags.read_tree(ref)
    names = [os.path.basename(p) for p in base.value]
    bags.rmtree(ref)
    for i, fl in enumerate(case.get("faults", [])):
        outdir = w.dir("ref")        # same relative path, so the same listing order
        fl = engine.resolve(fl, base.ctx.events)
        given = []
        out = split(w, src, outdir, o, env, fl, step=given.append if o.get("kind") == "plan"
                    else None)
        if not out.ctx.fired:
            w.probe("fault_not_reached")
        if out.ok:
            got = bags.read_tree(outdir)
            d = diff_trees(want, got)
            need(not d, "silent-loss", "the split returned normally after %r but: %s" %
                 (out.ctx.fired[:3], "; ".join(d)))
            need([os.path.basename(p) for p in out.value] == names, "silent-loss",
                 "the split returned %r, expected %r" % (out.value, names))
            if out.ctx.fired:
                w.probe("tolerated")
        else:
            need(out.kind == "raise", "hang", out.desc())
            w.probe("reported")
            # bags already handed out are complete
            for p in given:
                n = os.path.basename(p)
                a = {k: v for k, v in want.items() if k.startswith(n + "/")}
                b = {n + "/" + k: v for k, v in bags.read_tree(p).items()}
                d = diff_trees(a, b)
                need(not d, "handed-out-incomplete", "%s, handed out before the failure: %s" %
                     (n, "; ".join(d)))
        bags.rmtree(outdir)
