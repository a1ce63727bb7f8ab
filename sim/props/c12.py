"""C12: a restore killed midway is never mistaken for a finished one, and can be redone"""
from .. import gen, bags, agg, sut, engine
from ..common import *
from .c08 import FORMS

NEED_FAULT = True


def kills(rng, n, kinds=("write", "write", "open_w", "mkdir", "utime", "unlink", "rename")):
    out = []
    for _ in range(n):
        r = rng.random()
        f = {"pos": rng.random(), "do": "crash"}
        if r < 0.35:
            f.update(do="torn", k="write", frac=gen.ch(rng, [0.0, 0.3, 0.5, 0.9, 0.99]))
        elif r < 0.7:
            f["k"] = gen.ch(rng, list(kinds))
        out.append(f)
    return out


def generate(rng, tier):
    a = agg.generate(rng, nmem=4, npool=6, v02=True, fetch=rng.random() < 0.3, big=rng.random() < .1)
    env = gen.env(rng)
    env.pop("clock", None)
    return {"agg": a, "forms": [gen.ch(rng, FORMS) for _ in a["members"]]
            if rng.random() < 0.4 else [], "order": rng.randrange(1 << 30),
            "headform": gen.ch(rng, ["dir", "dir", "dir", "zip", "tgz"]),
            "way": gen.ch(rng, ["new", "new", "emptydir"]),
            "env": env, "env2": gen.env(rng), "kills": kills(rng, 6)}


def looks_finished(tree):
    return bool(tree) and not bags.verify(tree) and not bags.is_head(tree)


def execute(case, w):
    a = case["agg"]
    model = agg.combine(a)
    want = {p: v for p, v in model["files"].items() if p.startswith("data/")}
    env = case.get("env")
    paths = agg.write(a, w.dir("store"), case.get("forms"), case.get("order"), True,
                      case.get("headform", "dir"))
    before = bags.snap(w.path("store"))
    head = paths[-1]
    target = os.path.join(w.dir("res"), "restored")

    def fresh():
        bags.rmtree(target)
        if case.get("way") == "emptydir":
            os.mkdir(target)
    fresh()
    base = restore(w, head, target, env=env, record=True)
    expect_ok(base, "restore")
    for i, k in enumerate(case.get("kills", [])):
        fresh()
        out = restore(w, head, target, env=env, faults=engine.resolve([k], base.ctx.events))
        need(out.kind != "hang", "hang", out.desc())
        if out.kind != "crash":
            continue
        w.probe("crashed")
        got = bags.read_tree(target)
        if looks_finished(got):
            w.probe("finished_at_crash")
            d = diff_trees(want, bags.payload(got))
            need(not d, "mistaken-for-finished", "after a crash at %r the destination is a valid "
                 "bag, but: %s" % (out.ctx.fired[-1:], "; ".join(d)))
            v = package_valid(w, target)
        need(bags.snap(w.path("store")) == before, "store-changed", "the store changed")
        # again, into the interrupted destination
        out2 = restore(w, head, target, env=case.get("env2"))
        if out2.ok:
            got = bags.read_tree(target)
            if not bags.verify(got):
                d = diff_trees(want, bags.payload(got))
                need(not d, "retry-wrong", "after a crash at %r and a retry the destination is a "
                     "valid bag, but: %s" % (out.ctx.fired[-1:], "; ".join(d)))
                w.probe("retry_right")
            else:
                v = package_valid(w, target)
                need(not v.ok or v.value is False, "retry-accepted", "damaged retry accepted")
                w.probe("retry_invalid")
        else:
            need(out2.kind == "raise", "hang", out2.desc())
            w.probe("retry_refused")
        # again, into a fresh destination
        if i % 3:
            continue
        t2 = os.path.join(w.dir("res2"), "restored")
        bags.rmtree(t2)
        expect_ok(restore(w, head, t2, env=case.get("env2")), "fresh-retry")
        agg.check_combined(bags.read_tree(t2), model, need, "fresh-retry")
