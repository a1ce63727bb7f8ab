"""C13: an amendment or conversion killed midway can be redone"""
from .. import gen, bags, agg, amd, sut, engine
from ..common import *
from .c06 import Job, scenario

NEED_FAULT = True


def generate(rng, tier):
    case = scenario(rng)
    env = gen.env(rng)
    env.pop("clock", None)
    env.pop("bufsize", None)
    env.pop("short_w", None)
    case.update(env=env, order=rng.randrange(1 << 30), kills=[])
    for _ in range(7):
        k = [{"pos": rng.random(), "do": "crash"}]
        if rng.random() < 0.6:
            k[0]["k"] = gen.ch(rng, ["open_w", "write", "write", "unlink", "mkdir", "rename"])
        if rng.random() < 0.25:
            k.append({"pos": rng.random(), "do": "crash"})     # a second attempt dies, too
        if rng.random() < 0.25:
            k[0]["other"] = rng.randrange(1 << 20)             # first attempted in another way
            if rng.random() < 0.5:
                k[0]["pos"] = 2                                # ... and not killed
        case["kills"].append(k)
    return case


def another(j, n):
    """the same operation with other arguments"""
    case = j.case
    if "convert" in case:
        return lambda: sut.do_convert(j.target, "0.%d" % (n % 7), "http://x/%d" % n if n % 2 else None)
    c = case["amd"]
    if (c.get("agg") or {}).get("deleted"):
        return j.fn         # it matters for the deletions which attempt they stem from
    p = j.p
    if n % 4 == 3:          # with a bag too much
        s = {"name": "too much", "files": {"data/too much": ["t", "x"], "data/sub/more": ["t", "y"]}, "dirs": [],
             "info": [], "algs": ["sha256"], "tagalgs": [], "version": "0.97", "oxum": True, "sep": "  "}
        x = os.path.join(j.w.dir("extra"), s["name"])
        if not os.path.exists(x):
            x = bags.write_bag(s, j.w.dir("extra"))
        at = n // 4 % (len(c.get("adds", [])) + 1)
        v = dict(c, adds=c.get("adds", [])[:at] + [{"bag": s, "o": {}}] + c.get("adds", [])[at:])
        p = dict(p, adds=p["adds"][:at] + [x] + p["adds"][at:])
    elif n % 3 == 0:
        v = dict(c, adds=[], version="7")
    elif n % 3 == 1:        # everything that there is goes into the lookup
        v = dict(c, opts={"pid": "http://y/z", "comment": "first try",
                          "include": ["data", "metadata"]},
                 adds=[dict(x, o={"include": ["data", "metadata"]}) for x in c.get("adds", [])])
    else:
        v = dict(c, adds=[dict(x, o={"comment": "was wrong"}) for x in c.get("adds", [])], opts={})
    return lambda: amd.perform(v, p, sut)


def execute(case, w):
    env = case.get("env")
    j = Job(case, w)
    j.setup()
    before = j.others()
    base = run(w, j.fn, env=env, record=True)
    expect_ok(base, "amend")
    for kills in case.get("kills", []):
        j.setup()
        for k in kills:
            fn, fl = j.fn, engine.resolve([k], base.ctx.events)
            if "other" in k:
                fn = another(j, k["other"])
                fl = [] if k["pos"] > 1 else [{"at": f["at"], "do": f["do"]} for f in fl]
                w.probe("other_first")
            out = run(w, fn, env=env, faults=fl)
            need(out.kind != "hang", "hang", out.desc())
            if out.kind == "crash":
                w.probe("crashed")
            need(j.others() == before, "others-changed", "a killed amendment changed other bags")
        out = run(w, j.fn, env=env)
        if out.ok:
            try:
                amd.check_head(bags.read_tree(j.target), j.spec, j.exp, need, fullinfo=False)
            except (Violation, bags.Unreadable) as ex:
                raise Violation("redo-differs", "redone after a crash at %r: %s" %
                                (kills, ex))
            w.probe("redone")
        else:
            raise Violation("redo-refused", "after %r: %s" % (kills, out.desc()))
        need(j.others() == before, "others-changed", "the redone amendment changed other bags")
