"""C20: concurrent jobs on a shared bag store do not disturb one another"""
from .. import gen, bags, agg, amd, sut, engine, seam
from ..common import *
from ..sched import Sched
from .c02 import issues

FORMS = ["dir", "dir", "zip", "tar", "tgz"]
KINDS = ["split", "split", "restore", "restore", "amend", "amend", "validate", "convert", "inspect",
         "inplace"]


def generate(rng, tier):
    a = agg.generate(rng, nmem=3, npool=5)
    spec = gen.bag(rng, name="the source", nmax=5, big=False)
    pool = sorted(gen.payload_paths(rng, 4).files)
    n = rng.randrange(2, 5)
    jobs = []
    first = gen.ch(rng, KINDS)
    for i in range(n):
        k = first if rng.random() < 0.4 else gen.ch(rng, KINDS)
        j = {"do": k, "env": gen.env(rng)}
        j["env"].pop("clock", None)
        if k == "split":
            o = gen.split_opts(rng, spec)
            o.pop("names", None)
            o["base"] = "j%d" % i
            if o.get("by") == "packed":
                o["by"] = "path"
            j["split"] = o
        elif k == "amend":
            j["newhead"] = amd.sub_bag(rng, "new head %d" % i, pool)
            j["adds"] = rng.random() < 0.5
        elif k == "convert":
            j["newhead"] = amd.sub_bag(rng, "conv%d" % i, pool)
        elif k == "inplace":
            j["name"] = "x"
        j["rel"] = rng.random() < 0.3
        jobs.append(j)
    dense = rng.random() < 0.5
    m = rng.randrange(40, 400) if dense else rng.randrange(1, 12)
    c = {"agg": a, "bag": spec, "add": amd.sub_bag(rng, "shared add", pool), "jobs": jobs,
         "forms": [gen.ch(rng, FORMS) for _ in a["members"]], "order": rng.randrange(1 << 30),
         "headform": gen.ch(rng, ["dir", "dir", "zip"]), "onedir": rng.random() < 0.5,
         "switch": [[round(rng.random(), 4), rng.randrange(n)] for _ in range(m)]}
    if rng.random() < 0.5:
        c["fault"] = {"who": rng.randrange(n), "pos": rng.random(),
                      "do": gen.ch(rng, ["crash", "crash", "EIO", "ENOSPC"])}
        if rng.random() < 0.3 and c["fault"]["do"] != "crash":
            c["fault"]["sticky"] = 1
    return c


class Setup(object):
    def __init__(self, w, case):
        self.w, self.case = w, case
        a = case["agg"]
        self.store = w.dir("store")
        self.paths = agg.write(a, self.store, case.get("forms"), case.get("order"), True,
                               case.get("headform", "dir"))
        self.head = self.paths[-1]
        self.src = bags.write_bag(case["bag"], self.store)
        self.add = bags.write_bag(case["add"], self.store)
        self.jobs = [self.job(i, j) for i, j in enumerate(case["jobs"])]
        for b in self.jobs:
            b["prep"]()

    def job(self, i, j):
        w, case = self.w, self.case
        home = w.dir("home%d" % i)
        out = self.store if case.get("onedir") else w.dir("out%d" % i)
        do = j["do"]
        prep = lambda: None                                   # noqa
        own = lambda: []                                      # noqa

        def P(p):
            return os.path.relpath(p, home) if j.get("rel") else p
        if do == "split":
            def fn():
                return [os.path.basename(x) for x in sut.do_split(P(self.src), P(out), j["split"])]

            def own():
                pre = "j%d_" % i
                return [os.path.join(out, x) for x in sorted(os.listdir(out)) if x.startswith(pre)]
        elif do == "restore":
            t = os.path.join(out, "restored%d" % i)

            def fn():
                sut.do_restore(P(self.head), P(t))

            def own():
                return [t]
        elif do == "inplace":
            hd = w.dir("heads%d" % i)
            t = os.path.join(hd, case["agg"]["members"][-1]["name"])

            def prep():
                bags.write_bag(agg.specs(case["agg"])[-1], hd)

            def fn():
                sut.do_restore(P(t), None, P(self.store))

            def own():
                return [t]
        elif do in ("amend", "convert"):
            t = os.path.join(out, j["newhead"]["name"])

            def prep():
                bags.write_bag(j["newhead"], out)

            def fn():
                if do == "convert":
                    return sut.do_convert(P(t), "3", "ark:/1/x")
                sut.do_amend(P(self.head), P(t), "2", [{"path": P(self.add)}] if j.get("adds") else [])

            def own():
                return [t]
        elif do == "validate":
            def fn():
                out = []
                for p in self.paths + [self.src]:
                    try:
                        sut.mbagit.open_bag(P(p)).validate()
                        out.append(True)
                    except sut.lib_bagit.BagError as ex:
                        out.append(sut.clean(str(ex)))
                out.append(issues(sut.vhead.HeadBagValidator, P(self.head)))
                out.append(issues(sut.vmember.MemberBagValidator, P(self.src)))
                return out
        else:
            def fn():
                h = sut.mmb.open_headbag(P(self.head))
                return [[str(m) for m in h.member_bag_names], sorted(h.files_in_member(h.name)),
                        sorted(h.deleted_paths()), sut.mmb.is_headbag(P(self.src)),
                        sorted(sut.mbagit.Bag(P(self.src)).payload_files())]
        return {"fn": fn, "own": own, "prep": prep, "home": home, "i": i}

    def outputs(self, b):
        return {os.path.relpath(p, self.w.root): bags.read_tree(p) for p in b["own"]()}

    def reset(self, b):
        for p in b["own"]():
            bags.rmtree(p)
        b["prep"]()

    def shared(self):
        own = [os.path.relpath(p, self.w.root) for b in self.jobs for p in b["own"]()]
        return {p: v for p, v in bags.snap(self.w.root).items() if p.split("/")[0] != "tmp" and
                not any(p == o or p.startswith(o + "/") for o in own)}


def execute(case, w):
    n = len(case["jobs"])
    s = Setup(w, case)
    shared0 = s.shared()
    solo, total = [], 0
    evs = []
    for b, j in zip(s.jobs, case["jobs"]):
        seam.R["chdir"](b["home"])
        out = run(w, b["fn"], env=j.get("env"), record=True)
        seam.R["chdir"](w.path("home"))
        solo.append((out.kind, out.value if out.ok else type(out.exc).__name__, s.outputs(b)))
        w.probe("job_" + j["do"])
        w.probe("solo_" + out.kind)
        if out.kind == "raise" and not j.get("rel"):
            raise Violation("job-failed", "%s alone: %s" % (j["do"], out.desc()))
        total += out.ctx.n
        evs.append(out.ctx.events)
        s.reset(b)

    sh = s.shared()
    need(sh == shared0, "input-changed", "the jobs, one after another, changed %r" % (
        [p for p in sorted(set(shared0) | set(sh)) if shared0.get(p, 0) != sh.get(p, 0)][:4]))

    f = case.get("fault")
    who = None
    sw = sorted([int(x * total), k] for x, k in case.get("switch", []))
    sched = Sched(sw)
    ctxs = []
    for b, j, ev in zip(s.jobs, case["jobs"], evs):
        faults = []
        if f and f["who"] % n == b["i"] and ev:
            who = b["i"]
            faults = engine.resolve([{k: v for k, v in f.items() if k != "who"}], ev)
        ctx = w.ctx(j.get("env"), faults)
        ctxs.append(ctx)
        sched.add(ctx, b["fn"], b["home"])
    sched.run()
    for c in ctxs:
        w.note(c)
    w.trace.append(repr(sched.log))
    w.probe("switches", sched.made)
    w.stats["switches"] = w.stats.get("switches", 0) + sched.made
    for b, jb, j in zip(s.jobs, sched.jobs, case["jobs"]):
        if b["i"] == who and jb.ctx.fired:
            w.probe("victim_" + str(jb.kind))
            continue
        kind, val, outs = solo[b["i"]]
        got = jb.value if jb.kind == "ok" else type(jb.exc).__name__
        need(jb.kind == kind and got == val, "result-differs", "%s: %s %r (%s), alone %s %r" %
             (j["do"], jb.kind, got, sut.clean(str(jb.exc)), kind, val))
        o2 = s.outputs(b)
        need(sorted(o2) == sorted(outs), "output-differs", "%s wrote %r, alone %r" %
             (j["do"], sorted(o2), sorted(outs)))
        for p in outs:
            d = diff_trees(outs[p], o2[p])
            need(not d, "output-differs", "%s, %s: %s" % (j["do"], p, "; ".join(d)))
    sh = s.shared()
    need(sh == shared0, "input-changed", "changed: %r" %
         [p for p in sorted(set(sh) | set(shared0)) if sh.get(p, 0) != shared0.get(p, 0)][:4])
