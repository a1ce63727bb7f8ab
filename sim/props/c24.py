"""C24: a split plan gives a true account of itself"""
from .. import gen, bags, sut, engine, seam
from ..common import *

ERRS = ["EIO", "EACCES", "ESTALE", "EMFILE"]


def generate(rng, tier):
    spec = gen.bag(rng, nmax=8, big=False)
    o = gen.split_opts(rng, spec)
    o.pop("nopass", None)
    case = {"bag": spec, "split": o, "start": "splitter" if o["kind"] != "plan" and
            rng.random() < 0.5 else "empty", "env": gen.env(rng), "ops": []}
    if case["start"] == "empty":
        o.pop("names", None)
        o.update(kind="plan", by=gen.ch(rng, ["path", "bag", "robag", "packed"]),
                 form=gen.ch(rng, ["zip", "tgz"]))
    case["env"].pop("clock", None)
    paths = sorted(spec["files"]) + sorted(spec["dirs"])
    n = 0
    for _ in range(rng.randrange(3, 10)):
        r = rng.random()
        if r < 0.3:
            g = [p for p in paths if rng.random() < 0.4]
            if rng.random() < 0.2:
                g.append(gen.ch(rng, ["data/nowhere", "no such tag", "data"]))
            rng.shuffle(g)
            case["ops"].append({"do": "assign", "paths": g, "name": "g%d" % n})
            n += 1
        elif r < 0.42:
            case["ops"].append({"do": "complete"})
        elif r < 0.6:
            case["ops"].append({"do": "name", "reverse": rng.random() < 0.5,
                                "n": 50 if rng.random() < 0.7 else rng.randrange(0, 4),
                                "stem": "n%d_" % len(case["ops"])})
        elif r < 0.68:
            case["ops"].append({"do": "tamper"})
        elif r < 0.76:
            case["ops"].append({"do": gen.ch(rng, ["drop", "take"]), "i": rng.randrange(100)})
        else:
            case["ops"].append({"do": "query"})
        if rng.random() < 0.3:
            case["ops"][-1]["fault"] = {"pos": rng.random(), "do": gen.ch(rng, ERRS),
                                        "k": gen.ch(rng, ["list", "list", "open_r", "read"])}
    if rng.random() < 0.4:
        case["ops"].append({"do": "complete"})
    case["apply"] = rng.random() < 0.7
    return case


def desc(plan):
    return [(m.get("name"), list(m["contents"]), bool(m["ishead"])) for m in plan.manifests()]


def query(plan, paths):
    dest = {}
    for p in paths:
        m = plan.find_destination(p)
        dest[p] = None if m is None else (m.get("name"), list(m["contents"]))
    return {"required": list(plan.required()), "missing": list(plan.missing()),
            "complete": plan.is_complete(), "dest": dest, "desc": desc(plan)}


class Proc(object):
    """one simulated process in which a plan lives while several calls are made"""

    def __init__(self, w, env):
        self.ctx = w.ctx(env, record=True)

    def __call__(self, fn, *a, **k):
        c, faults = self.ctx, k.pop("faults", ())
        self.start, nf = c.n, len(c.fired)
        for f in faults:
            c.faults[c.n + f["at"]] = f
        try:
            with seam.active(c):
                out = sut.Out("ok", fn(*a), None, c)
        except seam.SimCrash:
            raise RuntimeError("no crash was asked for")
        except seam.SimHang as ex:
            out = sut.Out("hang", None, ex, c)
        except Exception as ex:
            ex.__traceback__ = None
            out = sut.Out("raise", None, ex, c)
        c.faults.clear()
        out.fired = [x for x in c.fired[nf:] if x[0] != "link_refused"]
        out.events = c.events[self.start:]
        return out


def check_names(o, names, srcname):
    """the names of a splitter's output bags: those asked for, or made from the given or default base"""
    if o.get("names"):
        need(names == o["names"][:len(names)], "names", "the bags are named %r, asked for were %r" %
             (names, o["names"][:len(names)]))
        return
    base = o.get("base") or os.path.splitext(srcname)[0]
    need(all(n.startswith(base) for n in names) and len(set(names)) == len(names), "names",
         "the bags are named %r, the base name is %r" % (names, base))


def execute(case, w):
    spec, o, env = case["bag"], case["split"], case.get("env")
    run = Proc(w, env)
    try:
        _execute(case, w, run)
    finally:
        w.note(run.ctx)
        run.ctx.dead = True


def _execute(case, w, run):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    tree = bags.build(spec)
    files = set(bags.payload(tree)) | set(bags.extras(tree))
    dirs = set(d for d in bags.empty_dirs(tree) if d != "data")
    want = files | dirs
    if case.get("start") == "splitter":
        base = run(sut.make_plan, src, o)
        plan = expect_ok(base, "plan")
        model = [[n, c] for n, c, h in expect_ok(run(desc, plan), "describe")]
        got = set(x for n, c in model for x in c)
        need(want <= got | set(["data"]), "plan-incomplete", "not in the plan: %r" %
             sorted(want - got)[:4])
        check_names(o, [n for n, c in model], os.path.basename(src))
    else:
        def new():
            by = o.get("by", "path")
            s = src if by in ("path", "packed") else sut.mbagit.Bag(src) if by == "bag" else \
                sut.mbagit.open_bag(src)
            return sut.msplit.SplitPlan(s)
        plan = expect_ok(run(new), "plan")
        model = []
    bagname = [None]

    def missing():
        got = set(x for n, c in model for x in c)
        return want - got

    def check(q):
        for k, exp in (("required", want), ("missing", missing())):
            l = [p for p in q[k] if p != "data"]
            need(len(set(l)) == len(l), k, "%s() repeats itself: %r" % (k, l))
            need(set(l) == exp, k, "%s() gives %r, expected %r" % (k, sorted(l), sorted(exp)))
        only = [p for p in q["missing"] if p == "data"]
        need(q["complete"] == (not missing() and not only), "complete", "is_complete() is %r, %d paths "
             "are missing" % (q["complete"], len(missing())))
        need(q["desc"] == [(n, c, i == len(model) - 1) for i, (n, c) in enumerate(model)], "manifests",
             "manifests() gives %r, expected %r" % (q["desc"], model))
        for p, d in q["dest"].items():
            exp = None
            for n, c in model:
                if p in c:
                    exp = (n, c)
            need(d == exp, "destination", "find_destination(%r) gives %r, expected %r" % (p, d, exp))

    asked = sorted(want) + ["data/nowhere", "no such tag", "bagit.txt"] + \
        sorted(set(os.path.dirname(p) for p in want) - want - set(["", "data"]))
    for k, op in enumerate(case.get("ops", []) + [{"do": "query"}]):
        do = op["do"]
        if do == "assign":
            m = {"name": op["name"], "contents": list(op["paths"])}
            plan._manifests.append(m)
            model.append([op["name"], list(op["paths"])])
            continue
        if do in ("drop", "take"):           # the planner changes its mind
            if model:
                i = op.get("i", 0) % len(model)
                if do == "drop":
                    del plan._manifests[i], model[i]
                elif model[i][1]:
                    x = op.get("i", 0) % len(model[i][1])
                    del plan._manifests[i]["contents"][x], model[i][1][x]
                w.probe("revised")
            continue
        if do == "complete":
            fn, a = plan.complete_plan, ()
        elif do == "name":
            names = [op["stem"] + str(i) for i in range(op.get("n", 50))]
            fn, a = plan.name_output_bags, (iter(names), bool(op.get("reverse")))
        elif do == "tamper":
            def fn():
                for m in plan.manifests():
                    m["contents"].append("data/slipped in")
                    m["name"] = "renamed"
                    m["ishead"] = True
            a = ()
        else:
            fn, a = query, (plan, asked)
        faults = ()
        if op.get("fault") and do in ("query", "complete"):
            # numbered on a query, which reads the same
            base = run(query, plan, asked)
            expect_ok(base, "query")
            faults = engine.resolve([op["fault"]], base.events)
        out = run(fn, *a, faults=faults)
        need(out.kind in ("ok", "raise"), "hang", out.desc())
        if not out.ok and out.fired:
            w.probe("reported")
            check(expect_ok(run(query, plan, asked), "query"))
            continue
        if do == "name":
            order = list(reversed(model)) if op.get("reverse") else model
            for m, n in zip(order, names):
                m[0] = n
            if len(names) < len(model):
                need(not out.ok and isinstance(out.exc, RuntimeError), "names-exhausted",
                     "%d names for %d bags: %s" % (len(names), len(model), out.desc()))
                w.probe("exhausted")
                continue
        expect_ok(out, do)
        if do == "complete":
            ms = missing()
            q = expect_ok(run(desc, plan), "describe")
            extra = q[len(model):]
            got = [p for n, c, h in extra for p in c if p != "data"]
            need(sorted(got) == sorted(ms), "completion", "complete_plan() added %r, missing were %r" %
                 (got, sorted(ms)))
            for n, c, h in extra:
                model.append([n, list(c)])
            check(expect_ok(run(query, plan, asked), "query"))
            need(not missing(), "completion", "still missing: %r" % sorted(missing())[:4])
            w.probe("completed")
        elif do == "query":
            check(out.value)
            w.probe("query")
    if not case.get("apply"):
        return
    outdir = w.dir("out")
    if len(set(n for n, c in model)) != len(model) or any(n is None for n, c in model):
        names = iter(["u%d" % i for i in range(len(model))])
        expect_ok(run(plan.name_output_bags, names), "name")
        for i, m in enumerate(model):
            m[0] = "u%d" % i
    pieces = expect_ok(run(lambda: list(plan.apply_iter(outdir, logger=sut.LOG if len(model) % 2 else None))), "apply")
    need([os.path.basename(p) for p in pieces] == [n for n, c in model], "applied-names",
         "bags written: %r, planned: %r" % (pieces, [n for n, c in model]))
    for p, (n, c) in zip(pieces, model):
        t = bags.read_tree(p)
        got = set(x for x in set(bags.payload(t)) | set(bags.extras(t)) if x in files)
        need(got == set(x for x in c if x in files), "applied-content", "%s has %r, planned was %r" %
             (n, sorted(got), sorted(c)))
        d = diff_trees({x: tree[x] for x in got}, {x: t[x] for x in got})
        need(not d, "applied-content", "; ".join(d))
        for x in c:
            need(x not in dirs or x in t, "applied-content", "%s lacks the directory %s" % (n, x))
    if pieces:
        lu = dict(bags.lookup(bags.read_tree(pieces[-1])))
        for f in files:
            exp = [n for n, c in model if f in c]
            need(lu.get(f) == (exp[-1] if exp else None), "applied-lookup", "the lookup has %r for %s, "
                 "the plan said %r" % (lu.get(f), f, exp[-1:]))
        w.probe("applied")
