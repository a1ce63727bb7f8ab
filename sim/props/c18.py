"""C18: stepwise splitting survives the caller moving finished pieces away"""
from .. import gen, bags, sut, engine, seam
from ..common import *
from .c02 import make_head_source, check_pieces
from .c04 import ERRS, KINDS

ACTS = ["none", "pack", "packaway", "move", "moveout", "delete", "info", "manifest", "drop", "replace",
        "add", "resave", "chdir", "emptydirs", "stash", "read"]
FORMS = ["zip", "tar", "tgz", "tar.bz2"]


def generate(rng, tier):
    spec = gen.bag(rng, nmax=10 if tier == "thorough" else 8, big=False)
    spec["files"] = {p: c for p, c in spec["files"].items() if not p.startswith("multibag/")}
    case = {"bag": spec, "env": gen.env(rng)}
    if rng.random() < 0.3:
        case["head"] = make_head_source(rng, spec)
    o = gen.split_opts(rng, spec)
    if rng.random() < 0.5:
        o["max"] = max(1, o["max"] // 3)
    if o.get("target"):
        o["target"] = min(o["target"], o["max"])
    o.pop("names", None)
    case["split"] = o
    r = rng.random()
    if r < 0.7:
        case["naming"] = {"how": gen.ch(rng, ["list", "gen", "namer", "class"]),
                          "n": gen.ch(rng, [0, 1, 1, 2, 3, 5, 20, 40])}
        if case.get("head") and rng.random() < 0.25:
            case["naming"]["old"] = rng.randrange(3)
    case["acts"] = [[[gen.ch(rng, ACTS), rng.random()] for _ in range(gen.ch(rng, [0, 1, 1, 1, 2, 3]))]
                    for _ in range(rng.randrange(1, 8))]
    if rng.random() < 0.35:
        case["twin"] = {"same": rng.random() < 0.6, "ahead": [rng.randrange(3) for _ in range(6)]}
    if rng.random() < 0.5:
        case["faults"] = [{"pos": rng.random(), "k": gen.ch(rng, KINDS), "do": gen.ch(rng, ERRS)}
                          for _ in range(3)]
        if rng.random() < 0.3:
            case["faults"][0].update(sticky=1)
    return case


def names_of(case):
    n = case.get("naming")
    if not n:
        return None
    if n["how"] == "namer":
        return ["sn_%d.mbag" % (i + 1) for i in range(60)]
    out = ["st\u00e9p %d.x" % i for i in range(n["n"])]
    if "old" in n and case.get("head"):
        mem = case["head"]["members"]
        k = n["old"] % len(mem)
        if out:
            out[-1] = mem[k]
    return out


class Cls(object):
    def __init__(self, names):
        self.names = list(names)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.names:
            raise StopIteration()
        return self.names.pop(0)


def naming(case):
    ns = names_of(case)
    if ns is None:
        return None
    how = case["naming"]["how"]
    if how == "namer":
        return sut.msplit.SimpleNamer("sn")
    if how == "gen":
        return (x for x in ns)
    if how == "class":
        return Cls(ns)
    return iter(ns)


class Stepper(object):
    """drives one apply_iter; the simulated process only runs inside next()"""

    def __init__(self, src, outdir, case, ctx, plan=None):
        self.ctx = ctx
        if plan is None:
            with seam.active(ctx):
                plan = sut.make_plan(src, case["split"])
                self.names = [m["name"] for m in plan.manifests()]
        self.plan = plan
        self.start = ctx.n
        self.given = []
        self.it = plan.apply_iter(outdir, naming(case), case["split"].get("nopass"),
                                  sut.LOG if case["split"].get("log") else None)
        self.done = False

    def next(self):
        """("ok", path) | ("end", None) | ("raise", exc)"""
        c = self.ctx
        try:
            with seam.active(c):
                p = next(self.it)
            self.given.append(p)
            return "ok", p
        except StopIteration:
            self.done = True
            return "end", None
        except seam.SimHang as ex:
            return "hang", ex
        except Exception as ex:
            self.done = True
            return "raise", ex


def act(w, path, what, r, n):
    """what the caller does with a finished bag (never through the seam, never writing into a file
    that may be a hard link to the source)"""
    name = os.path.basename(path)
    files = sorted(p for d, s, f in os.walk(path) for p in [os.path.join(d, x) for x in f]) \
        if os.path.isdir(path) else []
    own = [f for f in files if os.path.basename(f) != "bagit.txt"]
    pick = own[min(len(own) - 1, int(r * len(own)))] if own else None
    if what == "chdir":
        os.chdir(w.dir("elsewhere"))
        return
    if what == "read":
        if os.path.isdir(path):
            try:
                sut.mbagit.open_bag(path).validate()
                list(sut.mbagit.Bag(path).payload_files())
            except Exception:
                pass                 # the caller may have spoilt it before
        return
    if what == "stash":
        d = os.path.join(os.path.dirname(path), "notes")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "n%d" % n), "w") as fd:
            fd.write("x")
        return
    if not os.path.isdir(path):
        return
    if what == "pack":
        bags.pack(path, FORMS[int(r * len(FORMS))])
    elif what == "packaway":
        f = FORMS[int(r * len(FORMS))]
        bags.pack(path, f, dest=os.path.join(w.dir("away"), "%d-%s.%s" % (n, name, f)))
    elif what == "move":
        d = os.path.join(os.path.dirname(path), "done")
        os.makedirs(d, exist_ok=True)
        os.rename(path, os.path.join(d, "%d-%s" % (n, name)))
    elif what == "moveout":
        os.rename(path, os.path.join(w.dir("away"), "%d-%s" % (n, name)))
    elif what == "delete":
        bags.rmtree(path)
    elif what == "info":
        p = os.path.join(path, "bag-info.txt")
        if os.path.isfile(p):
            with open(p, "a") as fd:
                fd.write("Contact-Name: the caller\nExternal-Identifier: mine\n")
    elif what == "manifest":
        for p in sorted(os.listdir(path)):
            if p.startswith("manifest-") and bags.ROOT_SPECIAL.match(p):
                with open(os.path.join(path, p), "w") as fd:
                    fd.write("0" * 64 + " data/not there\n")
    elif what == "drop":
        if pick:
            os.unlink(pick)
    elif what == "replace":
        if pick:
            os.unlink(pick)
            with open(pick, "wb") as fd:
                fd.write(b"replaced by the caller")
    elif what == "add":
        with open(os.path.join(path, "data", "added by the caller"), "wb") as fd:
            fd.write(b"more")
    elif what == "resave":
        try:
            b = sut.mbagit.Bag(path)
            b.info["X-Caller"] = "saved"
            b.save(manifests=True)
        except Exception:
            pass
    elif what == "emptydirs":
        os.makedirs(os.path.join(path, "data", "e", "e2"), exist_ok=True)


def world(w):
    return {p: v for p, v in bags.snap(w.root).items() if not p.startswith("tmp/")}


def changed(before, after, new):
    """paths that differ outside the new bag"""
    out = []
    for p in sorted(set(before) | set(after)):
        if p == new or p.startswith(new + "/"):
            continue
        if before.get(p, 0) != after.get(p, 0):
            out.append(p)
    return out[:4]


def execute(case, w):
    spec, o = case["bag"], case["split"]
    src = put_source(w, spec, o)
    env = case.get("env")
    # the reference: nothing is touched between the steps
    outdir = w.dir("out")
    ctx = w.ctx(env, record=True)
    s = Stepper(src, outdir, case, ctx)
    pnames = s.names
    while True:
        k, v = s.next()
        if k != "ok":
            break
    need(k == "end", "split-failed", repr(v))
    w.note(ctx)
    given = names_of(case)
    exp = pnames if given is None else (given + pnames[len(given):])[:len(pnames)]
    got = [os.path.basename(p) for p in s.given]
    if len(set(exp)) != len(exp):
        return
    need(got == exp, "names", "bags named %r, expected %r" % (got, exp))
    check_pieces(w, case, s.given, bags.build(spec), "ref")
    ref = [bags.read_tree(p) for p in s.given]
    # only the operations of the steps themselves are failed
    events, start = ctx.events[s.start:], s.start
    w.probe("pieces_%d" % min(5, len(ref)))
    if given is not None and len(given) < len(pnames):
        w.probe("names_ran_out")
    bags.rmtree(outdir)

    # the caller interferes
    interfere(w, case, src, env, exp, ref, [])
    if not events:
        return
    for f in case.get("faults", []):
        fl = engine.resolve([f], events)
        for g in fl:
            for k in ("at", "from"):
                if k in g:
                    g[k] += start
        interfere(w, case, src, env, exp, ref, fl)


def interfere(w, case, src, env, names, ref, faults):
    outdir = w.dir("out")
    for d in ("out", "out2", "away", "elsewhere"):
        bags.rmtree(w.path(d))
    os.mkdir(outdir)
    ctx = w.ctx(env, faults)
    s = Stepper(src, outdir, case, ctx)
    twin = None
    if case.get("twin") and not faults:
        twin = Stepper(src, w.dir("out2"), case, w.ctx(env),
                       s.plan if case["twin"].get("same") else None)
        w.probe("twin")
    acts = case.get("acts") or [[]]
    i = 0
    while True:
        if twin:
            ah = case["twin"].get("ahead") or [1]
            for _ in range(ah[i % len(ah)]):
                stepped(w, twin, names, ref, "out2", None)
        nf = len([x for x in ctx.fired if x[0] not in ("link_refused", "clock_jump")])
        k = stepped(w, s, names, ref, "out", nf)
        if k != "ok":
            break
        for what, r in acts[i % len(acts)]:
            act(w, s.given[-1], what, r, i)
            w.probe("act_" + what)
        i += 1
    w.note(ctx)
    if twin:
        while not twin.done:
            stepped(w, twin, names, ref, "out2", None)
        w.note(twin.ctx)
    os.chdir(w.path("home"))


def stepped(w, s, names, ref, where, nf):
    """one step and its checks"""
    if s.done:
        return "end"
    i = len(s.given)
    before = world(w)
    k, v = s.next()
    after = world(w)
    fired = [x for x in s.ctx.fired if x[0] not in ("link_refused", "clock_jump")]
    new = where + "/" + names[i] if i < len(names) else "\0"
    ch = changed(before, after, new)
    need(not ch, "touched", "step %d touched %r (new bag: %s)" % (i + 1, ch, new))
    if k == "end":
        need(i == len(names), "too-few", "the split ended after %d of %d bags" % (i, len(names)))
    elif k == "raise":
        need(nf is not None and len(fired) > nf, "late-report",
             "step %d raised %s: %s although nothing failed in it (earlier: %r)" %
             (i + 1, type(v).__name__, sut.clean(str(v)), fired[:3]))
        w.probe("reported")
    elif k == "hang":
        need(False, "hang", "step %d" % (i + 1))
    else:
        need(i < len(names), "too-many", "a bag too many: %s" % v)
        need(os.path.relpath(v, w.root) == new, "names", "step %d gave %s, expected %s" %
             (i + 1, os.path.relpath(v, w.root), new))
        d = diff_trees(ref[i], bags.read_tree(v))
        need(not d, "silent-loss" if nf is not None and len(fired) > nf else "differs",
             "step %d (%s) differs from the undisturbed split: %s %r" %
             (i + 1, names[i], "; ".join(d), fired[:2]))
        if nf is not None and len(fired) > nf:
            w.probe("tolerated")
    return k
