"""C23: a restore can be carried out member by member"""
from .. import gen, bags, agg, sut, engine
from ..common import *
from .c04 import fault_list
from .c08 import FORMS
from .c12 import kills


def generate(rng, tier):
    a = agg.generate(rng, nmem=4, npool=7, v02=True)
    for m in a["members"]:
        m.pop("enc", None)
    n = len(a["members"])
    r = rng.random()
    if r < 0.25:
        steps = [{"m": i} for i in reversed(range(n))]
        steps = steps[:rng.randrange(1, n + 1)]
        end = gen.ch(rng, ["restore", "restore", None])
    elif r < 0.45:
        steps, end = [{"m": i, "over": True} for i in range(n)], None
    elif r < 0.6:
        steps, end = [], "keep"
    else:
        steps = [{"m": rng.randrange(n), "over": rng.random() < 0.5}
                 for _ in range(rng.randrange(1, 6))]
        end = None
    skip = []
    if rng.random() < 0.5:
        cand = sorted(set(p for m in a["members"] for p in list(m["files"]) + m["dirs"]))
        cand += [os.path.dirname(p) for p in cand if os.path.dirname(p) not in ("", "data")]
        if cand:
            skip = sorted(set(gen.ch(rng, cand) for _ in range(rng.randrange(1, 4))))
    case = {"agg": a, "steps": steps, "end": end, "skip": skip,
            "forms": [gen.ch(rng, FORMS) for _ in a["members"]] if rng.random() < 0.5 else [],
            "headform": gen.ch(rng, ["dir", "dir", "zip"]), "order": rng.randrange(1 << 30),
            "fetch": None, "collect": rng.random() < 0.4, "env": gen.env(rng),
            "skipkind": gen.ch(rng, ["list", "list", "set", "none" if not skip else "list"])}
    case["env"].pop("clock", None)
    if rng.random() < 0.35 and end is None:
        ms = [i for i in range(n) if rng.random() < 0.7]
        rng.shuffle(ms)
        case["fetch"] = {"members": gen.ch(rng, [None, ms]), "skip": rng.random() < 0.6}
    if rng.random() < 0.5:
        case["faults"] = fault_list(rng, 2) if rng.random() < 0.6 else [[k] for k in kills(rng, 2)]
        case["at"] = rng.random()
    return case


def under(p, skip):
    return any(p == s or p.startswith(s + "/") for s in skip)


class Model(object):
    """what should be at the destination"""

    def __init__(self):
        self.files, self.dirs, self.ent = {}, set(), {}

    def add(self, tree, skip, over):
        new = set()
        for p, v in tree.items():
            if under(p, skip):
                continue
            if v is None:
                self.dirs.add(p)
            elif not bags.ROOT_SPECIAL.match(p) or p in ("bagit.txt", "bag-info.txt", "fetch.txt"):
                if over or p not in self.files:
                    self.files[p] = v
                    new.add(p)
        ent = {}
        for alg, e in bags.entries(tree).items():
            for p, h in e.items():
                ent.setdefault(p, {})[alg] = h
        for p in ent:
            if p not in self.ent or (over and p in new):
                self.ent[p] = ent[p]
        self.ent = {p: e for p, e in self.ent.items() if not under(p, skip)}

    def copy(self):
        m = Model()
        m.files, m.dirs, m.ent = dict(self.files), set(self.dirs), dict(self.ent)
        return m

    def check(self, tree, what, fetch=True):
        mine = {p: v for p, v in tree.items() if v is not None and not
                (bags.ROOT_SPECIAL.match(p) and p not in ("bagit.txt", "bag-info.txt", "fetch.txt"))}
        files = dict(self.files)
        if not fetch:
            mine.pop("fetch.txt", None)
            files.pop("fetch.txt", None)
        d = diff_trees(files, mine)
        need(not d, what + "-files", "; ".join(d))
        gd = set(p for p, v in tree.items() if v is None)
        need(gd == self.dirs, what + "-dirs", "directories: missing %r, unexpected %r" % (
            sorted(self.dirs - gd)[:4], sorted(gd - self.dirs)[:4]))
        ent = {}
        for alg, e in bags.entries(tree).items():
            for p, h in e.items():
                ent.setdefault(p, {})[alg] = h
        bad = [(p, self.ent.get(p), ent.get(p)) for p in sorted(set(ent) | set(self.ent))
               if ent.get(p) != self.ent.get(p)]
        need(not bad, what + "-manifest", "payload manifests (path, expected, got): %r" % bad[:3])


def parse_fetch(data):
    out = {}
    for l in bags.lines(data or b"", "fetch.txt"):
        f = l.strip().split(None, 2)
        if len(f) == 3:
            out[f[2]] = (f[0], f[1])
    return out


def execute(case, w):
    a, env = case["agg"], case.get("env")
    ms = a["members"]
    trees = [bags.build(s) for s in agg.specs(a)]
    paths = agg.write(a, w.dir("store"), case.get("forms"), case.get("order"), True,
                      case.get("headform", "dir"))
    before = bags.snap(w.path("store"))
    head = paths[-1]
    dest = os.path.join(w.dir("res"), "restored")
    skip = list(case.get("skip") or [])
    end = case.get("end")
    if end == "restore":
        skip = list(a.get("deleted", []))
    given = skip if case.get("skipkind") != "set" else set(skip)
    if case.get("skipkind") == "none" and not skip:
        given = None
    steps = [s for s in case.get("steps", []) if s["m"] < len(ms)]

    def one(i, over, acc):
        r = sut.mrestore.BagRestorer(head, dest)
        kw = {"overwrite": True} if over else {}
        if acc is not None:
            kw["fetch"] = acc
        r.restore_member(ms[i]["name"], given, **kw)
        return acc

    model, acc, wantacc = Model(), ({} if case.get("collect") else None), {}
    faulty = int(case.get("at", 0) * len(steps)) if case.get("faults") and steps else None
    for k, s in enumerate(steps):
        over = bool(s.get("over"))
        after = model.copy()
        after.add(trees[s["m"]], skip, over)
        if k == faulty:
            keep = dest + ".keep"
            if os.path.exists(dest):
                copy_tree(dest, keep)
            base = run(w, one, s["m"], over, None, env=env, record=True)
            expect_ok(base, "step")
            for fl in case["faults"]:
                bags.rmtree(dest)
                if os.path.exists(keep):
                    copy_tree(keep, dest)
                out = run(w, one, s["m"], over, None, env=env,
                          faults=engine.resolve(fl, base.ctx.events))
                need(out.kind != "hang", "hang", out.desc())
                need(bags.snap(w.path("store")) == before, "store-changed", "the store changed")
                if out.ok:
                    try:
                        after.check(bags.read_tree(dest), "step")
                    except (Violation, bags.Unreadable) as ex:
                        raise Violation("silent-loss", "the step returned normally after %r but %s"
                                        % (out.ctx.fired[:3], ex))
                    w.probe("tolerated")
                    continue
                w.probe("crashed" if out.kind == "crash" else "reported")
                # begin again, in the same place
                full = Model()
                redo = None
                for i in range(len(ms)):
                    full.add(trees[i], skip, True)
                    redo = run(w, one, i, True, None, env=env)
                    need(redo.kind in ("ok", "raise"), "hang", redo.desc())
                    if not redo.ok:
                        w.probe("redo_refused")
                        break
                if redo.ok:
                    got = bags.read_tree(dest)
                    d = diff_trees({p: v for p, v in full.files.items() if p.startswith("data/")},
                                   bags.payload(got))
                    need(not d or bags.verify(got), "redo-wrong", "redone after %r the destination is a "
                         "valid bag, but: %s" % (out.ctx.fired[-1:], "; ".join(d)))
                    w.probe("redone")
            bags.rmtree(dest)
            if os.path.exists(keep):
                os.rename(keep, dest)
        expect_ok(run(w, one, s["m"], over, acc, env=env), "step")
        model = after
        model.check(bags.read_tree(dest), "step")
        for p, e in parse_fetch(trees[s["m"]].get("fetch.txt")).items():
            wantacc.setdefault(p, e)
        if acc is not None:
            got = parse_fetch("".join(l.rstrip("\n") + "\n" for l in acc.values()).encode("utf-8"))
            need(got == wantacc and sorted(acc) == sorted(wantacc), "step-collected",
                 "fetch lines collected: %r, expected %r" % (acc, wantacc))
        w.probe("step")
    if case.get("fetch") and steps:
        o = case["fetch"]
        sel = list(range(len(ms))) if o.get("members") is None else \
            [i for i in o["members"] if i < len(ms)]
        want = {}
        for i in sel:
            want.update(parse_fetch(trees[i].get("fetch.txt")))
        fskip = skip if o.get("skip") else []
        want = {p: e for p, e in want.items() if not under(p, fskip)}

        def fetch():
            r = sut.mrestore.BagRestorer(head, dest)
            mi = list(r.head_bag.member_bags())
            kw = {"skip": fskip} if fskip else {}
            if o.get("members") is None:
                r.restore_fetch(**kw)
            else:
                r.restore_fetch([mi[i] for i in sel], **kw)
        expect_ok(run(w, fetch, env=env), "fetchlist")
        got = bags.read_tree(dest)
        need(parse_fetch(got.get("fetch.txt")) == want, "fetchlist", "fetch.txt has %r, expected %r" %
             (got.get("fetch.txt"), want))
        model.check(got, "fetchlist", fetch=False)
        w.probe("fetchlist")
    if end == "restore":
        full = agg.combine(a)
        expect_ok(restore(w, head, dest, env=env), "finish")
        agg.check_combined(bags.read_tree(dest), full, need, "finished")
        w.probe("finished")
    elif end == "keep":
        dl = list(a.get("deleted", []))
        for i in reversed(range(len(ms))):
            model.add(trees[i], dl, False)

        def keep():
            sut.mrestore.BagRestorer(head, dest).restore(update_sizes=False,
                                                         remove_multibag_tags=False)
        expect_ok(run(w, keep, env=env), "keep")
        if a.get("agginfo") is not None:
            model.files["bag-info.txt"] = bags.info_bytes(a["agginfo"])
        got = bags.read_tree(dest)
        model.check(got, "keep", fetch=False)
        need(parse_fetch(got.get("fetch.txt")) == agg.combine(a)["fetch"], "keep-fetch",
             "fetch.txt has %r" % got.get("fetch.txt"))
        w.probe("kept")
    need(bags.snap(w.path("store")) == before, "store-changed", "the store changed")


def copy_tree(src, dst):
    for d, ds, fs in os.walk(src):
        t = os.path.join(dst, os.path.relpath(d, src)) if d != src else dst
        os.mkdir(t)
        for f in fs:
            with open(os.path.join(d, f), "rb") as i, open(os.path.join(t, f), "wb") as o:
                o.write(i.read())
