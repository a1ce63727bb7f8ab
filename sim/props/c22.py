"""C22: the sizes a bag states are its real sizes"""
import re
from .. import gen, bags, agg, amd, sut, engine, seam
from ..common import *
from .c04 import fault_list
from .c06 import Job, scenario
from .c08 import FORMS
from .c12 import kills

UNITS = {"": 1, "k": 10 ** 3, "M": 10 ** 6, "G": 10 ** 9, "T": 10 ** 12}
LIST_KINDS = ["list", "list", "open_r", "write", "rename", "open_w"]


def steps(rng):
    """changes made to a bag's files between updates of its size tags"""
    out = []
    for _ in range(rng.randrange(2, 7)):
        r = rng.random()
        if r < 0.55:
            e = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 9, 10, 12])
            size = rng.choice([0, 10 ** e, 10 ** e - 1, rng.randrange(1, 10 ** (e + 1)),
                               99949 * 10 ** max(0, e - 4), 9995 * 10 ** max(0, e - 3)])
            out.append({"do": "put", "p": gen.data_path(rng, gen.PLAIN + gen.ATOMS, 3)
                        if rng.random() < .7 else gen.ch(rng, ["tagx", "meta/tagy", "meta/data/z"]),
                        "size": size})
        elif r < 0.75:
            out.append({"do": "drop", "i": rng.random()})
        elif r < 0.85:
            out.append({"do": "mkdir", "p": gen.ch(rng, ["data/e1", "data/e2/e3", "emptyx"])})
        else:
            out.append({"do": "info", "n": rng.randrange(1, 40)})
        if rng.random() < 0.6:
            out.append({"do": "sizes"})
    out.append({"do": "sizes"})
    return out


def generate(rng, tier):
    env = gen.env(rng)
    env.pop("clock", None)
    r = rng.random()
    if r < 0.35:
        case = {"op": "edit", "bag": gen.bag(rng, nmax=6, big=False), "steps": steps(rng),
                "head": rng.random() < 0.35}
    elif r < 0.6:
        case = dict(scenario(rng), op="amend")
    elif r < 0.85:
        a = agg.generate(rng, nmem=4, npool=6)
        if a.get("agginfo") and rng.random() < 0.4:
            a["agginfo"] += [["Bag-Size", v] for v in ("7.5 MB", "1 B", "99.999 GB")[:rng.randrange(1, 4)]]
        case = {"op": "restore", "agg": a, "way": gen.ch(rng, ["new", "emptydir", "inplace"]),
                "forms": [gen.ch(rng, FORMS) for _ in a["members"]] if rng.random() < 0.5 else []}
    else:
        spec = gen.bag(rng, nmax=8, big=False)
        case = {"op": "split", "bag": spec, "split": gen.split_opts(rng, spec)}
    if rng.random() < 0.3:       # sizes that were true once
        for sp in [case.get("bag"), case.get("convert"), (case.get("amd") or {}).get("newhead")] + \
                list((case.get("agg") or {}).get("members", [])):
            if sp and sp.get("info") is not None:
                sp["info"] = sp["info"] + [["Bag-Size", v] for v in ("7.5 MB", "1 B", "99.999 GB")
                                           [:rng.randrange(1, 4)]]
    case.update(env=env, order=rng.randrange(1 << 30), mode="plain")
    m = rng.random()
    if m < 0.3:
        case.update(mode="fault", faults=fault_list(rng, 3, LIST_KINDS if rng.random() < .5 else None))
    elif m < 0.6:
        case.update(mode="crash", faults=[[k] for k in kills(rng, 3)])
    return case


def measure(root):
    """bytes in payload files, their number, bytes in all files, bytes in all directories"""
    pb = pn = fb = db = 0
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            n = os.stat(p).st_size
            fb += n
            if os.path.relpath(p, root).startswith("data" + os.sep):
                pb += n
                pn += 1
        db += sum(os.stat(os.path.join(d, x)).st_size for x in ds)
    return pb, pn, fb, db


def nbytes(text):
    m = re.match(r"^(\d+(?:\.\d*)?) ([kMGT]?)B$", text)
    return float(m.group(1)) * UNITS[m.group(2)] if m else None


def unlisted(out):
    """a listing failed and went unnoticed: the bagit library ignores that while writing tag
    manifests, so that these may grow afterwards, when the bag's size has been taken"""
    return any(k == "list" for _, k, _ in out.ctx.fired)


def check_sizes(root, what, oxum=False, size=False, fuzzy=False):
    """whatever sizes the bag at root states are right; those asked for are stated once"""
    t = {}
    for f in ("bag-info.txt", "bagit.txt"):
        p = os.path.join(root, f)
        if os.path.isfile(p):
            with open(p, "rb") as fd:
                t[f] = fd.read()
    info = bags.info_of(t)
    pb, pn, fb, db = measure(root)
    name = os.path.basename(root)
    ox = bags.get(info, "Payload-Oxum")
    need(not oxum or len(ox) == 1, what + "-oxum-count", "%s states Payload-Oxum %r" % (name, ox))
    for v in ox if oxum is not None else ():
        need(v == "%d.%d" % (pb, pn), what + "-oxum", "%s states Payload-Oxum %s, the payload has %d.%d"
             % (name, v, pb, pn))
    sz = bags.get(info, "Bag-Size")
    need(not size or len(sz) == 1, what + "-size-count", "%s states Bag-Size %r" % (name, sz))
    for v in sz:
        n = nbytes(v)
        need(n is not None, what + "-size-form", "%s states Bag-Size %r" % (name, v))
        if fuzzy:
            continue
        slack = 64 + n * 0.00051
        need(fb - slack <= n <= fb + db + slack, what + "-size",
             "%s states Bag-Size %s, its files have %d bytes (and its directories %d)"
             % (name, v, fb, db))


def change(root, s):
    """change the files of the bag at root behind the package's back"""
    if s["do"] == "put":
        p = os.path.join(root, s["p"])
        q = s["p"]
        while q:
            q = os.path.dirname(q)
            if os.path.isfile(os.path.join(root, q)):
                return
        if os.path.isdir(p):
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        n = s.get("size", 0)
        if not s["p"].startswith("data/"):
            n = min(n, 10 ** 5)              # tag files get read
        with open(p, "wb") as fd:
            fd.truncate(n)
    elif s["do"] == "drop":
        fs = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(root, "data"))
                    for f in fs)
        if fs:
            os.remove(fs[int(s.get("i", 0) * len(fs)) % len(fs)])
    elif s["do"] == "mkdir":
        try:
            os.makedirs(os.path.join(root, s["p"]), exist_ok=True)
        except OSError:
            pass


def sizes(root, head, note):
    """bring the size tags up to date with the package"""
    if head:
        b = sut.mmb.HeadBag(root)
        if note:
            b.info["X-Note"] = "n" * note
        b.update_oxum()
        b.update_info("2")
        return None
    b = sut.mext.as_extended(sut.mbagit.Bag(root))
    if note:
        b.info["X-Note"] = "n" * note
    o = b.update_oxum()
    b.save()
    c = b.calc_oxum()
    b.update_bag_size()
    b.save()
    return tuple(o), tuple(c)


def edit(case, w):
    env = case.get("env")
    spec = dict(case["bag"], info=case["bag"].get("info") or [])

    def setup():
        bags.rmtree(w.path("b"))
        r = bags.write_bag(spec, w.dir("b"))
        if case.get("head"):
            expect_ok(run(w, sut.do_convert, r, "1", None), "convert")
        return r
    faults = case.get("faults", []) if case.get("mode") != "plain" else [None]
    for fl in faults or [None]:
        root, note = setup(), 0
        for s in case.get("steps", []):
            if s["do"] == "info":
                note = s.get("n", 1)
            if s["do"] != "sizes":
                change(root, s)
                continue
            resolved = ()
            if fl is not None:
                keep = root + ".keep"
                os.rename(root, keep)
                sparse_copy(keep, root)
                base = run(w, sizes, root, case.get("head"), note, env=env, record=True)
                expect_ok(base, "update")
                bags.rmtree(root)
                os.rename(keep, root)
                resolved = engine.resolve(fl, base.ctx.events)
            out = run(w, sizes, root, case.get("head"), note, env=env, faults=resolved)
            need(out.kind != "hang", "hang", out.desc())
            if not out.ok:
                need(fl is not None, "update-failed", out.desc())
                w.probe("crashed" if out.kind == "crash" else "reported")
                if not os.path.exists(os.path.join(root, "bagit.txt")):
                    break
                try:
                    out = run(w, sizes, root, case.get("head"), note, env=env)
                    if not out.ok:
                        w.probe("redo_refused")
                        break
                except bags.Unreadable:
                    break
                w.probe("redone")
            check_sizes(root, "update", True, True, unlisted(out))
            if out.value is not None:
                pb, pn, _, _ = measure(root)
                for v in out.value:
                    need(v == (pb, pn), "update-oxum", "calculated %r, the payload has %d bytes in %d "
                         "files" % (v, pb, pn))
            w.probe("updated")


def sparse_copy(src, dst):
    """copy a tree whose files may be large and hollow"""
    for d, ds, fs in os.walk(src):
        t = os.path.join(dst, os.path.relpath(d, src)) if d != src else dst
        os.mkdir(t)
        for f in fs:
            p, q = os.path.join(d, f), os.path.join(t, f)
            n = os.stat(p).st_size
            with open(q, "wb") as o:
                if n < 1 << 20:
                    with open(p, "rb") as i:
                        o.write(i.read())
                else:
                    o.truncate(n)


def execute(case, w):
    op, env, mode = case["op"], case.get("env"), case.get("mode", "plain")
    if op == "edit":
        return edit(case, w)
    if op == "amend":
        j = Job(case, w)
        setup, fn = j.setup, j.fn

        def check(what, v, fuzzy=False):
            # a bag-info.txt cut short by a crash stays so: nothing else records what was lost
            check_sizes(j.target, what, None if what.endswith("redone") else False, True, fuzzy)
    elif op == "restore":
        a, way, at = case["agg"], case.get("way", "new"), {}

        def setup():
            bags.rmtree(w.path("store"))
            bags.rmtree(w.path("res"))
            paths = agg.write(a, w.dir("store"), case.get("forms"), case.get("order"))
            at["head"], at["dest"] = paths[-1], None
            at["target"] = paths[-1]
            if way != "inplace":
                at["dest"] = at["target"] = os.path.join(w.dir("res"), "restored")
                if way == "emptydir":
                    os.mkdir(at["dest"])

        def fn():
            return sut.do_restore(at["head"], at["dest"])

        def check(what, v, fuzzy=False):
            check_sizes(at["target"], what, True, True, fuzzy)
    else:
        src = put_source(w, case["bag"], case["split"])

        def setup():
            bags.rmtree(w.path("out"))
            w.dir("out")

        def fn():
            return sut.do_split(src, w.path("out"), case["split"])

        def check(what, v, fuzzy=False):
            for p in v:
                check_sizes(p, what, fuzzy=fuzzy)
    setup()
    base = run(w, fn, env=env, record=True)
    expect_ok(base, op)
    check(op, base.value)
    w.probe(op)
    if mode == "plain":
        return
    for fl in case.get("faults", []):
        setup()
        out = run(w, fn, env=env, faults=engine.resolve(fl, base.ctx.events))
        need(out.kind != "hang", "hang", out.desc())
        if out.ok:
            check(op, out.value, unlisted(out))
            w.probe("tolerated")
            continue
        w.probe("crashed" if out.kind == "crash" else "reported")
        if op == "split":
            bags.rmtree(w.path("out"))       # a split is redone into a fresh directory
            w.dir("out")
        if op == "restore" and way == "inplace":
            setup()
        out = run(w, fn, env=env)
        if out.ok:
            check(op + "-redone", out.value)
            w.probe("redone")
        else:
            w.probe("redo_refused")
