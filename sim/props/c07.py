"""C07: no operation alters its input bags"""
from .. import gen, bags, agg, amd, sut, engine
from ..common import *
from .c02 import make_head_source
from .c04 import fault_list
from .c08 import FORMS
from .c12 import kills

NEED_FAULT = True
FOLLOW = ["save", "manifests", "headedit", "convert", "amend", "inplace", "tagdir", "sizes",
          "resplit"]


def modes(rng, n):
    out = [[]]
    for _ in range(n):
        out.append(fault_list(rng, 1)[0] if rng.random() < 0.5 else kills(rng, 1))
    return out


def generate(rng, tier):
    op = gen.ch(rng, ["split", "split", "split", "restore", "amend", "look"])
    env = gen.env(rng, links=op != "split")
    case = {"op": op, "env": env, "modes": modes(rng, 3), "order": rng.randrange(1 << 30),
            "follow": [{"do": gen.ch(rng, FOLLOW), "on": rng.random(), "env": gen.env(rng),
                        "faults": [] if rng.random() < 0.6 else modes(rng, 1)[1]}
                       for _ in range(rng.randrange(1, 5))]}
    def permit(spec):
        spec["modes"] = {p: gen.ch(rng, [0o444, 0o640, 0o755, 0o600, 0o400])
                         for p in sorted(spec["files"]) if rng.random() < 0.3}
    if op == "split":
        spec = gen.bag(rng, nmax=7, big=False)
        spec["files"] = {p: c for p, c in spec["files"].items() if not p.startswith("multibag/")}
        if rng.random() < 0.35:
            h = make_head_source(rng, spec)
            pool = sorted(p for p in spec["files"] if p.startswith("data/"))
            case["olds"] = [amd.sub_bag(rng, n, pool) for n in h["members"][:-1]]
        permit(spec)
        case["bag"] = spec
        case["split"] = gen.split_opts(rng, spec)
        while case["split"]["kind"] != "plan" and rng.random() < 0.6:
            case["split"] = gen.split_opts(rng, spec)     # hand-made plans use hard links
        if case["split"]["kind"] == "plan":
            case["split"]["by"] = gen.ch(rng, ["path", "path", "bag", "packed", "robag"])
            case["split"].setdefault("form", "zip")
    elif op == "amend":
        case["amd"] = amd.generate(rng, nadd=2, npool=6)
    else:
        a = agg.generate(rng, nmem=4, npool=7)
        for m in a["members"]:
            permit(m)
        case.update(agg=a, forms=[gen.ch(rng, FORMS) for _ in a["members"]]
                    if rng.random() < 0.5 else [], headform=gen.ch(rng, ["dir", "dir", "zip"]),
                    way=gen.ch(rng, ["new", "new", "emptydir", "inplace"]))
    return case


def edit(do, path, other, out2):
    """modify an output bag with the package"""
    if do == "save":
        b = sut.mbagit.Bag(path)
        b.info["X-Edited"] = "yes"
        b.info["Contact-Name"] = ["a", "b"]
        b.save()
    elif do == "manifests":
        b = sut.mext.as_extended(sut.mbagit.Bag(path))
        b.save(manifests=True)
    elif do == "sizes":
        b = sut.mext.ExtendedReadWritableBag(path)
        b.update_oxum()
        b.update_bag_size()
        b.save()
    elif do == "headedit":
        h = sut.mmb.HeadBag(path)
        h.add_member_bag("xx", "http://x/y", "z")
        h.add_file_lookup("data/new one", "xx")
        h.set_deleted("data/gone")
        h.save_member_bags()
        h.save_file_lookup()
        h.save_deleted()
        h.clear_file_lookup()
        h.save_file_lookup()
        h.update_info("7")
    elif do == "tagdir":
        h = sut.mmb.HeadBag(path)
        h.set_multibag_tag_dir("other tags", True)
        h.ensure_tagdir()
        h.save()
    elif do == "convert":
        sut.do_convert(path)
    elif do == "amend":
        sut.do_amend(other, path, "9")
    elif do == "inplace":
        sut.do_restore(path)
    elif do == "resplit":
        for p in sut.msplit.WellPackedSplitter(30).split(path, out2, "again"):
            edit("save", p, None, None)


def look(path):
    """open and validate in every way there is"""
    sut.mmb.is_headbag(path)
    b = sut.mbagit.open_bag(path)
    b.is_valid()
    b = sut.mext.as_extended(sut.mbagit.open_bag(path))
    for p in b.nonstandard():
        b.sizeof(p)
    h = sut.mmb.open_headbag(path)
    for f in (h.member_bags, h.deleted_paths, lambda: list(h.iter_file_lookup()),
              lambda: h.lookup_file("data/a"), lambda: h.files_in_member("m0")):
        try:
            f()
        except sut.mmb.MultibagError:
            pass
    for v in (sut.vbag.BagValidator, sut.vhead.HeadBagValidator, sut.vmember.MemberBagValidator):
        x = v(path)
        x.validate(sut.vbase.ALL)
        x.is_valid()
    if os.path.isdir(path):
        b = sut.mext.as_extended(sut.mbagit.Bag(path))
        b.is_valid()
        b.calc_oxum()
        b.calc_bag_size()
        b.update_oxum()


def execute(case, w):
    env = case.get("env")
    op = case["op"]
    out = w.dir("out")
    events = []
    for i, fl in enumerate(case.get("modes", [[]])):
        bags.rmtree(out)
        os.mkdir(out)
        outputs, skip = [], None
        if op == "split":
            if i == 0:
                inp = put_source(w, case["bag"], case["split"], "store")
            def fn():
                return sut.do_split(inp, out, case["split"])
        elif op == "amend":
            bags.rmtree(w.path("store"))
            p = amd.write(case["amd"], w, order=case.get("order"))
            skip = os.path.basename(p["newhead"])
            def fn():
                amd.perform(case["amd"], p, sut)
        else:
            if i == 0 or case.get("way") == "inplace":
                bags.rmtree(w.path("store"))
                paths = agg.write(case["agg"], w.dir("store"), case.get("forms"),
                                  case.get("order"), True, "dir" if case.get("way") == "inplace"
                                  else case.get("headform", "dir"))
            dest = os.path.join(out, "restored")
            if op == "look":
                def fn():
                    for q in paths:
                        look(q)
            elif case.get("way") == "inplace":
                skip = os.path.basename(paths[-1])
                def fn():
                    sut.do_restore(paths[-1])
            else:
                if case.get("way") == "emptydir":
                    os.mkdir(dest)
                def fn():
                    sut.do_restore(paths[-1], dest)

        def snap():
            return {k: v for k, v in bags.snap(w.path("store"), meta=True).items()
                    if k != skip and not k.startswith((skip or "\0") + "/")}
        before = snap()
        r = run(w, fn, env=env, faults=engine.resolve(fl, events), record=i == 0)
        if i == 0:
            expect_ok(r, op)
            events = r.ctx.events
        need(r.kind != "hang", "hang", r.desc())
        d = _diff(before, snap())
        need(not d, "input-changed", "%s (%s) changed its inputs: %s" % (op, r.kind if not fl
             else "%s after %r" % (r.kind, r.ctx.fired[:2]), d))
        w.probe(op + "_" + r.kind)
        # now the outputs get modified
        if i == 0 or r.ok:
            outputs = sorted(os.path.join(out, n) for n in os.listdir(out))
        if not outputs or i:
            continue
        head = outputs[-1]
        for o in case.get("olds", []):        # the older members, for restoring in place
            bags.write_bag(o, out)
        if "olds" in case and not os.path.exists(os.path.join(out, case["bag"]["name"])):
            bags.pack(bags.write_bag(case["bag"], out), "zip")
        if op == "split":
            head = r.value[-1]
        for k, f in enumerate(case.get("follow", [])):
            pick = head if f["do"] in ("inplace", "tagdir") else \
                outputs[min(len(outputs) - 1, int(f.get("on", 0) * len(outputs)))]
            o2 = w.dir("out2_%d" % k)
            x = run(w, edit, f["do"], pick, w.path("store", os.path.basename(inp))
                    if op == "split" else paths[-1], o2, env=f.get("env"), record=True,
                    faults=engine.resolve(f.get("faults") or [], events))
            need(x.kind != "hang", "hang", x.desc())
            w.probe("follow_%s_%s" % (f["do"], x.kind))
            d = _diff(before, snap())
            need(not d, "input-changed-later", "after %s, modifying the output with %s (%s) "
                 "changed its inputs: %s" % (op, f["do"], x.desc(), d))


def _diff(a, b):
    return "; ".join("%s %s" % ("missing" if p not in b else "new" if p not in a else "altered", p)
                     for p in sorted(set(a) | set(b)) if a.get(p, 0) != b.get(p, 0))[:300]
