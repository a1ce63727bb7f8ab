"""C05: a restore that hits an I/O failure reports it"""
from .. import gen, bags, agg, sut, engine
from ..common import *
from .c04 import fault_list
from .c08 import FORMS

NEED_FAULT = True


def generate(rng, tier):
    a = agg.generate(rng, nmem=4, npool=6, v02=True)
    env = gen.env(rng)
    env.pop("clock", None)
    return {"agg": a, "forms": [gen.ch(rng, FORMS) for _ in a["members"]]
            if rng.random() < 0.5 else [], "order": rng.randrange(1 << 30),
            "headform": gen.ch(rng, ["dir", "dir", "dir", "zip", "tgz"]),
            "way": gen.ch(rng, ["new", "new", "emptydir", "inplace"]),
            "env": env, "faults": fault_list(rng, 6)}


def execute(case, w):
    a = case["agg"]
    model = agg.combine(a)
    way = case.get("way", "new")
    env = case.get("env")
    hf = "dir" if way == "inplace" else case.get("headform", "dir")

    def setup():
        store = w.dir("store")
        bags.rmtree(store)
        os.mkdir(store)
        paths = agg.write(a, store, case.get("forms"), case.get("order"), True, hf)
        res = w.dir("res")
        bags.rmtree(res)
        os.mkdir(res)
        if way == "inplace":
            return paths[-1], None, paths[-1]
        t = os.path.join(res, "restored")
        if way == "emptydir":
            os.mkdir(t)
        return paths[-1], t, t
    head, dest, target = setup()
    base = restore(w, head, dest, env=env, record=True)
    expect_ok(base, "restore")
    first = True
    for fl in case.get("faults", []):
        if way == "inplace":
            head, dest, target = setup()
        else:
            bags.rmtree(target)
            if way == "emptydir":
                os.mkdir(target)
        fl = engine.resolve(fl, base.ctx.events)
        out = restore(w, head, dest, env=env, faults=fl)
        if not out.ctx.fired:
            w.probe("fault_not_reached")
        if out.ok:
            try:
                agg.check_combined(bags.read_tree(target), model, need, "r")
            except (Violation, bags.Unreadable) as ex:
                raise Violation("silent-loss", "the restore returned normally after %r but %s" %
                                (out.ctx.fired[:3], ex))
            if out.ctx.fired:
                w.probe("tolerated")
        else:
            need(out.kind == "raise", "hang", out.desc())
            w.probe("reported")
