"""C06: amending or converting reports I/O failures"""
from .. import gen, bags, agg, amd, sut, engine
from ..common import *
from .c04 import fault_list

NEED_FAULT = True


def scenario(rng):
    if rng.random() < 0.3:
        return {"convert": dict(gen.bag(rng, nmax=5, big=False), name="to convert"),
                "version": gen.ch(rng, ["1", "1.0"]), "pid": gen.ch(rng, [None] + amd.URIS)}
    return {"amd": amd.generate(rng, nadd=2, npool=5)}


def generate(rng, tier):
    case = scenario(rng)
    env = gen.env(rng)
    env.pop("clock", None)
    case.update(env=env, faults=fault_list(rng, 7), order=rng.randrange(1 << 30))
    return case


class Job(object):
    """an amendment or conversion that can be set up and performed repeatedly"""

    def __init__(self, case, w):
        self.case, self.w = case, w
        if "convert" in case:
            self.spec = case["convert"]
            self.exp = amd.expected_convert(self.spec, case.get("version", "1"), case.get("pid"))
        else:
            self.spec = case["amd"]["newhead"]
            self.exp = amd.expected(case["amd"])

    def setup(self):
        bags.rmtree(self.w.path("store"))
        if "convert" in self.case:
            self.target = bags.write_bag(self.spec, self.w.dir("store"))
        else:
            self.p = amd.write(self.case["amd"], self.w, order=self.case.get("order"))
            self.target = self.p["newhead"]

    def fn(self):
        if "convert" in self.case:
            return sut.do_convert(self.target, self.case.get("version", "1"),
                                  self.case.get("pid"))
        return amd.perform(self.case["amd"], self.p, sut)

    def others(self):
        """snapshot of every bag other than the new head"""
        s = bags.snap(self.w.path("store"))
        n = os.path.basename(self.target)
        return {k: v for k, v in s.items() if k != n and not k.startswith(n + "/")}


def execute(case, w):
    env = case.get("env")
    j = Job(case, w)
    j.setup()
    base = run(w, j.fn, env=env, record=True)
    expect_ok(base, "amend")
    amd.check_head(bags.read_tree(j.target), j.spec, j.exp, need)
    for fl in case.get("faults", []):
        j.setup()
        out = run(w, j.fn, env=env, faults=engine.resolve(fl, base.ctx.events))
        if not out.ctx.fired:
            w.probe("fault_not_reached")
        if out.ok:
            try:
                amd.check_head(bags.read_tree(j.target), j.spec, j.exp, need)
            except (Violation, bags.Unreadable) as ex:
                raise Violation("silent-loss", "returned normally after %r but %s" %
                                (out.ctx.fired[:3], ex))
            if out.ctx.fired:
                w.probe("tolerated")
        else:
            need(out.kind == "raise", "hang", out.desc())
            w.probe("reported")
