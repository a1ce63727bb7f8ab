"""
Loads the package under test (after the seam is installed) and drives it through
its public API inside a simulation context.
"""
import os, sys, logging, warnings
from . import seam
from .seam import Ctx, active, SimCrash, SimHang

REPO = os.environ.get("MBSIM_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

import multiprocessing, pickle                                   # noqa


class SimPool(object):
    """stands in for a pool of processes: what is handed over is pickled, the work is done here"""

    def __init__(self, processes=None, initializer=None, *a, **k):
        pass

    def map(self, f, args, *a, **k):
        return [pickle.loads(pickle.dumps(f(pickle.loads(pickle.dumps(x))))) for x in args]

    def imap(self, f, args, *a, **k):
        return iter(self.map(f, args))

    imap_unordered = imap

    def starmap(self, f, args, *a, **k):
        return self.map(lambda x: f(*x), args)

    def terminate(self):
        pass

    close = join = terminate

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


multiprocessing.Pool = SimPool
import bagit as lib_bagit                                        # noqa
import multibag                                                  # noqa
if not os.path.realpath(multibag.__file__).startswith(os.path.realpath(REPO) + "/"):
    raise SystemExit("multibag was not imported from " + REPO)
from multibag import split as msplit, restore as mrestore, amend as mamend   # noqa
from multibag.access import bagit as mbagit, extended as mext, multibag as mmb  # noqa
from multibag.validate import bag as vbag, headbag as vhead, member as vmember, base as vbase  # noqa


LOG = logging.getLogger("mbsim")


class Out(object):
    """outcome of one call of the package: ok / raise / crash / hang"""

    def __init__(self, kind, value=None, exc=None, ctx=None):
        self.kind, self.value, self.exc, self.ctx = kind, value, exc, ctx

    @property
    def ok(self):
        return self.kind == "ok"

    def desc(self):
        if self.exc is None:
            return self.kind
        return "%s %s: %s" % (self.kind, type(self.exc).__name__, clean(str(self.exc)))


def clean(s):
    return s.replace(seam.S.root or "\0", "<scratch>")[:300]


def call(ctx, fn, *a, **k):
    """run fn as the simulated process ctx"""
    cwd = seam.R["getcwd"]()
    try:
        with active(ctx):
            v = fn(*a, **k)
        out = Out("ok", v, None, ctx)
    except SimCrash:
        out = Out("crash", None, None, ctx)
    except SimHang as ex:
        out = Out("hang", None, ex, ctx)
    except Exception as ex:
        ex.__traceback__ = ex.__traceback__ if os.environ.get("MBSIM_TB") else None
        out = Out("raise", None, ex, ctx)
    if ctx.dead and out.kind != "crash":
        out = Out("crash", None, None, ctx)
    ctx.dead = True            # nothing of that process may touch the disk any more
    seam.R["chdir"](cwd)
    return out


# ------------------------------------------------------------------ split
def make_plan(src, o):
    fh = o.get("forhead")
    if o["kind"] in ("well", "neigh"):
        cls = msplit.WellPackedSplitter if o["kind"] == "well" else msplit.NeighborlySplitter
        sp = cls(o["max"], o.get("target"), fh)
        base = o.get("base")
        if o.get("names"):
            base = iter(o["names"])
        return sp.plan(src, base)
    # a hand-made plan
    by = o.get("by", "path")
    if by == "bag":
        plan = msplit.SplitPlan(mbagit.Bag(src))
    elif by == "robag":
        plan = msplit.SplitPlan(mbagit.open_bag(src))
    else:
        plan = msplit.SplitPlan(src)
    for g in o.get("groups", []):
        plan._manifests.append({"name": "g%d" % len(plan._manifests), "contents": list(g)})
    plan.complete_plan()
    if not plan._manifests:
        plan._manifests.append({"name": "g0", "contents": []})
    if o.get("names"):
        plan.name_output_bags(iter(o["names"]))
    elif o.get("base"):
        plan.name_output_bags(msplit.SimpleNamer(o["base"]))
    return plan


def do_split(src, outdir, o, step=None):
    """split src into outdir; step(path) is called by the caller after each yielded bag"""
    if step is None and o["kind"] in ("well", "neigh"):
        cls = msplit.WellPackedSplitter if o["kind"] == "well" else msplit.NeighborlySplitter
        sp = cls(o["max"], o.get("target"), o.get("forhead"))
        base = o.get("base")
        if o.get("names"):
            base = iter(o["names"])
        return list(sp.split(src, outdir, base, o.get("nopass"), LOG if o.get("log") else None))
    plan = make_plan(src, o)
    out = []
    for b in plan.apply_iter(outdir, info_nopass=o.get("nopass"),
                             logger=LOG if o.get("log") else None):
        out.append(b)
        if step:
            step(b)
    return out


# ------------------------------------------------------------------ restore
def do_restore(head, dest=None, compdir=None, fetcher=None):
    return mrestore.restore_bag(head, dest, compdir, fetcher)


# ------------------------------------------------------------------ amend
def do_amend(amendee, newhead, version, adds=(), opts=None):
    """adds: list of dicts {path, include, exclude, pid, comment, info}; opts: the same for
    the new head"""
    o = opts or {}
    if not o and not any(set(a) - {"path"} for a in adds):
        mamend.amend_bag_with(amendee, newhead, version, *[a["path"] for a in adds])
        return
    am = mamend.Amender(amendee, newhead, o.get("pid"), o.get("comment"), o.get("info", []))
    am.init_from_amendee()
    for a in adds:
        am.add_amending_bag(a["path"], a.get("include"), a.get("exclude"), a.get("pid"),
                            a.get("comment"), a.get("info", []))
    am.finalize(version, o.get("include"), o.get("exclude"))


def do_convert(bagdir, version="1", pid=None):
    mamend.make_single_multibag(bagdir, version, pid)


def do_maker(bagdir, o):
    """a conversion in steps; returns the handle's own bag name"""
    mk = mamend.SingleMultibagMaker(bagdir, *([o["tagdir"]] if o.get("tagdir") else []))
    for st in o["steps"]:
        do = st["do"]
        if do == "member":
            mk.write_member_bags(st.get("pid"), st.get("comment"), *st.get("info", []))
        elif do == "lookup":
            inc, exc = st.get("include"), st.get("exclude")
            if st.get("str"):
                inc = inc[0] if inc and len(inc) == 1 else inc
                exc = exc[0] if exc and len(exc) == 1 else exc
            mk.write_file_lookup(inc, exc, bool(st.get("trunc")))
        elif do == "info":
            mk.update_info(*([st["version"]] if st.get("version") else []))
        elif do == "convert":
            mk.convert(st["version"], st.get("pid"))
        elif do == "again":
            mk = mamend.SingleMultibagMaker(bagdir)


def validate_any(path, processes=None):
    """the package's own validity verdict on the bag at path"""
    mbagit.open_bag(path).validate()
    return True
