"""C19: a remote fetcher is asked only for what is missing and less is never accepted"""
from .. import gen, bags, agg, sut, engine, seam
from ..common import *

FORMS = ["dir", "dir", "zip", "tar", "tgz", "tar.gz", "tar.bz2"]
EXC = {"OSError": OSError, "RuntimeError": RuntimeError, "KeyError": KeyError,
       "TimeoutError": TimeoutError, "ValueError": ValueError, "StopIteration": StopIteration}
BAD = ["error", "error", "none", "mute", "late", "noplace", "emptydir", "notabag", "drop", "drop", "dropall", "flip",
       "flip", "cut", "nomanifest", "tornmanifest", "nodecl", "nodata", "truncarchive", "truncarchive",
       "emptyarchive", "garbage"]


def generate(rng, tier):
    plain = rng.random() < 0.3
    a = agg.generate(rng, nmem=6 if tier == "thorough" else 5, npool=8, fetch=plain)
    while len(a["members"]) < 2:
        a = agg.generate(rng, nmem=5, npool=8, fetch=plain)
    n = len(a["members"]) - 1
    c = {"agg": a, "order": rng.randrange(1 << 30),
         "cached": [rng.random() < 0.3 for _ in range(n)],
         "forms": [gen.ch(rng, FORMS) for _ in range(n)],
         "cacheforms": [gen.ch(rng, FORMS) for _ in range(n)],
         "headform": gen.ch(rng, ["dir", "dir", "zip", "tgz"]),
         "way": gen.ch(rng, ["new", "new", "emptydir", "inplace"]),
         "compdir": gen.ch(rng, [None, "cache", "cache", "newcache"]),
         "env": gen.env(rng)}
    if c["compdir"] == "cache" and rng.random() < 0.2:
        c["relcomp"] = 1
    if rng.random() < 0.25:
        c["bonus"] = [[rng.randrange(n), rng.randrange(n)] for _ in range(2)]
    if rng.random() < 0.3:
        c["direct"] = [rng.randrange(n) for _ in range(rng.randrange(1, 6))]
    if not plain:
        trials = []
        for _ in range(5):
            t = [{"who": rng.random(), "what": gen.ch(rng, BAD), "r": rng.random(),
                  "exc": gen.ch(rng, sorted(EXC)), "seed": rng.randrange(1 << 20)}
                 for _ in range(gen.ch(rng, [1, 1, 1, 2]))]
            trials.append(t)
        c["trials"] = trials
    if rng.random() < 0.4:
        c["kills"] = [{"pos": rng.random(), "do": gen.ch(rng, ["crash", "crash", "EIO", "ENOSPC"])}
                      for _ in range(2)]
    return c


class FetchFault(Exception):
    pass


class Remote(object):
    """the simulated remote store and its fetch function"""

    def __init__(self, w, case, cachedir):
        self.w, self.case, self.cachedir = w, case, cachedir
        self.names = [m["name"] for m in case["agg"]["members"][:-1]]
        self.specs = agg.specs(case["agg"])[:-1]
        self.log = []
        self.problems = []
        self.bad = {}               # name -> fault
        self.delivered = []         # paths of spoilt deliveries
        self.hit = []

    def fetch(self, name, d, *extra, **kw):
        ctx, seam.S.ctx = seam.S.ctx, None
        try:
            return self._fetch(name, d, extra, kw)
        finally:
            seam.S.ctx = ctx
            if ctx is not None:
                ctx.skew += 30.0
                ctx.advanced += 30.0

    def _fetch(self, name, d, extra, kw):
        if extra or kw:
            self.problems.append("called with extra arguments %r %r" % (extra, kw))
        if name not in self.names:
            self.problems.append("called for %r, which is not a member" % (name,))
            raise FetchFault("no such bag")
        if os.path.abspath(d) != os.path.abspath(self.cachedir):
            self.problems.append("called for %s with directory %s, not the cache directory" % (name, d))
        if in_cache(d, name):
            self.problems.append("called for %s, which is in the cache" % name)
        if name in self.log:
            self.problems.append("called again for %s" % name)
        self.log.append(name)
        f = self.bad.get(name)
        if f:
            self.hit.append(f["what"])
            if f["what"] == "error":
                raise EXC[f["exc"]]("simulated transfer failure")
            if f["what"] == "none":
                return None
            if f["what"] == "noplace":
                return os.path.join(d, name)
        os.makedirs(d, exist_ok=True)
        i = self.names.index(name)
        for a, b in self.case.get("bonus", []):
            if a == i and b != i and not in_cache(d, self.names[b]):
                self.put(b, d, None)
        return self.put(i, d, f)

    def put(self, i, d, f):
        p = bags.write_bag(self.specs[i], d)
        fs = self.case.get("forms") or ["dir"]
        form = fs[i % len(fs)]
        if f:
            p = spoil(p, f, form, self.case.get("order"))
            self.delivered.append(p)
            if f["what"] == "mute":
                return None
            if f["what"] == "late":
                raise EXC[f["exc"]]("simulated failure at the end of the transfer")
            return p
        return bags.pack(p, form, order=self.case.get("order"))


def in_cache(d, name):
    return any(os.path.exists(os.path.join(d, name + e)) for e in
               ("", ".zip", ".tar", ".tgz", ".tar.gz", ".tar.bz2"))


def spoil(p, f, form, order):
    what, r = f["what"], f["r"]
    files = []
    for d, s, fs in os.walk(p):
        files += [os.path.relpath(os.path.join(d, x), p) for x in fs]
    files.sort()
    data = [x for x in files if x.startswith("data/")]
    mans = [x for x in files if x.startswith("manifest-") and bags.ROOT_SPECIAL.match(x)]
    pick = data[min(len(data) - 1, int(r * len(data)))] if data else None
    full = os.path.join(p, pick) if pick else None
    if what in ("emptydir", "notabag"):
        for x in sorted(os.listdir(p)):
            bags.rmtree(os.path.join(p, x))
        if what == "notabag":
            with open(os.path.join(p, "index.html"), "w") as fd:
                fd.write("<html>404 not found</html>\n")
    elif what == "drop" and full:
        os.unlink(full)
    elif what == "dropall":
        # an interrupted copy: some of the files made it
        for x in files:
            if seam.H("drop", f["seed"], x) % 1000 < 1000 * r:
                os.unlink(os.path.join(p, x))
    elif what == "flip" and full:
        with open(full, "rb") as fd:
            b = bytearray(fd.read())
        if b:
            b[int(r * 7919) % len(b)] ^= 1 << (f["seed"] % 8)
        else:
            b = b"x"
        with open(full, "wb") as fd:
            fd.write(bytes(b))
    elif what == "cut" and full:
        os.truncate(full, int(os.path.getsize(full) * r))
    elif what == "nomanifest":
        for x in mans:
            os.unlink(os.path.join(p, x))
    elif what == "tornmanifest" and mans:
        q = os.path.join(p, mans[f["seed"] % len(mans)])
        os.truncate(q, int(os.path.getsize(q) * r))
    elif what == "nodecl":
        os.unlink(os.path.join(p, "bagit.txt"))
    elif what == "nodata":
        bags.rmtree(os.path.join(p, "data"))
    elif what in ("truncarchive", "emptyarchive", "garbage"):
        if form == "dir":
            form = gen.FORMS_A[f["seed"] % len(gen.FORMS_A)]
        q = bags.pack(p, form, order=order)
        if what == "garbage":
            with open(q, "wb") as fd:
                fd.write(b"<html>504 gateway timeout</html>" * (1 + f["seed"] % 40))
        else:
            n = 0 if what == "emptyarchive" else int(os.path.getsize(q) * r)
            if f["seed"] % 3 == 0:
                n -= n % 512
            os.truncate(q, n)
        return q
    return bags.pack(p, form, order=order)


def setup(w, case, k):
    """fresh head, destination and cache; returns (head, dest, target, compdir, cachedir)"""
    a = case["agg"]
    way = case.get("way", "new")
    st = w.dir("st%s" % k)
    hs = agg.specs(a)[-1]
    head = bags.write_bag(hs, w.dir("st%s/heads" % k))
    if way != "inplace":
        head = bags.pack(head, case.get("headform", "dir"), order=case.get("order"))
    target = head if way == "inplace" else os.path.join(st, "restored")
    if way == "emptydir":
        os.mkdir(target)
    return head, (None if way == "inplace" else target), target


def cachedirs(w, case, k, target):
    cd = case.get("compdir")
    if cd is None:
        return None, os.path.join(target, "multibag", "_membercache")
    p = w.path("%s%s" % (cd, k))
    if cd == "cache":
        os.makedirs(p, exist_ok=True)
    return p, p


def fill(case, d):
    """the members already in the cache"""
    names = []
    for i, s in enumerate(agg.specs(case["agg"])[:-1]):
        if i < len(case.get("cached", [])) and case["cached"][i]:
            p = bags.write_bag(s, d)
            fs = case.get("cacheforms") or ["dir"]
            bags.pack(p, fs[i % len(fs)], order=case.get("order"))
            names.append(s["name"])
    return names


def go(w, case, k, bad=(), faults=(), comp=None, record=False):
    head, dest, target = setup(w, case, k)
    arg, cachedir = (comp, comp) if comp else cachedirs(w, case, k, target)
    if not comp and arg and case["compdir"] == "cache":
        fill(case, arg)
    rem = Remote(w, case, cachedir)
    for f in bad:
        n = rem.names[min(len(rem.names) - 1, int(f["who"] * len(rem.names)))]
        rem.bad[n] = f
    have = [n for n in rem.names if os.path.isdir(cachedir) and in_cache(cachedir, n)]
    if arg and case.get("relcomp") and not comp:
        arg = os.path.relpath(arg, w.path("home"))
    out = restore(w, head, dest, arg, rem.fetch, env=case.get("env"), faults=faults, record=record)
    need(not rem.problems, "fetcher-misused", "; ".join(rem.problems[:3]))
    need(out.kind != "hang", "hang", out.desc())
    return out, rem, target, cachedir, have


def all_asked(case, rem, have, what):
    got = set(rem.log) | set(have)
    for a, b in case.get("bonus", []):
        if a < len(rem.names) and b < len(rem.names) and rem.names[a] in rem.log:
            got.add(rem.names[b])
    miss = [n for n in rem.names if n not in got]
    need(not miss, "not-fetched", "%s returned normally without %r having been fetched" % (what, miss))


def execute(case, w):
    a = case["agg"]
    if len(a["members"]) < 2:
        return
    model = agg.combine(a)
    out, rem, target, cachedir, have = go(w, case, "0", record=True)
    expect_ok(out, "restore")
    agg.check_combined(bags.read_tree(target), model, need, "restored")
    all_asked(case, rem, have, "the restore")
    events = out.ctx.events
    w.probe("fetched", len(rem.log))
    w.probe("cached", len(have))

    if case.get("direct"):
        direct(w, case)

    n = 0
    for t in case.get("trials", []):
        n += 1
        out, rem, target, cachedir, have = go(w, case, "t%d" % n, bad=t)
        if not rem.hit:
            w.probe("fault_not_reached")
        got = bags.read_tree(target)
        for h in rem.hit:
            w.probe("bad_" + h)
        if out.ok:
            silent = [h for h in rem.hit if h in ("error", "late", "none", "mute")]
            need(not silent, "fault-ignored", "the fetcher %s, yet the restore returned normally" % (
                "raised an error" if silent and silent[0] in ("error", "late") else "returned nothing"))
            bad = bags.verify(got)
            d = diff_trees({p: v for p, v in model["files"].items() if p.startswith("data/")},
                           bags.payload(got))
            v = package_valid(w, target)
            need(v.kind in ("ok", "raise"), "hang", v.desc())
            accepted = v.ok and v.value is True
            need(not (d and accepted), "less-accepted", "after %s the restore returned normally and the "
                 "restored bag is accepted as valid, but: %s" % (rem.hit, "; ".join(d)))
            need(not (bad and accepted), "less-accepted", "after %s the restored bag is accepted as "
                 "valid, but: %s" % (rem.hit, "; ".join(bad[:3])))
            w.probe("harmless" if not d and not bad else "invalid_result")
        else:
            w.probe("raised")
        # the fetcher is healthy again: bad deliveries are removed, a fresh destination is used
        for p in rem.delivered:
            bags.rmtree(p)
        comp = cachedir if case.get("compdir") and os.path.isdir(cachedir) else None
        before = [x for x in rem.names if comp and in_cache(comp, x)]
        out, rem2, target, _, have = go(w, case, "t%dr" % n, comp=comp)
        expect_ok(out, "retry")
        agg.check_combined(bags.read_tree(target), model, need, "retried")
        need(not set(rem2.log) & set(before), "fetched-again", "the retry fetched %r again" %
             sorted(set(rem2.log) & set(before)))
        if before and rem2.log:
            w.probe("retry_partly_cached")

    for i, f in enumerate(case.get("kills", [])):
        out, rem, target, cachedir, have = go(w, case, "0k", faults=engine.resolve([f], events)) \
            if i == 0 else go(w, case, "0l", faults=engine.resolve([f], events))
        w.probe("kill_" + out.kind)
        if out.ok:
            agg.check_combined(bags.read_tree(target), model, need, "restored")
        comp = cachedir if case.get("compdir") and os.path.isdir(cachedir) else None
        before = [x for x in rem.names if comp and in_cache(comp, x)]
        out, rem2, target, _, have = go(w, case, "k%dr" % i, comp=comp)
        expect_ok(out, "retry")
        agg.check_combined(bags.read_tree(target), model, need, "retried")
        need(not set(rem2.log) & set(before), "fetched-again", "the retry fetched %r again" %
             sorted(set(rem2.log) & set(before)))


def direct(w, case):
    """members asked for one by one"""
    head, dest, target = setup(w, case, "d")
    arg, cachedir = cachedirs(w, case, "d", target)
    if arg and case["compdir"] == "cache":
        fill(case, arg)
    rem = Remote(w, case, cachedir)

    def fn():
        r = sut.mrestore.BagRestorer(head, dest, arg, rem.fetch)
        out = []
        for i in case["direct"]:
            n = rem.names[i % len(rem.names)]
            out.append((n, r.get_member_bag(n), r.find_member_bag(n)))
        return out
    got = expect_ok(run(w, fn, env=case.get("env")), "get-member")
    need(not rem.problems, "fetcher-misused", "; ".join(rem.problems[:3]))
    for n, p, q in got:
        need(p and q and os.path.exists(p) and os.path.abspath(p) == os.path.abspath(q) and
             bags.bagname(p) == n and os.path.dirname(os.path.abspath(p)) == os.path.abspath(cachedir),
             "get-member", "%s: get_member_bag() gave %r, find_member_bag() %r" % (n, p, q))
    w.probe("direct")
