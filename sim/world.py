"""the scratch world of one simulated run, and bookkeeping of what was covered"""
import os
from . import seam, bags
from .seam import Ctx


class Violation(Exception):
    """raised by an oracle: (class, message)"""

    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


def need(cond, cls, msg):
    if not cond:
        raise Violation(cls, msg if isinstance(msg, str) else repr(msg))


class World(object):
    def __init__(self, root, stats):
        self.root = root
        self.stats = stats
        self.n = 0
        self.trace = []          # digests of the contexts run, in order

    def dir(self, name):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p

    def path(self, *names):
        return os.path.join(self.root, *names)

    def ctx(self, env=None, faults=(), **kw):
        c = Ctx(faults=[dict(f) for f in faults], **kw)
        if env:
            c.env_from(env)
        return c

    def note(self, ctx):
        """account for a finished context"""
        s = self.stats
        s["ops"] = s.get("ops", 0) + ctx.n
        s["contexts"] = s.get("contexts", 0) + 1
        s["sim_s"] = s.get("sim_s", 0.0) + ctx.advanced
        f = s.setdefault("fired", {})
        for kind, opk, rel in ctx.fired:
            key = kind + "@" + opk
            f[key] = f.get(key, 0) + 1
        for k, v in ctx.kinds.items():
            o = s.setdefault("opkinds", {})
            o[k] = o.get(k, 0) + v
        d = ctx.digest.hexdigest()
        self.trace.append(d + ":" + repr(sorted(ctx.fired)))
        return ctx

    def probe(self, name, n=1):
        p = self.stats.setdefault("probes", {})
        p[name] = p.get(name, 0) + n

    def wipe(self):
        for n in os.listdir(self.root):
            bags.rmtree(os.path.join(self.root, n))


def diff_trees(a, b, limit=6):
    """human-readable difference of two {path: bytes|None} trees (a = expected)"""
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in b:
            out.append("missing %s" % p)
        elif p not in a:
            out.append("unexpected %s" % p)
        elif a[p] != b[p]:
            if a[p] is None or b[p] is None:
                out.append("file/directory mismatch %s" % p)
            else:
                out.append("content differs %s (%d vs %d bytes)" % (p, len(a[p]), len(b[p])))
        if len(out) >= limit:
            out.append("...")
            break
    return out
