"""scenario steps and oracles shared by several properties"""
import os
from . import bags, seam, sut, gen
from .sut import call
from .world import need, Violation, diff_trees

SIZE_TAGS = ("Payload-Oxum", "Bag-Size")


def put_source(w, spec, o=None, where="src"):
    """write the source bag; returns the path to hand to the splitter"""
    d = w.dir(where)
    root = bags.write_bag(spec, d)
    if o and o.get("kind") == "plan" and o.get("by") == "packed":
        return bags.pack(root, o.get("form", "zip"))
    return root


def split(w, src, outdir, o, env=None, faults=(), step=None, record=False):
    ctx = w.ctx(env, faults, record=record)
    out = call(ctx, sut.do_split, src, outdir, o, step)
    w.note(ctx)
    return out


def restore(w, head, dest=None, compdir=None, fetcher=None, env=None, faults=(), record=False):
    ctx = w.ctx(env, faults, record=record)
    out = call(ctx, sut.do_restore, head, dest, compdir, fetcher)
    w.note(ctx)
    return out


def run(w, fn, *a, **k):
    env = k.pop("env", None)
    faults = k.pop("faults", ())
    record = k.pop("record", False)
    ctx = w.ctx(env, faults, record=record)
    out = call(ctx, fn, *a, **k)
    w.note(ctx)
    return out


def expect_ok(out, what):
    if not out.ok:
        raise Violation(what + "-failed", out.desc())
    return out.value


def info_multi(tree_or_info, drop=SIZE_TAGS):
    """{key: [values]} without the recomputed size tags"""
    info = bags.info_of(tree_or_info) if isinstance(tree_or_info, dict) else tree_or_info
    out = {}
    for k, v in info:
        if k not in drop:
            out.setdefault(k, []).append(v)
    return out


def check_same_bag(got, src, what, tags=True):
    """got is a valid bag with the same content as src (both trees)"""
    bad = bags.verify(got)
    need(not bad, what + "-invalid", "; ".join(bad[:5]))
    d = diff_trees(bags.payload(src), bags.payload(got))
    need(not d, what + "-payload", "; ".join(d))
    if tags:
        d = diff_trees(bags.extras(src), bags.extras(got))
        need(not d, what + "-tagfiles", "; ".join(d))
        a, b = bags.empty_dirs(src), bags.empty_dirs(got)
        a = [x for x in a if x != "data"]
        b = [x for x in b if x != "data"]
        need(a == b, what + "-emptydirs", "expected %r, got %r" % (a, b))
    ea, eb = bags.entries(src), bags.entries(got)
    ea = {k: v for k, v in ea.items() if v}
    eb = {k: v for k, v in eb.items() if v}
    need(ea == eb, what + "-checksums", "payload manifests differ: %s" % _entdiff(ea, eb))
    ia, ib = info_multi(src), info_multi(got)
    need(ia == ib, what + "-baginfo", "expected %r, got %r" % (ia, ib))
    ox = bags.get(bags.info_of(got), "Payload-Oxum")
    pl = bags.payload(got)
    want = "%d.%d" % (sum(len(v) for v in pl.values()), len(pl))
    need(ox == [want], what + "-oxum", "Payload-Oxum %r, should be %s" % (ox, want))


def _entdiff(a, b):
    out = []
    for alg in sorted(set(a) | set(b)):
        x, y = a.get(alg, {}), b.get(alg, {})
        for p in sorted(set(x) | set(y)):
            if x.get(p) != y.get(p):
                out.append("%s %s: %s -> %s" % (alg, p, x.get(p), y.get(p)))
    return "; ".join(out[:4])


def package_valid(w, path, env=None):
    """verdict of the package's own validation: True, False or an exception text"""
    out = run(w, _validate, path, env=env)
    return out


def _validate(path):
    try:
        sut.mbagit.open_bag(path).validate()
        return True
    except sut.lib_bagit.BagError:
        return False


def pack_pieces(paths, forms, order=None, direntries=True, keep_dir=()):
    out = []
    for i, p in enumerate(paths):
        f = forms[i % len(forms)] if forms else "dir"
        if p in keep_dir:
            f = "dir"
        out.append(bags.pack(p, f, order=order, direntries=direntries))
    return out
