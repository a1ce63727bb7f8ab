"""runs one case, shrinks failing cases, resolves fault positions"""
import os, json, signal, traceback, hashlib, copy
from . import seam, bags
from .seam import SimHang, H
from .world import World, Violation
import tempfile

CPU_LIMIT = 45.0          # CPU seconds allowed for one simulated run (normal: well below 1)


class Names(object):
    """the names of temporary files, made deterministic"""

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return "t%07d" % self.n


class Result(object):
    def __init__(self):
        self.violation = None      # (class, message)
        self.error = None          # harness error text
        self.digest = ""
        self.stats = {}


def _alarm(*a):
    raise SimHang("no progress within %g s of CPU time" % CPU_LIMIT)


def norm(case):
    return json.loads(json.dumps(case))


def run_case(prop, case, scratch, known=None):
    """execute one explicit case of a property module; never raises"""
    res = Result()
    root = os.path.join(scratch, "w")
    bags.rmtree(root)
    os.makedirs(root)
    seam.set_root(root)
    seam.S.ctx = None
    seam.S.threaded = False
    home = os.path.join(root, "home")
    os.makedirs(home)
    tmp = os.path.join(root, "tmp")
    os.makedirs(tmp)
    tempfile.tempdir = tmp
    tempfile._name_sequence = Names()
    seam.R["chdir"](home)
    w = World(root, res.stats)
    w.known = known if known is not None else {}
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        prop.execute(norm(case), w)
    except Violation as ex:
        res.violation = (ex.cls, ex.msg)
    except bags.Unreadable as ex:
        res.violation = ("unreadable-output", str(ex))
    except SimHang as ex:
        res.violation = ("hang", str(ex))
    except Exception:
        res.error = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        seam.S.ctx = None
        seam.S.threaded = False
        seam.R["chdir"](scratch)
    if res.violation:
        m = res.violation[1].replace(root, "<scratch>")
        res.violation = (res.violation[0], m[:1500])
    res.digest = hashlib.blake2b("\n".join(w.trace).encode("utf-8", "surrogatepass"),
                                 digest_size=12).hexdigest()
    try:
        bags.rmtree(root)
    except OSError:
        pass
    return res


# ---------------------------------------------------------------- fault placement
def resolve(faults, events):
    """turn relative fault positions into operation numbers of the dry run's event list

    {"k": kind or list or None, "pos": 0..1, "do": ...} -> {"at": n, "do": ...}
    """
    out = []
    for f in faults:
        if "pos" not in f:
            out.append(dict(f))
            continue
        k = f.get("k")
        if isinstance(k, str):
            k = [k]
        idx = [i for i, e in enumerate(events) if (not k or e[0] in k)
               and (not f.get("re") or f["re"] in e[1])]
        if not idx:
            idx = list(range(len(events)))
        if not idx:
            continue
        g = dict((a, b) for a, b in f.items() if a not in ("k", "pos", "re"))
        n = idx[min(len(idx) - 1, int(f["pos"] * len(idx)))]
        if f.get("sticky"):
            g["from"] = n
        else:
            g["at"] = n
        out.append(g)
    return out


# ---------------------------------------------------------------- shrinking
def _paths(x, pre=()):
    """paths of all containers in a JSON value, outermost first"""
    if isinstance(x, dict):
        yield pre
        for k in sorted(x):
            for p in _paths(x[k], pre + (k,)):
                yield p
    elif isinstance(x, list):
        yield pre
        for i, v in enumerate(x):
            for p in _paths(v, pre + (i,)):
                yield p


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def kind_of(violation):
    """the class and, where a call failed, with what exception"""
    cls, msg = violation
    return cls, msg.split(":")[0] if cls.endswith("-failed") else ""


def shrink(prop, case, violation, scratch, known, budget_s=25.0):
    """greedy minimisation of an explicit case keeping the violation class"""
    cls = kind_of(violation)
    keep = set(getattr(prop, "KEEP", ())) | {"name", "kind", "do", "op", "hashseed"}
    t0 = seam.real_time()
    best = norm(case)
    tried = set()

    def fails(c):
        h = json.dumps(c, sort_keys=True)
        if h in tried or seam.real_time() - t0 > budget_s:
            return False
        tried.add(h)
        r = run_case(prop, c, scratch, known)
        return r.violation is not None and kind_of(r.violation) == cls

    progress = True
    while progress and seam.real_time() - t0 < budget_s:
        progress = False
        # 1. drop list chunks and dict entries
        for path in list(_paths(best)):
            try:
                node = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(node, list):
                if len(node) >= 2 and node and node[0] in ("r", "t"):
                    continue
                step = max(1, len(node) // 2)
                while step >= 1:
                    i = 0
                    while i < len(_get(best, path)):
                        c = copy.deepcopy(best)
                        del _get(c, path)[i:i + step]
                        if fails(c):
                            best = c
                            progress = True
                        else:
                            i += step
                    step //= 2
            elif isinstance(node, dict):
                for k in sorted(node):
                    if k in keep:
                        continue
                    c = copy.deepcopy(best)
                    del _get(c, path)[k]
                    if fails(c):
                        best = c
                        progress = True
        # 2. simplify contents and numbers
        for path in list(_paths(best)):
            try:
                node = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(node, list) and len(node) == 3 and node[0] == "r" and \
                    isinstance(node[2], int):
                for v in (["r", 1, 1], ["r", node[1], node[2] // 2], ["r", 1, node[2]]):
                    if v != node:
                        c = copy.deepcopy(best)
                        _get(c, path)[:] = v
                        if fails(c):
                            best = c
                            progress = True
                            break
            elif isinstance(node, dict):
                for k in sorted(node):
                    v = node[k]
                    if k in ("order", "seed") and v not in (None, 0, 1):
                        for nv in (None, 0, 1) if k == "order" else (0, 1):
                            c = copy.deepcopy(best)
                            _get(c, path)[k] = nv
                            if fails(c):
                                best = c
                                progress = True
                                break
    return best
