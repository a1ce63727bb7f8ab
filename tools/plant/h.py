"""helpers for the demonstrations: make and inspect bags in a scratch directory"""
import os, sys, io, hashlib, shutil, tempfile, atexit, warnings, logging, tarfile, zipfile
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

W = tempfile.mkdtemp(prefix="mbdemo-")
atexit.register(shutil.rmtree, W, True)

def p(*a):
    return os.path.join(W, *a)

def put(path, data):
    if not isinstance(data, bytes):
        data = data.encode("utf-8")
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with open(path, "wb") as fd:
        fd.write(data)

def get(path):
    with open(path, "rb") as fd:
        return fd.read()

def text(path):
    with io.open(path, encoding="utf-8", newline="") as fd:
        return fd.read()

def remanifest(root, algs=("sha256",), tagfiles=True):
    for f in os.listdir(root):
        if f.startswith("manifest-") and f.split("-", 1)[1][:-4] in ("md5", "sha1", "sha256", "sha512"):
            os.remove(os.path.join(root, f))
    lines = dict((a, []) for a in algs)
    nb = nf = 0
    for d, ds, fs in os.walk(os.path.join(root, "data")):
        for f in sorted(fs):
            full = os.path.join(d, f)
            rel = os.path.relpath(full, root)
            b = get(full)
            nb += len(b)
            nf += 1
            for a in algs:
                lines[a].append("%s  %s\n" % (hashlib.new(a, b).hexdigest(), rel))
    for a in algs:
        put(os.path.join(root, "manifest-%s.txt" % a), "".join(sorted(lines[a])))
    return "%d.%d" % (nb, nf)

def mkbag(root, files, dirs=(), algs=("sha256",), info=()):
    """files: bag-relative path -> content.  info: list of (name, value)"""
    if not os.path.isabs(root):
        root = p(root)
    os.makedirs(os.path.join(root, "data"))
    put(os.path.join(root, "bagit.txt"), "BagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n")
    for f in files:
        put(os.path.join(root, f), files[f])
    for d in dirs:
        os.makedirs(os.path.join(root, d))
    oxum = remanifest(root, algs)
    lines = ["%s: %s\n" % kv for kv in info] + ["Payload-Oxum: %s\n" % oxum]
    put(os.path.join(root, "bag-info.txt"), "".join(lines))
    return root

def mkhead(root, files, members, lookup=None, deleted=(), version="1", agginfo=None, algs=("sha256",), info=()):
    root = mkbag(root, files, algs=algs, info=[("Multibag-Version", "0.4"), ("Multibag-Tag-Directory", "multibag"),
                 ("Multibag-Head-Version", version)] + list(info))
    put(os.path.join(root, "multibag", "member-bags.tsv"), "".join(m + "\n" for m in members))
    lookup = lookup or {}
    put(os.path.join(root, "multibag", "file-lookup.tsv"), "".join("%s\t%s\n" % kv for kv in lookup.items()))
    if deleted:
        put(os.path.join(root, "multibag", "deleted.txt"), "".join(d + "\n" for d in deleted))
    if agginfo:
        put(os.path.join(root, "multibag", "aggregation-info.txt"), agginfo)
    return root

def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            full = os.path.join(d, f)
            out[os.path.relpath(full, root)] = get(full)
        if not ds and not fs:
            out[os.path.relpath(d, root) + "/"] = None
    return out

def payload(root):
    return dict((k, v) for k, v in tree(root).items() if k.startswith("data/") and v is not None)

def pack(root, kind, out=None):
    base = os.path.basename(root)
    out = out or root + "." + kind
    if kind == "zip":
        with zipfile.ZipFile(out, "w") as z:
            for d, ds, fs in os.walk(root):
                for n in ds + fs:
                    full = os.path.join(d, n)
                    z.write(full, base + "/" + os.path.relpath(full, root))
            z.write(root, base)
    else:
        mode = {"tar": "w", "tgz": "w:gz", "tar.gz": "w:gz", "tar.bz2": "w:bz2"}[kind]
        with tarfile.open(out, mode) as t:
            t.add(root, base)
    shutil.rmtree(root)
    return out

def check(cond, what):
    if not cond:
        print("FAILED: " + str(what))
        sys.stdout.flush()
        sys.exit(1)

def isvalid(root):
    import bagit
    try:
        bagit.Bag(root).validate()
        return True
    except bagit.BagError:
        return False
