"""seeded generators of bags, names, metadata and environments (all JSON-able)"""

ATOMS = ["a", "b", "c.txt", "trial1", "trial10", "trial1.json", "trial", "read me.txt",
         "two  spaces", "\u00e9t\u00e9.txt", "\u65e5\u672c", ".hidden", "x.y.z", "bagit.txt",
         "bag-info.txt", "fetch.txt", "manifest-md5.txt", "manifest-sha256.txt",
         "tagmanifest-sha256.txt", "multibag", "member-bags.tsv", "file-lookup.tsv",
         "deleted.txt", "aggregation-info.txt", "data", "x.zip", "#h", "a+b", "o'k",
         "q[1]?.dat", "-d", "UP", "up", "z", "._a", ".DS_Store", "~$b.tmp", "Thumbs.db", "%41",
         "c;v=1,2", "x.txt~", "x.bak"]
PLAIN = ["a", "b", "c.txt", "d1", "trial1", "trial10", "e e", "\u00fc.x"]
DIRS = ["d", "d1", "d10", "sub", "sub dir", "trial1", "data", "multibag", ".h", "e", "q.x", "._d", "__pycache__", ".git", "CVS",
        "\u00fc"]
TAGROOT = ["meta.json", "about.txt", "sampleinfo.xml", "premis", "notes.txt", "manifest.txt",
           "bag-info.txt.bak", "bagit.txt2", "xbagit.txt", "README", "data.txt",
           "manifest-a-b.txt", "data-dictionary.txt", "datapackage.json", "a", "c.txt",
           "fetch.txt.old", "Manifest-md5.txt"]
TAGDIRS = ["metadata", "tags", "meta data", "datax", "multibag2", "attic", "Archive", "0"]
KEYS = ["Source-Organization", "Contact-Name", "Contact-Email", "External-Description",
        "Bagging-Date", "X-Note", "Organization-Address", "Bag-Profile", "Contact", "X-Note-2",
        "X-Payload-Oxum", "Note", "Multibag-Rebag-Note", "Payload-Oxum-Note"]
VALUES = ["NIST", "a: b", "Gr\u00fc\u00dfe", "x", "two words", "1.2.3", "http://ex.org/a?b=c#d",
          "a, b; c", "2017-01-02", "-", "long " + "v" * 90, "first\n  second: line\n\tthird"]
ALGSETS = [["sha256"], ["md5"], ["md5", "sha256"], ["sha512"], ["sha1", "sha256"], ["sha256"]]


def ch(rng, seq):
    return seq[rng.randrange(len(seq))]


def size(rng, big=True):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.7:
        return rng.randrange(1, 40)
    if r < 0.93:
        return rng.randrange(40, 900)
    if r < 0.985 or not big:
        return rng.randrange(900, 9000)
    if r < 0.997:
        return rng.randrange(65000, 70000)
    if r < 0.9995:
        return rng.randrange(520000, 620000)
    if r < 0.9998:
        return rng.randrange(1040000, 1100000)
    return rng.randrange(2100000, 3300000)


def cont(rng, big=True):
    return ["r", rng.randrange(1 << 30), size(rng, big)]


def text_cont(rng):
    return ["t", "".join(ch(rng, ["x", "y ", "\n", "\u00e9", "line\n", "\t"])
                         for _ in range(rng.randrange(0, 12)))]


class Paths(object):
    """collects files and directories without path conflicts"""

    def __init__(self):
        self.files = {}
        self.dirs = set()

    def ok_file(self, p):
        if p in self.files or p in self.dirs:
            return False
        d = p
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            if d in self.files:
                return False
        return True

    def add(self, p, c):
        if not self.ok_file(p):
            return False
        self.files[p] = c
        d = p
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            self.dirs.add(d)
        return True

    def add_dir(self, p):
        if p in self.files or p in self.dirs:
            return False
        d = p
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            if d in self.files:
                return False
        d = p
        self.dirs.add(d)
        while "/" in d:
            d = d.rsplit("/", 1)[0]
            self.dirs.add(d)
        return True

    def empty_dirs(self):
        used = set()
        for p in list(self.files) + list(self.dirs):
            while "/" in p:
                p = p.rsplit("/", 1)[0]
                used.add(p)
        return sorted(d for d in self.dirs if d not in used and d != "data")


def data_path(rng, atoms=ATOMS, depth=3):
    n = 0 if rng.random() < 0.45 else rng.randrange(1, depth + 1)
    if depth > 2 and rng.random() < 0.03:
        n = rng.randrange(4, 8)
    return "/".join(["data"] + [ch(rng, DIRS) for _ in range(n)] + [ch(rng, atoms)])


def payload_paths(rng, n, atoms=ATOMS):
    ps = Paths()
    tries = 0
    while len(ps.files) < n and tries < n * 8:
        tries += 1
        ps.add(data_path(rng, atoms), None)
    return ps


def info(rng, ids=True):
    out = []
    for _ in range(rng.randrange(0, 5)):
        k = ch(rng, KEYS)
        out.append([k, ch(rng, VALUES)])
    if ids:
        if rng.random() < 0.4:
            out.append(["External-Identifier", ch(rng, ["ark:/88434/abc", "doi:10.1/x", "edi00hw91c"])])
            if rng.random() < 0.3:
                out.append(["External-Identifier", "other:1"])
        if rng.random() < 0.4:
            out.append(["Internal-Sender-Identifier", ch(rng, VALUES)])
        if rng.random() < 0.4:
            out.append(["Internal-Sender-Description", ch(rng, VALUES)])
            if rng.random() < 0.3:
                out.append(["Internal-Sender-Description", "more"])
        if rng.random() < 0.3:
            out.append(["Bag-Group-Identifier", "grp7"])
        if rng.random() < 0.2:
            out.append(["Bag-Count", "1 of 1"])
        if rng.random() < 0.3:
            out.append(["Bag-Size", "1.2 kB"])
    rng.shuffle(out)
    return out


def twin_tag(rng, paths):
    """a tag file path that echoes a payload path: its base name or its path below data"""
    p = ch(rng, paths).split("/")[1:]
    p = p[rng.randrange(len(p)):] if rng.random() < 0.7 else p
    if p[0] in ("data", "multibag", "mbtags", "multibag2x"):
        return None
    if len(p) == 1 and (p[0] in ("bagit.txt", "bag-info.txt", "fetch.txt") or
                        "manifest-" in p[0]):
        return None
    return "/".join(p)


FAMILIES = [["mds", "mds.1", "mds.1.x", "mds.1.2", "mds_1", "mds_10"],
            ["v1", "v1.0", "v1.0.1", "v10", "v1.00"],
            ["bag", "bag-1", "bag 1", "bag.mbag", "bag.mbag.2", "Bag"]]


def names(rng, n, plain):
    """n distinct bag names; some of them continue others"""
    if rng.random() < 0.35:
        f = ch(rng, FAMILIES)
        if n <= len(f):
            return rng.sample(f, n)
    return [plain(i) for i in range(n)]


FORMS_A = ["zip", "tar", "tgz", "tar.gz", "tar.bz2"]
BAGNAMES = ["samplebag", "bag one", "b\u00e4g", "s.mbag", "sb_v1.0", "x", "Big-Bag"]


def bag(rng, name=None, nmax=8, tags=True, big=True, empties=True, noinfo=True, atoms=ATOMS):
    n = rng.randrange(0, nmax + 1) if rng.random() < 0.15 else rng.randrange(1, nmax + 1)
    ps = payload_paths(rng, n, atoms)
    for p in ps.files:
        ps.files[p] = cont(rng, big)
    if rng.random() < 0.3 and len(ps.files) > 2:      # equal contents and sizes
        c = cont(rng, False)
        for p in list(ps.files):
            if rng.random() < 0.6:
                ps.files[p] = c if rng.random() < 0.5 else ["r", rng.randrange(1 << 30), c[2]]
    if tags and rng.random() < 0.6:
        for _ in range(rng.randrange(1, 4)):
            p = ch(rng, TAGROOT)
            if rng.random() < 0.5:
                p = ch(rng, TAGDIRS) + "/" + ch(rng, ATOMS)
            if ps.files and rng.random() < 0.2:
                pl = sorted(x for x in ps.files if x.startswith("data/"))
                p = (twin_tag(rng, pl) if pl else None) or p
            ps.add(p, text_cont(rng) if rng.random() < 0.5 else cont(rng, False))
    if empties and rng.random() < 0.45:
        for _ in range(rng.randrange(1, 3)):
            base = ch(rng, ["data", "data/" + ch(rng, DIRS), "emptytag", "metadata/e"])
            ps.add_dir(base + "/" + ch(rng, DIRS) if base != "emptytag" else base)
    algs = list(ch(rng, ALGSETS))
    spec = {"name": name or ch(rng, BAGNAMES), "files": ps.files, "dirs": ps.empty_dirs(),
            "info": None if (noinfo and rng.random() < 0.08) else info(rng),
            "algs": algs, "tagalgs": algs if rng.random() < 0.6 else [],
            "version": "0.97" if rng.random() < 0.8 else "1.0",
            "oxum": rng.random() < 0.8, "sep": ch(rng, [" ", "  "])}
    style(rng, spec)
    return spec


def crowd(rng, spec, p=0.004):
    """now and then, many more files than usual (some with long names)"""
    if rng.random() < p and not any(f == "data/crowd" or f.startswith("data/crowd/") for f in spec["files"]):
        long = ch(rng, ["", "", "x" * 150, "\u00e9" * 90])
        for i in range(rng.randrange(60, 260)):
            spec["files"]["data/crowd/%d/f%s%03d" % (i % 7, long, i)] = ["r", rng.randrange(1 << 30),
                                                                         rng.randrange(0, 40)]
    return spec


def style(rng, spec):
    """unusual but legal ways of writing the special files"""
    r = rng.random()
    if r < 0.04:
        spec["sep"] = ch(rng, [" *", "\t", "   "])
    elif r < 0.08:
        spec["upper"] = True
    elif r < 0.12:
        spec["eol"] = "\r\n"
    return spec


def encoding(rng, spec, wide=True):
    """special files in another encoding than UTF-8 (reading only: the package writes UTF-8)"""
    from .bags import encodable
    r = rng.random()
    enc = "ISO-8859-1" if r < 0.08 else "UTF-16" if wide and r < 0.11 else None
    if enc and encodable(spec, enc):
        spec["enc"] = enc
    return spec


def unorm(rng, spec):
    """file names whose Unicode normalization on disk is not the one in the manifests"""
    import unicodedata
    r = rng.random()
    if r > 0.1:
        return spec
    disk = "NFD" if r < 0.06 else "NFC"
    fs = {unicodedata.normalize(disk, p): c for p, c in spec["files"].items()}
    if len(fs) == len(spec["files"]) and not all(p.isascii() for p in fs) and not spec.get("enc") \
            and not spec.get("raw") and not spec.get("fetch") and not spec.get("extra_entries"):
        spec["files"] = fs
        spec["dirs"] = [unicodedata.normalize(disk, p) for p in spec["dirs"]]
        spec["mnorm"] = "NFC" if disk == "NFD" else "NFD"
    return spec


def env(rng, links=True):
    out = {"order": rng.randrange(1 << 30)}
    if links:
        out["link"] = ch(rng, ["ok", "ok", "EXDEV", "EPERM", "some"])
    if rng.random() < 0.3:
        out["short_r"] = ch(rng, [1, 7, 100, 5000])
    if rng.random() < 0.3:
        out["short_w"] = ch(rng, [1, 7, 100, 5000])
    if rng.random() < 0.3:
        out["bufsize"] = ch(rng, [1, 16, 300, 4096, 1 << 16])
    if rng.random() < 0.3:
        out["clock"] = [[rng.randrange(0, 400), ch(rng, [3600.0, -86400.0, 1e6, -1e8])]
                        for _ in range(rng.randrange(1, 4))]
    return out


def total_size(spec):
    from .bags import content
    return sum((c[2] if c[0] == "r" else len(content(c))) for p, c in spec["files"].items())


def split_opts(rng, spec, reserve=True, plan=True):
    """how to split: strategy, limits, reserved files, names"""
    tot = max(1, total_size(spec))
    kinds = ["well", "well", "neigh", "neigh"] + (["plan"] if plan else [])
    o = {"kind": ch(rng, kinds)}
    r = rng.random()
    if r < 0.1:
        o["max"] = 1
    elif r < 0.8:
        o["max"] = max(1, int(tot * rng.uniform(0.08, 0.8)))
    else:
        o["max"] = tot + rng.randrange(0, 100)
    if rng.random() < 0.5:
        o["target"] = max(1, int(o["max"] * rng.uniform(0.2, 1.0)))
    files = sorted(spec["files"])
    if reserve and files and rng.random() < 0.4:
        k = rng.randrange(1, min(4, len(files) + 1))
        o["forhead"] = [("/" if rng.random() < 0.3 else "") + f for f in rng.sample(files, k)]
        if rng.random() < 0.1:
            o["forhead"].append("data/not there")
    if o["kind"] == "plan":
        # files assigned by hand to up to three bags; the rest left to complete_plan()
        nb = rng.randrange(0, 4)
        groups = [[] for _ in range(nb)]
        for f in files + spec["dirs"]:
            if nb and rng.random() < 0.7:
                groups[rng.randrange(nb)].append(f)
        o["groups"] = [g for g in groups if g]
        o["by"] = ch(rng, ["path", "path", "bag", "robag", "packed"])
        if o["by"] == "packed":
            o["form"] = ch(rng, ["zip", "tar", "tgz", "tar.bz2"])
    r = rng.random()
    if r < 0.3:
        o["base"] = ch(rng, ["gurn", "my bag", "b\u00e9", "v1.0"])
    elif r < 0.45:
        o["names"] = ["n%d.%s" % (i, ch(rng, ["mbag", "x", "part"])) for i in range(400)]
    if rng.random() < 0.15:
        o["nopass"] = [ch(rng, KEYS + ["External-Identifier", "Internal-Sender-Description",
                                       "Bag-Size"]) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.4:
        o["log"] = 1
    return o
