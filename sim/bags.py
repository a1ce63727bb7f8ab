"""
Independent bag writer, reader and verifier: shares no code with the package under
test or with the bagit library.  All functions work outside simulation contexts
(plain, un-faulted file access).
"""
import os, io, re, hashlib, zipfile, tarfile, gzip, bz2, unicodedata

ALGS = ("md5", "sha1", "sha256", "sha512")
ROOT_SPECIAL = re.compile(r"^(bagit\.txt|bag-info\.txt|fetch\.txt|(tag)?manifest-\w+\.txt)$")


# ------------------------------------------------------------------ content
_blk = b""


def blob(seed, size):
    """deterministic pseudo-random content"""
    out = bytearray()
    i = 0
    while len(out) < size:
        out += hashlib.sha256(b"%d:%d" % (seed, i)).digest()
        i += 1
        if i >= 64 and len(out) < size:      # large files repeat, with a counter
            rep = bytes(out)
            while len(out) < size:
                out += b"%08d" % (len(out) % 10**8) + rep
    return bytes(out[:size])


def content(spec):
    """["t", text] | ["r", seed, size]"""
    if spec[0] == "t":
        return spec[1].encode("utf-8")
    return blob(spec[1], spec[2])


def digest(alg, data):
    return hashlib.new(alg, data).hexdigest()


# ------------------------------------------------------------------ writing
def info_bytes(info, eol="\n", enc="utf-8"):
    return "".join("%s: %s\n" % (k, v) for k, v in info).replace("\n", eol).encode(enc)


def encodable(spec, enc):
    """can the special files of the bag be written in this encoding?"""
    try:
        for p in list(spec.get("files", {})) + list(spec.get("raw", {})):
            p.encode(enc)
        for k, v in spec.get("info") or []:
            (k + v).encode(enc)
        for f in spec.get("fetch", []):
            "".join(f).encode(enc)
        for e in spec.get("extra_entries", {}).values():
            "".join(e).encode(enc)
    except UnicodeEncodeError:
        return False
    return True


def build(spec):
    """the complete tree of a bag described by spec: {relpath: bytes or None (directory)}

    spec keys: name, files {path: content spec}, dirs [empty dirs], info [[k, v]...] or None,
    algs, tagalgs, version, oxum (bool), fetch [[url, size, path]], extra_entries
    {alg: {path: hash}}, raw {path: text} (tag files written as they are, not in tagmanifest
    unless tagalgs), no_entry [paths not put in manifests]
    """
    tree = {"data": None}
    for d in spec.get("dirs", []):
        _mkdirs(tree, d)
    payload = {}
    for p, c in spec.get("files", {}).items():
        data = content(c)
        _mkdirs(tree, os.path.dirname(p))
        tree[p] = data
        if p.startswith("data/"):
            payload[p] = data
    for p, t in spec.get("raw", {}).items():
        _mkdirs(tree, os.path.dirname(p))
        tree[p] = t.encode("utf-8")
    enc = spec.get("enc", "UTF-8")
    tree["bagit.txt"] = ("BagIt-Version: %s\nTag-File-Character-Encoding: %s\n"
                         % (spec.get("version", "0.97"), enc)).encode()
    skip = set(spec.get("no_entry", []))
    for alg in spec.get("algs", ["sha256"]):
        ent = {p: digest(alg, payload[p]) for p in payload if p not in skip}
        ent.update(spec.get("extra_entries", {}).get(alg, {}))
        order = sorted(ent)
        def spell(p):
            return unicodedata.normalize(spec["mnorm"], p) if spec.get("mnorm") else p
        tree["manifest-%s.txt" % alg] = "".join(
            "%s%s%s%s" % (ent[p].upper() if spec.get("upper") else ent[p], spec.get("sep", "  "),
                          spell(p), spec.get("eol", "\n")) for p in order).encode(enc)
    if spec.get("info") is not None:
        info = [list(x) for x in spec["info"]]
        if spec.get("oxum", True):
            info.append(["Payload-Oxum", "%d.%d" % (sum(len(v) for v in payload.values()),
                                                    len(payload))])
        tree["bag-info.txt"] = info_bytes(info, spec.get("eol", "\n"), enc)
    if spec.get("fetch"):
        tree["fetch.txt"] = "".join("%s %s %s\n" % tuple(f) for f in spec["fetch"]).encode(enc)
    tags = [p for p in tree if tree[p] is not None and not p.startswith("data/")
            and not p.startswith("tagmanifest-")]
    for alg in spec.get("tagalgs", []):
        tree["tagmanifest-%s.txt" % alg] = "".join(
            "%s %s\n" % (digest(alg, tree[p]), p) for p in sorted(tags)).encode(enc)
    return tree


def _mkdirs(tree, d):
    while d:
        if d in tree and tree[d] is not None:
            raise ValueError("path conflict " + d)
        tree[d] = None
        d = os.path.dirname(d)


def write_tree(tree, root, mtimes=None):
    os.makedirs(root, exist_ok=True)
    for p in sorted(tree):
        full = os.path.join(root, p)
        if tree[p] is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as fd:
                fd.write(tree[p])
    for p, t in (mtimes or {}).items():
        os.utime(os.path.join(root, p), (t, t))


def write_bag(spec, parent):
    root = os.path.join(parent, spec["name"])
    tree = build(spec)
    write_tree(tree, root, spec.get("mtimes"))
    for p, m in spec.get("modes", {}).items():
        os.chmod(os.path.join(root, p), m)
    return root


# ------------------------------------------------------------------ packing
FORMS = ("dir", "zip", "tar", "tgz", "tar.gz", "tar.bz2")


def pack(root, form, order=None, direntries=True, remove=True, dest=None):
    """serialize the bag directory root as root.<form>; returns the new path"""
    if form == "dir":
        return root
    name = os.path.basename(root)
    out = dest or (root + "." + form)
    items = []
    for d, subs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel
        items.append((rel, d, True, not subs and not files))
        for f in files:
            items.append((os.path.join(rel, f), os.path.join(d, f), False, False))
    if order is None:
        items.sort()
    else:
        from .seam import H
        items.sort(key=lambda e: (H("pack", order, e[0]), e[0]))
    if form == "zip":
        with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
            for rel, full, isdir, empty in items:
                arc = name + ("/" + rel if rel else "")
                if isdir:
                    # directories are implied by their files; empty ones need an entry
                    if direntries or empty:
                        z.writestr(zipfile.ZipInfo(arc + "/", (2020, 1, 2, 3, 4, 6)), b"")
                else:
                    zi = zipfile.ZipInfo(arc, (2020, 1, 2, 3, 4, 6))
                    zi.compress_type = zipfile.ZIP_DEFLATED
                    with open(full, "rb") as fd:
                        z.writestr(zi, fd.read())
    else:
        buf = io.BytesIO()
        with tarfile.open(fileobj=buf, mode="w:", format=tarfile.PAX_FORMAT) as t:
            for rel, full, isdir, empty in items:
                arc = name + ("/" + rel if rel else "")
                if isdir:
                    if direntries or empty:
                        ti = tarfile.TarInfo(arc)
                        ti.type = tarfile.DIRTYPE
                        ti.mode = 0o755
                        ti.mtime = 1577934246
                        t.addfile(ti)
                else:
                    ti = tarfile.TarInfo(arc)
                    with open(full, "rb") as fd:
                        data = fd.read()
                    ti.size = len(data)
                    ti.mode = 0o644
                    ti.mtime = 1577934246
                    t.addfile(ti, io.BytesIO(data))
        data = buf.getvalue()
        if form in ("tgz", "tar.gz"):
            data = gzip.compress(data, 1, mtime=0)
        elif form == "tar.bz2":
            data = bz2.compress(data, 1)
        with open(out, "wb") as fd:
            fd.write(data)
    if remove:
        rmtree(root)
    return out


def unpack(path, dest_parent):
    """unpack an archive written by pack() with our own code"""
    if path.endswith(".zip"):
        with zipfile.ZipFile(path) as z:
            for zi in z.infolist():
                full = os.path.join(dest_parent, zi.filename)
                if zi.filename.endswith("/"):
                    os.makedirs(full, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, "wb") as fd:
                        fd.write(z.read(zi))
    else:
        with tarfile.open(path) as t:
            for ti in t.getmembers():
                full = os.path.join(dest_parent, ti.name)
                if ti.isdir():
                    os.makedirs(full, exist_ok=True)
                else:
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    with open(full, "wb") as fd:
                        fd.write(t.extractfile(ti).read())


def bagname(path):
    n = os.path.basename(path)
    for e in (".tar.gz", ".tar.bz2", ".zip", ".tgz", ".tar"):
        if n.endswith(e):
            return n[:-len(e)]
    return n


# ------------------------------------------------------------------ reading
def rmtree(p):
    if os.path.islink(p) or os.path.isfile(p):
        os.unlink(p)
        return
    if not os.path.isdir(p):
        return
    for d, subs, files in os.walk(p, topdown=False):
        for f in files:
            os.unlink(os.path.join(d, f))
        for s in subs:
            s = os.path.join(d, s)
            if os.path.islink(s):
                os.unlink(s)
            else:
                os.rmdir(s)
    os.rmdir(p)


def read_tree(root):
    """{relpath: bytes | None for a directory}; {} when root does not exist"""
    out = {}
    if os.path.isfile(root):
        with open(root, "rb") as fd:
            return {"": fd.read()}
    for d, subs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        rel = "" if rel == "." else rel + "/"
        for s in subs:
            out[rel + s] = None
        for f in files:
            with open(os.path.join(d, f), "rb") as fd:
                out[rel + f] = fd.read()
    return out


def snap(path, meta=False):
    """a compact fingerprint of a file or directory tree, including names and content (and
    permissions and modification times)"""
    t = read_tree(path)
    if meta:
        out = {}
        for p, v in t.items():
            st = os.stat(os.path.join(path, p))
            out[p] = (v is not None and hashlib.blake2b(v, digest_size=12).hexdigest(),
                      st.st_mode, st.st_mtime_ns)
        return out
    return {p: (None if v is None else hashlib.blake2b(v, digest_size=12).hexdigest())
            for p, v in t.items()}


def empty_dirs(tree):
    nonempty = set()
    for p in tree:
        d = os.path.dirname(p)
        while d:
            nonempty.add(d)
            d = os.path.dirname(d)
    return sorted(p for p in tree if tree[p] is None and p not in nonempty)


class Unreadable(Exception):
    pass


def text(data, what, enc="utf-8"):
    try:
        return data.decode(enc)
    except (UnicodeDecodeError, LookupError):
        raise Unreadable("%s is not %s text" % (what, enc))


def enc_of(tree):
    """the encoding of the special files, as declared"""
    m = re.search(rb"(?m)^Tag-File-Character-Encoding:[ \t]*(\S+)", tree.get("bagit.txt") or b"")
    return m.group(1).decode("latin-1") if m else "utf-8"


def parse_manifest(data, what="manifest", enc="utf-8"):
    out = {}
    for line in text(data, what, enc).split("\n"):
        if not line.strip() or line.startswith("#"):
            continue
        parts = line.strip().split(None, 1)
        if len(parts) != 2:
            raise Unreadable("bad line in %s: %r" % (what, line))
        p = parts[1].lstrip("*")
        p = os.path.normpath(p)
        if p in out and out[p] != parts[0].lower():
            raise Unreadable("conflicting entries for %s in %s" % (p, what))
        out[p] = parts[0].lower()
    return out


def parse_info(data, what="bag-info.txt", enc="utf-8"):
    """ordered list of [key, value] with continuation lines folded"""
    out = []
    for line in text(data, what, enc).split("\n"):
        line = line.rstrip("\r")
        if not line.strip():
            continue
        if line[0] in " \t":
            if not out:
                raise Unreadable("continuation line first in %s" % what)
            out[-1][1] += line
            continue
        if ":" not in line:
            raise Unreadable("bad line in %s: %r" % (what, line))
        k, v = line.split(":", 1)
        out.append([k.strip(), v])
    return [[k, re.sub(r"\s+", " ", v.strip())] for k, v in out]


def get(info, key):
    return [v for k, v in info if k == key]


def lines(data, what):
    return [l for l in text(data, what).split("\n") if l.strip()]


def entries(tree, kind="manifest"):
    """{alg: {path: hash}} from the manifests of the tree"""
    out = {}
    for p in tree:
        m = re.match(r"^%s-(\w+)\.txt$" % kind, p)
        if m and tree[p] is not None:
            out[m.group(1)] = parse_manifest(tree[p], p, enc_of(tree))
    if kind == "manifest" and any(q not in tree for e in out.values() for q in e):
        # names that differ from those on disk in their Unicode normalization only
        disk = {}
        for q in payload(tree):
            disk.setdefault(nfc(q), []).append(q)
        for a, e in out.items():
            for q in list(e):
                d = disk.get(nfc(q), [])
                if q not in tree and len(d) == 1 and d[0] not in e:
                    e[d[0]] = e.pop(q)
    return out


def nfc(p):
    return unicodedata.normalize("NFC", p)


def info_of(tree):
    if tree.get("bag-info.txt") is None:
        return []
    return parse_info(tree["bag-info.txt"], enc=enc_of(tree))


def payload(tree):
    return {p: v for p, v in tree.items() if p.startswith("data/") and v is not None}


def extras(tree):
    """extra (non-BagIt) tag files"""
    return {p: v for p, v in tree.items() if v is not None and not p.startswith("data/")
            and not ROOT_SPECIAL.match(p)}


def verify(tree, tagfiles=True, allow_missing=()):
    """independent validity check of a bag tree; list of problems"""
    bad = []
    if tree.get("bagit.txt") is None:
        return ["no bagit.txt"]
    try:
        decl = parse_info(tree["bagit.txt"], "bagit.txt")
        if not get(decl, "BagIt-Version") or not get(decl, "Tag-File-Character-Encoding"):
            bad.append("bagit.txt incomplete")
        if "data" not in tree or tree["data"] is not None:
            bad.append("no data directory")
        man = entries(tree)
        if not man:
            bad.append("no payload manifest")
        pl = payload(tree)
        listed = set()
        for alg in man:
            for p, h in man[alg].items():
                listed.add(p)
                if p not in pl:
                    if p not in allow_missing:
                        bad.append("listed payload file missing: %s" % p)
                elif digest(alg, pl[p]) != h:
                    bad.append("checksum mismatch (%s): %s" % (alg, p))
        for p in pl:
            if p not in listed:
                bad.append("payload file in no manifest: %s" % p)
        for ox in get(info_of(tree), "Payload-Oxum")[:1]:
            want = "%d.%d" % (sum(len(v) for v in pl.values()), len(pl))
            if re.sub(r"^0+(?=\d)|(?<=\.)0+(?=\d)", "", ox) != want:      # 010.2 is 10.2
                bad.append("Payload-Oxum %s, actual %s" % (ox, want))
        if tagfiles:
            for alg, ent in entries(tree, "tagmanifest").items():
                for p, h in ent.items():
                    if tree.get(p) is None:
                        bad.append("listed tag file missing: %s" % p)
                    elif digest(alg, tree[p]) != h:
                        bad.append("tag checksum mismatch (%s): %s" % (alg, p))
    except Unreadable as ex:
        bad.append(str(ex))
    return sorted(set(bad))


# ------------------------------------------------------------------ multibag tag files
def tagdir_of(tree):
    v = get(info_of(tree), "Multibag-Tag-Directory")
    return v[-1] if v else "multibag"


def members(tree):
    """[(name, uri, [info], comment)] from member-bags.tsv"""
    td = tagdir_of(tree)
    data = tree.get(td + "/member-bags.tsv")
    if data is None:
        raise Unreadable("no member-bags.tsv")
    out = []
    for l in lines(data, "member-bags.tsv"):
        f = l.strip().split("\t")
        name = f.pop(0).strip()
        comment = None
        if f and f[-1].startswith("#"):
            comment = f.pop().lstrip("#").strip()
        uri = (f.pop(0) or None) if f else None
        out.append((name, uri, f, comment))
    return out


def lookup(tree):
    """[(path, bag)] from file-lookup.tsv"""
    td = tagdir_of(tree)
    data = tree.get(td + "/file-lookup.tsv")
    if data is None:
        raise Unreadable("no file-lookup.tsv")
    out = []
    for l in lines(data, "file-lookup.tsv"):
        f = [x.strip() for x in l.strip().split("\t")]
        if len(f) < 2:
            raise Unreadable("bad line in file-lookup.tsv: %r" % l)
        out.append((f[0], f[1]))
    return out


def deleted(tree):
    data = tree.get(tagdir_of(tree) + "/deleted.txt")
    if data is None:
        return set()
    return set(l.strip() for l in lines(data, "deleted.txt"))


def is_head(tree):
    try:
        return bool(get(info_of(tree), "Multibag-Head-Version"))
    except Unreadable:
        return False
