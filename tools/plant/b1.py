S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c01-manifest-like-name", prop="C01",
 edits=[(X, r'r"^(tag)?manifest-(\w+)\.txt$".split()]', r'r"^(tag)?manifest-(.+)\.txt$".split()]'),
        (S, r'r"^/(tag)?manifest-(\w+)\.txt$".split()]', r'r"^/(tag)?manifest-(.+)\.txt$".split()]')],
 needs="a root-level tag file whose name looks like a manifest's but is not one, e.g. manifest-read-me.txt",
 breaks="the file is taken for a manifest by both sites that filter the special files, and is dropped from the split",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50, "manifest-read-me.txt": "about the manifests\\n"})
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"))
restore_bag(outs[-1], p("back"))
check(tree(p("back")).get("manifest-read-me.txt") == b"about the manifests\\n", "extra tag file lost")
'''),
dict(id="c02-data-prefix", prop="C02",
 edits=[(S, 'if file.startswith("data"+os.sep):', 'if file.startswith("data"):')],
 needs="an extra tag file at the root whose name starts with data",
 breaks="the tag file is counted as payload, so that the piece's Payload-Oxum is wrong and its checksum goes missing",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50, "data-dictionary.txt": "col1\\n"})
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"))
for o in outs:
    check(isvalid(o), "piece not valid: " + os.path.basename(o))
'''),
dict(id="c03-tie-order", prop="C03",
 edits=[(S, """        if out != 0:
            return out
        return ((infoa['path'] < infob['path']) and -1) or \\
               ((infoa['path'] > infob['path']) and +1) or 0
""", """        return out
""")],
 needs="several files of the same size, and a file system that lists them in a different order",
 breaks="equally sized files are distributed in directory listing order",
 demo='''
import fs.osfs
from multibag.split import WellPackedSplitter
src = mkbag("src", dict(("data/f%d" % i, b"z" * 30) for i in range(6)))
real = os.scandir
class Scan(object):
    def __init__(self, path, rev):
        with real(path) as it:
            self.items = sorted(it, key=lambda e: e.name, reverse=rev)
    def __iter__(self): return iter(self.items)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
plans = []
for rev in (False, True):
    fs.osfs.scandir = lambda path, rev=rev: Scan(path, rev)
    plans.append([sorted(m["contents"]) for m in WellPackedSplitter(65).plan(src).manifests()])
check(plans[0] == plans[1], "the plan depends on listing order")
'''),
dict(id="c03-neighbor-target", prop="C03",
 edits=[(S, """                    self._add_to_manifest(finfos, i, manifest)
                    if newsz > self.tsz:
                        # exceeded our target size; start a new one
                        return -1
            else:""", """                    self._add_to_manifest(finfos, i, manifest)
                    if newsz > self.maxsz:
                        # exceeded our target size; start a new one
                        return -1
            else:""")],
 needs="the neighborly strategy with a target size below the maximum",
 breaks="bags are filled to the maximum; the target is exceeded by more than the one file that crosses it",
 demo='''
from multibag.split import NeighborlySplitter
src = mkbag("src", dict(("data/f%d" % i, b"z" * 30) for i in range(8)))
for m in NeighborlySplitter(200, 50).plan(src).manifests():
    check(len(m["contents"]) <= 2, "target exceeded by more than a file")
'''),
dict(id="c04-copy-error-dropped", prop="C04",
 edits=[(X, """                    logger.error(msg, exc_info=True)
                raise
""", """                    logger.error(msg, exc_info=True)
                if not os.path.isfile(destpath):
                    raise
""")],
 needs="a copy (hard links unavailable or refused) that fails after the destination file was created, such as on a full disk",
 breaks="the split returns normally with a truncated file",
 demo='''
import shutil, errno
from multibag.split import SplitPlan
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
def nolink(a, b): raise OSError(errno.EXDEV, "no links")
def full(a, b, **kw):
    with open(b, "wb") as fd: fd.write(get(a)[:10])
    if a.endswith("data/b"): raise OSError(errno.ENOSPC, "full")
    with open(b, "wb") as fd: fd.write(get(a))
os.link, shutil.copy = nolink, full
os.mkdir(p("out"))
plan = SplitPlan(src)
plan.complete_plan()
try:
    outs = list(plan.apply_iter(p("out")))
except OSError:
    sys.exit(0)
check(payload(outs[0]) == payload(src), "truncated file and no error")
'''),
dict(id="c05-walk-ignores-errors", prop="C05",
 edits=[(X, "witer = root.fs.walk.walk()", "witer = root.fs.walk.walk(ignore_errors=True)")],
 needs="a failure to list a subdirectory of a member bag",
 breaks="files below a directory that cannot be listed are silently left out of the restored bag",
 demo='''
import fs.osfs, errno
from multibag.restore import restore_bag
mkbag("store/m1", {"data/sub/a": "aaa"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
real = fs.osfs.scandir
def bad(path):
    if str(path).rstrip("/").endswith("m1/data/sub"):
        raise OSError(errno.EIO, "I/O error")
    return real(path)
fs.osfs.scandir = bad
try:
    restore_bag(p("store/hd"), p("back"))
except Exception:
    sys.exit(0)
check("data/sub/a" in payload(p("back")), "no error but a file is missing")
'''),
dict(id="c06-deleted-unreadable", prop="C06",
 edits=[(M, """        if not self.exists(delfile):
            return
        
        with self.open_text_file(delfile) as fd:
            for line in fd:
                if line.strip():
                    yield parseline(line)
""", """        try:
            fd = self.open_text_file(delfile)
        except Exception:
            # nothing has been deleted
            return

        with fd:
            for line in fd:
                if line.strip():
                    yield parseline(line)
""")],
 needs="a passing failure to open the amended head's deleted.txt",
 breaks="an amendment silently forgets all earlier deletions",
 demo='''
import fs.osfs, errno
from multibag.amend import amend_bag_with
mkbag("store/m1", {"data/a": "aaa", "data/x": "xxx"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"], {"data/a": "m1", "data/b": "hd"}, deleted=["data/x"])
mkbag("store/am", {"data/c": "ccc"})
realopen, realbin = fs.osfs.OSFS.open, fs.osfs.OSFS.openbin
def bad(real):
    def f(self, path, *a, **k):
        if path.endswith("deleted.txt"): raise OSError(errno.EIO, "I/O error")
        return real(self, path, *a, **k)
    return f
fs.osfs.OSFS.open, fs.osfs.OSFS.openbin = bad(realopen), bad(realbin)
try:
    amend_bag_with(p("store/hd"), p("store/am"), "2")
except Exception:
    sys.exit(0)
check(b"data/x" in tree(p("store/am")).get("multibag/deleted.txt", b""), "deletion forgotten")
'''),
dict(id="c07-restore-by-link", prop="C07",
 edits=[(R, "        srcbag = as_extended(open_bag(srcbag))\n", "        if os.path.isdir(srcbag) and srcbag != self._head.path:\n            # replicate with hard links when possible\n            srcbag = as_extended(Bag(srcbag))\n        else:\n            srcbag = as_extended(open_bag(srcbag))\n")],
 needs="a member bag kept as a directory that has a manifest for an algorithm that no later member has",
 breaks="the member's manifest file is hard-linked into the destination and then rewritten in place with the combined manifest",
 demo='''
from multibag.restore import restore_bag
mkbag("store/m0", {"data/z": "zzz"}, algs=("md5", "sha256"))
mkbag("store/m1", {"data/a": "aaa"}, algs=("md5", "sha256"))
mkhead("store/hd", {"data/b": "bbb"}, ["m0", "m1", "hd"])
before = tree(p("store"))
restore_bag(p("store/hd"), p("back"))
check(tree(p("store")) == before, "a member bag was altered")
'''),
dict(id="c08-basename-deleted", prop="C08",
 edits=[(R, """            for f in files:
                if os.path.join(root, f) in skip:
                    continue
""", """            for f in files:
                if f in skip or os.path.join(root, f) in skip:
                    continue
""")],
 needs="a deleted root-level tag file and a payload file with the same base name",
 breaks="the similarly named payload file is left out of the restored bag",
 demo='''
from multibag.restore import restore_bag
mkbag("store/m1", {"data/sub/notes.txt": "aaa", "notes.txt": "old"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"], deleted=["notes.txt"])
restore_bag(p("store/hd"), p("back"))
check("data/sub/notes.txt" in payload(p("back")), "undeleted file left out")
'''),
dict(id="c09-recs-details", prop="C09",
 edits=[(A, """                self._newhead.add_member_bag(mi.name, mi.uri, mi.comment,
                                             mi.info)
""", """                self._newhead.add_member_bag(mi.name, mi.uri, mi.comment,
                                             mi.uri and mi.info)
""")],
 needs="a member listed with extra fields but without an identifier",
 breaks="the extra fields recorded for the member are lost when the aggregation is amended",
 demo='''
from multibag.amend import amend_bag_with
mkbag("store/m1", {"data/a": "aaa"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1\\t\\tdisk 7\\t# first", "hd"], {"data/a": "m1", "data/b": "hd"})
mkbag("store/am", {"data/c": "ccc"})
amend_bag_with(p("store/hd"), p("store/am"), "2")
lines = text(p("store/am/multibag/member-bags.tsv")).split("\\n")
check(lines[0].split("\\t")[2:3] == ["disk 7"], "recorded details lost: " + repr(lines[0]))
'''),
dict(id="c10-archive-prefix", prop="C10",
 edits=[(R, "        sers = [f for f in [bagdir+e for e in serialized_extensions] if os.path.isfile(f)]\n",
 """        sers = []
        if os.path.isdir(self._cachedir):
            sers = [os.path.join(self._cachedir, f) for f in sorted(os.listdir(self._cachedir))
                       if f.startswith(bagname+'.') and f.endswith(tuple(serialized_extensions))]
""")],
 needs="serialized bags whose names extend one another at a dot, such as mds.1.zip and mds.zip",
 breaks="the wrong version's bag is taken for a member and the restored content is wrong",
 demo='''
from multibag.restore import restore_bag
pack(mkbag("store/mds", {"data/a": "one"}), "zip")
pack(mkhead("store/mds.1", {"data/b": "two"}, ["mds", "mds.1"]), "zip")
mkhead("store/mds.2", {"data/c": "three"}, ["mds", "mds.1", "mds.2"])
restore_bag(p("store/mds.2"), p("back"))
check(sorted(payload(p("back"))) == ["data/a", "data/b", "data/c"], "content: " + repr(sorted(payload(p("back")))))
'''),
dict(id="c11-manifests-flushed-late", prop="C11",
 edits=[(S, """            payload_count = 0
            payload_size = 0
            for file in m['contents']:
""", """            payload_count = 0
            payload_size = 0
            recorded = []
            for file in m['contents']:
"""), (S, """                        for alg in hashes:
                            self._record_hash(bagdir, alg, hashes[alg],
                                              file, mantype)
""", """                        for alg in hashes:
                            recorded.append((alg, hashes[alg], file, mantype))
"""), (S, """            yield bagdir

""", """            # save the checksums
            for alg, hash, file, mantype in recorded:
                self._record_hash(bagdir, alg, hash, file, mantype)

            yield bagdir

""")],
 needs="a crash after the head's bag-info.txt is written and before its manifests are",
 breaks="what is left is recognised as a head bag but lacks its checksums",
 demo='''
import io
from multibag.split import WellPackedSplitter
from multibag.access.multibag import is_headbag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
class Crash(BaseException): pass
real = io.open
for n in range(1, 60):
    out = p("out%d" % n)
    os.mkdir(out)
    count = [0]
    def limited(f, *a, **k):
        mode = a[0] if a else k.get("mode", "r")
        if mode[0] in "wa":
            count[0] += 1
            if count[0] > n: raise Crash()
        return real(f, *a, **k)
    io.open = limited
    try:
        WellPackedSplitter(60).split(src, out)
        done = True
    except Crash:
        done = False
    finally:
        io.open = real
    for b in sorted(os.listdir(out)):
        b = os.path.join(out, b)
        if os.path.isfile(b + "/bagit.txt") and is_headbag(b) and payload(b):
            check(isvalid(b), "incomplete bag is recognised as a head bag")
    if done: break
'''),
dict(id="c12-baginfo-last", prop="C12",
 edits=[(R, """            for f in files:
                if os.path.join(root, f) in skip:
                    continue
""", """            for f in files:
                if os.path.join(root, f) in skip or os.path.join(root, f) == "bag-info.txt":
                    # (bag-info.txt gets written last)
                    continue
"""), (R, """        for member in members:
            self.restore_member(member.name, skip)
""", """        for member in members:
            self.restore_member(member.name, skip)
        if agginfo is None and self._head.isfile("bag-info.txt"):
            with self._head.open_text_file("bag-info.txt") as fd:
                agginfo = fd.read()
""")],
 needs="a crash after the head bag's files and manifests were restored and before all members were",
 breaks="the unfinished destination is a valid bag that is not marked as a head bag",
 demo='''
from multibag.restore import BagRestorer
from multibag.access.multibag import is_headbag
mkbag("store/m1", {"data/a": "aaa"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
class Crash(BaseException): pass
class R(BagRestorer):
    def get_member_bag(self, name): raise Crash()
try:
    R(p("store/hd"), p("back")).restore()
except Crash:
    pass
check(not os.path.isfile(p("back/bagit.txt")) or is_headbag(p("back")) or not isvalid(p("back")),
      "an unfinished restore looks finished")
'''),
dict(id="c13-deprecates-twice", prop="C13",
 edits=[(A, """        else:
            self._newhead.info['Multibag-Head-Deprecates'] = []

        self._newhead.info""", """        else:
            # keep any deprecations already set in the amendment
            deps = self._newhead.info.get('Multibag-Head-Deprecates', [])
            if not isinstance(deps, list):
                deps = [ deps ]
            self._newhead.info['Multibag-Head-Deprecates'] = deps

        self._newhead.info""")],
 needs="the first amendment of an aggregation killed after bag-info.txt was saved, then redone",
 breaks="the redone amendment deprecates the same version twice",
 demo='''
import bagit
from multibag.amend import amend_bag_with
from multibag.access.bagit import open_bag
import multibag.access.multibag as mm
mkbag("store/old", {"data/a": "aaa"})
mkbag("store/am", {"data/c": "ccc"})
class Crash(BaseException): pass
real = mm.HeadBagUpdateMixin._bag_size
def crash(self): raise Crash()
mm.HeadBagUpdateMixin._bag_size = crash
try:
    amend_bag_with(p("store/old"), p("store/am"), "2")
except Crash:
    pass
mm.HeadBagUpdateMixin._bag_size = real
try:
    amend_bag_with(p("store/old"), p("store/am"), "2")
except Exception:
    sys.exit(0)
d = open_bag(p("store/am")).info["Multibag-Head-Deprecates"]
check(d == "1" or d == ["1"], "deprecations: " + repr(d))
'''),
dict(id="c14-empty-lookup-not-saved", prop="C14",
 edits=[(M, """        if self._filelu is None:
            return

        self.ensure_tagdir()
        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                               'file-lookup.tsv')
""", """        if not self._filelu:
            return

        self.ensure_tagdir()
        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                               'file-lookup.tsv')
""")],
 needs="the last lookup entry being removed and the table saved",
 breaks="the removed entry is back when the bag is opened again",
 demo='''
from multibag.access.multibag import HeadBag
mkhead("hd", {"data/b": "bbb"}, ["hd"], {"data/b": "hd"})
h = HeadBag(p("hd"))
h.remove_file_lookup("data/b")
h.save_file_lookup()
check(HeadBag(p("hd")).lookup_file("data/b") is None, "removed entry is back")
'''),
dict(id="c14-dup-member", prop="C14",
 edits=[(M, """            for i in reversed(idxs):
                del self._memberbags[i]
""", """            if idxs:
                del self._memberbags[idxs[-1]]
""")],
 needs="a member listed more than once (added with override=False) being removed",
 breaks="the member remains listed after it was removed",
 demo='''
from multibag.access.multibag import HeadBag
mkhead("hd", {"data/b": "bbb"}, ["hd"])
h = HeadBag(p("hd"))
h.add_member_bag("m1"); h.add_member_bag("m1", override=False)
h.remove_member_bag("m1")
h.save_member_bags()
check(HeadBag(p("hd")).member_bag_names == ["hd"], "removed member still listed")
'''),
dict(id="c15-nested-bag", prop="C15",
 edits=[(B, """                for d in bfs.walk.dirs():
                    if bfs.isfile("/".join([d, "bagit.txt"])):
                        name = d
                        break
""", """                for f in sorted(bfs.walk.files(filter=["bagit.txt"])):
                    name = os.path.dirname(f)
                    break
""")],
 needs="a serialized bag holding another bag below a directory that sorts before bagit.txt, such as a root directory named attic",
 breaks="the inner bag is opened instead of the bag",
 demo='''
from multibag.access.bagit import open_bag
mkbag("b1", {"data/x": "xxx", "attic/bagit.txt": "BagIt-Version: 0.97\\nTag-File-Character-Encoding: UTF-8\\n"})
z = pack(p("b1"), "zip")
b = open_bag(z)
check(b.isfile("data/x"), "wrong bag opened")
'''),
dict(id="c16-one-algorithm", prop="C16",
 edits=[(B, "        (alg, hashlib.new(alg)) for alg in hashes if alg in algorithms\n", "        (alg, hashlib.new(alg)) for alg in list(hashes)[:1] if alg in algorithms\n")],
 needs="a bag with manifests for two algorithms of which only the second disagrees with the payload",
 breaks="the mismatch is not detected",
 demo='''
from multibag.access.bagit import open_bag, BagError
mkbag("b1", {"data/x": "xxx"}, algs=("md5", "sha256"))
for alg in ("md5", "sha256"):
    mf = p("b1/manifest-%s.txt" % alg)
    good = text(mf)
    put(mf, "0" * 32 + good[32:])
    try:
        open_bag(p("b1")).validate()
        ok = True
    except BagError:
        ok = False
    check(not ok, "bad %s checksum accepted" % alg)
    put(mf, good)
'''),
dict(id="c16-short-read", prop="C16",
 edits=[(B, """                block = f.read(HASH_BLOCK_SIZE)
                if not block:
                    break
                for i in f_hashers.values():
                    i.update(block)
""", """                block = f.read(HASH_BLOCK_SIZE)
                for i in f_hashers.values():
                    i.update(block)
                if len(block) < HASH_BLOCK_SIZE:
                    break
""")],
 needs="a read that returns less than was asked for before the end of the file",
 breaks="a sound bag is rejected (or only the beginning of a file is verified)",
 demo='''
import io
from multibag.access import bagit as mb
mkbag("b1", {"data/x": "abcdef" * 10})
real = mb.open_bin_file
class Short(object):
    def __init__(self, f): self.f = f
    def read(self, n=-1): return self.f.read(min(n, 7) if n > 0 else n)
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
mb.open_bin_file = lambda *a, **k: Short(real(*a, **k))
try:
    mb.open_bag(p("b1")).validate()
except mb.BagError as ex:
    check(False, "sound bag rejected: " + str(ex))
'''),
dict(id="c17-deprecates-bagname", prop="C17",
 edits=[(H, """            selfdeprecating = selfdeprecating or parts[0] == headver or \\
                              (len(parts) > 1 and parts[1] == self.bag._name)
""", """            selfdeprecating = parts[0] == headver or \\
                              (len(parts) > 1 and parts[1] == self.bag._name)
""")],
 needs="a head bag that deprecates itself in an entry that is not the last one",
 breaks="the warning about deprecating itself is not given",
 demo='''
from multibag.validate.headbag import HeadBagValidator
mkhead("hd", {"data/b": "bbb"}, ["hd"], {"data/b": "hd"}, version="3",
       info=[("Multibag-Head-Deprecates", "3"), ("Multibag-Head-Deprecates", "1")])
res = HeadBagValidator(p("hd")).validate()
check(any("notselfdep" in i.label for i in res.failed()), "no warning")
'''),
dict(id="c18-members-listed", prop="C18",
 edits=[(S, "            memberbags.append(bagname)\n", "            memberbags = [b for b in memberbags if b in oldmembers or\n                          os.path.isdir(os.path.join(outdir, b))] + [bagname]\n"),
  (S, "        for m in self.manifests():\n            bagname = m.get('name')\n            if naming_iter:\n", "        oldmembers = list(memberbags)\n        for m in self.manifests():\n            bagname = m.get('name')\n            if naming_iter:\n")],
 needs="the caller packing or moving a finished piece before asking for the next one",
 breaks="the head's member list leaves out pieces that were moved away",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50, "data/c": b"z" * 50})
os.mkdir(p("out"))
names = []
for o in WellPackedSplitter(60).plan(src).apply_iter(p("out")):
    names.append(os.path.basename(o))
    last = text(o + "/multibag/member-bags.tsv") if os.path.isdir(o + "/multibag") else ""
    pack(o, "tgz")
check([l.split("\\t")[0] for l in last.split()] == names, "members: " + repr(last))
'''),
dict(id="c19-splitext", prop="C19",
 edits=[(R, "        sers = [f for f in [bagdir+e for e in serialized_extensions] if os.path.isfile(f)]\n",
 """        sers = []
        if os.path.isdir(self._cachedir):
            for f in sorted(os.listdir(self._cachedir)):
                base, ext = os.path.splitext(f)
                if base == bagname and ext in serialized_extensions:
                    sers.append(os.path.join(self._cachedir, f))
""")],
 needs="a cached member with a two-part extension (.tar.gz or .tar.bz2)",
 breaks="the fetcher is called for a member that is already in the cache",
 demo='''
from multibag.restore import restore_bag
pack(mkbag("store/m1", {"data/a": "aaa"}), "tar.gz")
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
calls = []
def fetch(name, d):
    calls.append(name)
    return os.path.join(d, name + ".tar.gz")
restore_bag(p("store/hd"), p("back"), p("store"), fetch)
check(calls == [], "fetched although cached: " + repr(calls))
'''),
dict(id="c20-shared-unpack", prop="C20",
 edits=[(R, "        srcbag = as_extended(open_bag(srcbag))\n", """        unpacked = None
        if os.path.isfile(srcbag) and not srcbag.endswith(".zip"):
            # random access into a (compressed) tar ball is slow; unpack it first
            import tarfile
            unpacked = os.path.join(self._cachedir, "_unpacked")
            if os.path.isdir(unpacked):
                shutil.rmtree(unpacked)
            with tarfile.open(srcbag) as tf:
                tf.extractall(unpacked)
            srcbag = os.path.join(unpacked, os.listdir(unpacked)[0])
        srcbag = as_extended(open_bag(srcbag))
"""), (R, """            if rmtime:
                os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))

""", """            if rmtime:
                os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))

        if unpacked:
            shutil.rmtree(unpacked)
""")],
 needs="two restores using tar-serialized members from the same directory at the same time",
 breaks="one restore removes or replaces the files that the other has unpacked",
 demo='''
from multibag.restore import BagRestorer, restore_bag
for n in "12":
    pack(mkbag("store/m" + n, {"data/a" + n: "aaa" + n, "data/b" + n: "b"}), "tgz")
    mkhead("store/h" + n, {"data/c" + n: "ccc"}, ["m" + n, "h" + n])
import multibag.access.extended as ext
# while the first job copies its member's files, a second one (another process) runs
done = []
import shutil, subprocess
real = ext._ExtendedReadOnlyMixin.replicate
def repl(self, path, dest, *a):
    if path.startswith("data/a1") and not done:
        done.append(1)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                restore_bag(p("store/h2"), p("back2"))
            except BaseException:
                rc = 1
            os._exit(rc)
        os.waitpid(pid, 0)
    return real(self, path, dest, *a)
ext._ExtendedReadOnlyMixin.replicate = repl
restore_bag(p("store/h1"), p("back1"))
check(sorted(payload(p("back1"))) == ["data/a1", "data/b1", "data/c1"], "content: " + repr(payload(p("back1"))))
check(sorted(payload(p("back2"))) == ["data/a2", "data/b2", "data/c2"], "content: " + repr(payload(p("back2"))))
'''),
dict(id="c21-save-manifests", prop="C21",
 edits=[(M, """        Bag.save(self)
        self.info['Bag-Size'] = self._bag_size()
        Bag.save(self)
""", """        Bag.save(self, manifests=True)
        self.info['Bag-Size'] = self._bag_size()
        Bag.save(self)
""")],
 needs="an amendment or converted bag with a payload file damaged beforehand",
 breaks="the checksums are recomputed from the damaged file and the bag validates",
 demo='''
from multibag.amend import amend_bag_with
mkbag("store/old", {"data/a": "aaa"})
mkbag("store/am", {"data/c": "ccc"})
put(p("store/am/data/c"), "cXc")
try:
    amend_bag_with(p("store/old"), p("store/am"), "2")
except Exception:
    sys.exit(0)
check(not isvalid(p("store/am")), "damage laundered")
'''),
]
