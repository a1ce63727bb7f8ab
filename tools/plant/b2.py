S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c01-empty-tagdir", prop="C01",
 edits=[(X, "            if len(subdirs) == 0 and len(files) == 0:\n",
            "            if len(subdirs) == 0 and len(files) == 0 and dir.startswith('data/'):\n")],
 needs="an empty directory outside of data",
 breaks="empty tag directories get lost in a split",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50}, dirs=["data/e", "logs/today"])
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"))
restore_bag(outs[-1], p("back"))
check(os.path.isdir(p("back/data/e")) and os.path.isdir(p("back/logs/today")), "empty directory lost")
'''),
dict(id="c02-nopass-prefix", prop="C02",
 edits=[(S, "                    if name in info_nopass:\n", "                    if name.startswith(tuple(info_nopass)):\n")],
 needs="a withheld metadata name that is the beginning of another one in the bag",
 breaks="metadata is withheld that nobody asked to withhold",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50}, info=[("Contact", "me"), ("Contact-Name", "Joe")])
os.mkdir(p("out"))
for o in WellPackedSplitter(60).split(src, p("out"), info_nopass=["Contact"]):
    t = text(o + "/bag-info.txt")
    check("Contact: " not in t, "not withheld")
    check("Contact-Name: Joe" in t, "other metadata withheld as well")
'''),
dict(id="c03-tail-merge", prop="C03",
 edits=[(S, """        if man['contents']:
            self._manifests.append(man)
""", """        if man['contents']:
            last = self._manifests and self._manifests[-1]
            if last and size < last.get('totalsize', 0) // 10:
                # not worth a bag of its own
                last['contents'] += man['contents']
                last['totalsize'] += size
            else:
                self._manifests.append(man)
""")],
 needs="a reserved file that is much smaller than the last bag, which is nearly full",
 breaks="the last bag exceeds the maximum size",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 100, "data/b": b"y" * 100, "data/small": b"z" * 5})
plan = WellPackedSplitter(102, forhead=["data/small"]).plan(src)
for m in plan.manifests():
    sz = sum(os.path.getsize(os.path.join(src, f)) for f in m["contents"])
    check(sz <= 102, "bag of %d bytes" % sz)
'''),
dict(id="c03-target-below-max", prop="C03",
 edits=[(S, """                else:
                    # find a smaller one
                    i += 1
            else:
                self._add_to_manifest(finfos, i, manf)
                if newsz > self.tsz:
""", """                else:
                    # find a smaller one
                    i += 1
            else:
                self._add_to_manifest(finfos, i, manf)
                if newsz >= self.maxsz or (newsz > self.tsz and i == 0):
""")],
 needs="a target below the maximum, and a bag that crosses the target with a file found after skipping larger ones",
 breaks="the bag goes on being filled although the target has been crossed",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 90, "data/b": b"y" * 80, "data/c": b"y" * 12, "data/d": b"y" * 8, "data/e": b"y" * 4})
for m in WellPackedSplitter(120, 95).plan(src).manifests():
    sizes = [os.path.getsize(os.path.join(src, f)) for f in m["contents"]]
    check(sum(sizes[:-1]) <= 95, "target crossed by more than one file: %r" % sizes)
'''),
dict(id="c04-replicate-checked", prop="C04",
 edits=[(S, "                    self.progenitor.replicate(file, bagdir)\n                    if not", """                    try:
                        self.progenitor.replicate(file, bagdir)
                    except (OSError, IOError) as ex:
                        # (reported below)
                        if logger:
                            logger.error("Trouble replicating %s: %s", file, str(ex))
                    if not""")],
 needs="an I/O failure in the middle of copying a file (hard links unavailable)",
 breaks="the split returns normally with a truncated file",
 demo='''
import shutil, errno
from multibag.split import SplitPlan
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
def nolink(a, b): raise OSError(errno.EXDEV, "no links")
def full(a, b, **kw):
    with open(b, "wb") as fd: fd.write(get(a)[:10])
    if a.endswith("data/b"): raise OSError(errno.ENOSPC, "full")
    with open(b, "wb") as fd: fd.write(get(a))
os.link, shutil.copy = nolink, full
os.mkdir(p("out"))
plan = SplitPlan(src)
plan.complete_plan()
try:
    outs = list(plan.apply_iter(p("out")))
except Exception:
    sys.exit(0)
check(payload(outs[0]) == payload(src), "truncated file and no error")
'''),
dict(id="c04-unclosed-manifest", prop="C04",
 edits=[(S, """        with io.open(manpath, 'a', encoding=DEF_ENC) as fd:
            fd.write(hash)
            fd.write(u' ')
            fd.write(path)
            fd.write(u'\\n')
""", """        fd = io.open(manpath, 'a', encoding=DEF_ENC)
        fd.write(u' '.join([hash, path]) + u'\\n')
""")],
 needs="a disk that is full when a manifest line is flushed",
 breaks="the checksum is lost without an error, as the file is closed by the garbage collector",
 demo='''
import io, errno
from multibag.split import SplitPlan
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
real = io.open
class Full(io.FileIO):
    def write(self, b):
        if b"data/b" in bytes(b): raise OSError(errno.ENOSPC, "full")
        return io.FileIO.write(self, b)
def opener(f, mode="r", *a, **k):
    if mode == "a" and "manifest-" in str(f):
        return io.TextIOWrapper(io.BufferedWriter(Full(f, "ab")), encoding="utf-8")
    return real(f, mode, *a, **k)
io.open = opener
sys.unraisablehook = lambda *a: None
os.mkdir(p("out"))
plan = SplitPlan(src)
plan.complete_plan()
try:
    outs = list(plan.apply_iter(p("out")))
except Exception:
    sys.exit(0)
io.open = real
check(isvalid(outs[0]), "no error, but a checksum is missing")
'''),
dict(id="c05-walk-ignores-errors", prop="C05",
 edits=[(X, "witer = root.fs.walk.walk()", "witer = root.fs.walk.walk(ignore_errors=True)")],
 needs="a failure to list a subdirectory of a member bag",
 breaks="files below a directory that cannot be listed are silently left out of the restored bag",
 demo='''
import fs.osfs, errno
from multibag.restore import restore_bag
mkbag("store/m1", {"data/sub/a": "aaa", "data/sub.x": "x"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
real = fs.osfs.scandir
def bad(path):
    if os.fsdecode(path).rstrip("/").endswith("m1/data/sub"):
        raise OSError(errno.EIO, "I/O error")
    return real(path)
fs.osfs.scandir = bad
try:
    restore_bag(p("store/hd"), p("back"))
except Exception:
    sys.exit(0)
check("data/sub/a" in payload(p("back")), "no error but a file is missing")
'''),
dict(id="c05-unclosed-copy", prop="C05",
 edits=[(X, "        copy_file(self._root.fs, path, destfs, path)\n", """        out = destfs.openbin(path, 'w')
        with self._root.fs.openbin(path) as src:
            shutil.copyfileobj(src, out)
""")],
 needs="a disk that is full when the last block of a copied file is flushed",
 breaks="the file is truncated without an error",
 demo='''
import fs.osfs, io, errno
from multibag.restore import restore_bag
mkbag("store/m1", {"data/a": b"a" * 100})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
class Full(io.FileIO):
    def write(self, b): raise OSError(errno.ENOSPC, "full")
real = fs.osfs.OSFS.openbin
def openbin(self, path, mode="r", *a, **k):
    if "w" in mode and path.endswith("data/a"):
        return io.BufferedWriter(Full(self.getsyspath(path), "wb"))
    return real(self, path, mode, *a, **k)
fs.osfs.OSFS.openbin = openbin
sys.unraisablehook = lambda *a: None
import shutil, fs.copy
try:
    restore_bag(p("store/hd"), p("back"))
except Exception:
    sys.exit(0)
check(payload(p("back")).get("data/a") == b"a" * 100, "no error but a file is truncated")
'''),
dict(id="c06-unclosed-members", prop="C06",
 edits=[(M, """        with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
            for mi in self._memberbags:
                out = mi.format()
                if ispy2 and isinstance(out, str):
                    out = out.decode(DEF_ENC)
                fd.write(out)
""", """        fd = io.open(tagfile, 'w', encoding=DEF_ENC)
        for mi in self._memberbags:
            out = mi.format()
            if ispy2 and isinstance(out, str):
                out = out.decode(DEF_ENC)
            fd.write(out)
""")],
 needs="a disk that is full when the member list is flushed",
 breaks="the amendment returns normally with an empty member list",
 demo='''
import io, errno
from multibag.amend import amend_bag_with
mkbag("store/old", {"data/a": "aaa"})
mkbag("store/am", {"data/c": "ccc"})
real = io.open
class Full(io.FileIO):
    def write(self, b): raise OSError(errno.ENOSPC, "full")
def opener(f, mode="r", *a, **k):
    if mode[0] in "wa" and "member-bags.tsv" in str(f):
        return io.TextIOWrapper(io.BufferedWriter(Full(f, "wb")), encoding="utf-8")
    return real(f, mode, *a, **k)
io.open = opener
sys.unraisablehook = lambda *a: None
try:
    amend_bag_with(p("store/old"), p("store/am"), "2")
except Exception:
    sys.exit(0)
io.open = real
check(text(p("store/am/multibag/member-bags.tsv")) == "old\\nam\\n", "no error, but the member list is lost")
'''),
dict(id="c07-drop-bad-copy", prop="C07",
 edits=[(R, "        self._restore_from(src, skip, overwrite)\n\n        if fetch", """        try:
            self._restore_from(src, skip, overwrite)
        except Exception:
            # drop the bad copy from the cache so that it can be obtained anew
            if os.path.isdir(src) and src.startswith(self._cachedir):
                shutil.rmtree(src)
            raise

        if fetch""")],
 needs="a failure while a member's files are being copied, such as a full disk",
 breaks="the member bag is removed from the store",
 demo='''
import errno
from multibag.restore import restore_bag
import multibag.access.extended as ext
mkbag("store/m1", {"data/a": "aaa"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"])
before = tree(p("store"))
real = ext.copy_file
def bad(sf, sp, df, dp, *a, **k):
    if sp.endswith("data/a"): raise OSError(errno.ENOSPC, "full")
    return real(sf, sp, df, dp, *a, **k)
ext.copy_file = bad
try:
    restore_bag(p("store/hd"), p("back"))
except OSError:
    pass
check(tree(p("store")) == before, "a member bag was altered")
'''),
dict(id="c08-root-prefix", prop="C08",
 edits=[(R, "            if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:\n",
            "            if root in skip or len([f for f in skip if root.startswith(f)]) > 0:\n")],
 needs="a deleted path that is the beginning of a directory's path",
 breaks="the files of a similarly named directory are left out as well",
 demo='''
from multibag.restore import restore_bag
mkbag("store/m1", {"data/trial1": "x", "data/trial10/a": "aaa"})
mkhead("store/hd", {"data/b": "bbb"}, ["m1", "hd"], deleted=["data/trial1"])
restore_bag(p("store/hd"), p("back"))
check("data/trial10/a" in payload(p("back")), "undeleted file left out")
'''),
dict(id="c14-hash-in-uri", prop="C14",
 edits=[(M, "            if fields[-1].startswith('#'):\n", "            if '#' in fields[-1]:\n")],
 needs="an identifier or extra field with a # in it",
 breaks="the field is taken for a comment when read back",
 demo='''
from multibag.access.multibag import HeadBag
mkhead("hd", {"data/b": "bbb"}, ["hd"])
h = HeadBag(p("hd"))
h.add_member_bag("m1", "http://ex.org/a#frag")
h.save_member_bags()
check([(m.name, m.uri, m.comment) for m in HeadBag(p("hd")).member_bags()] ==
      [("hd", None, None), ("m1", "http://ex.org/a#frag", None)], "identifier not read back")
'''),
dict(id="c14-member-prefix", prop="C14",
 edits=[(M, "            if member == bagname:\n", "            if member.startswith(bagname):\n")],
 needs="removing a member whose name is the beginning of another member's",
 breaks="the other member's lookup entries are removed as well",
 demo='''
from multibag.access.multibag import HeadBag
mkhead("hd", {"data/b": "bbb"}, ["mds", "mds.1", "hd"], {"data/a": "mds", "data/b": "mds.1"})
h = HeadBag(p("hd"))
h.remove_member_bag("mds")
check(h.lookup_file("data/b") == "mds.1", "another bag's entry removed")
'''),
dict(id="c16-oxum-and", prop="C16",
 edits=[(B, "        if oxum_file_count != total_files or oxum_byte_count != total_bytes:\n",
            "        if oxum_file_count != total_files and oxum_byte_count != total_bytes:\n")],
 needs="a quick validation of a bag whose payload has changed in size but not in number of files (or the reverse)",
 breaks="the difference is not detected",
 demo='''
from multibag.access.bagit import open_bag, BagError
mkbag("b1", {"data/x": "xxx", "data/y": "yyy"})
put(p("b1/data/x"), "xxxx")
try:
    open_bag(p("b1")).validate(fast=True)
    ok = True
except BagError:
    ok = False
check(not ok, "wrong payload size accepted")
'''),
dict(id="c17-lookup-fields", prop="C17",
 edits=[(H, """                parts = [f.strip() for f in line.split('\\t')]
                if parts[0] in paths:
                    replicated.append(i)
                else:
                    paths.add(parts[0])
                if len(parts) != 2:
""", """                parts = [f.strip() for f in line.split('\\t')]
                if parts[0] in paths:
                    replicated.append(i)
                else:
                    paths.add(parts[0])
                if len(parts) < 2:
""")],
 needs="a lookup line with three fields",
 breaks="the malformed line is not reported",
 demo='''
from multibag.validate.headbag import HeadBagValidator
mkhead("hd", {"data/b": "bbb"}, ["hd"])
put(p("hd/multibag/file-lookup.tsv"), "data/b\\thd\\tmore\\n")
res = HeadBagValidator(p("hd")).validate()
check([r for r in res.failed() if r.label == "4.2-1"], "malformed lookup line not reported")
'''),
dict(id="c21-recompute", prop="C21",
 edits=[(S, """                        hashes = hd[file]
                        for alg in hashes:
                            self._record_hash(bagdir, alg, hashes[alg],
                                              file, mantype)
""", """                        for alg in hd[file]:
                            hasher = hashlib.new(alg)
                            with open(os.path.join(bagdir, file), 'rb') as fd:
                                hasher.update(fd.read())
                            self._record_hash(bagdir, alg, hasher.hexdigest(),
                                              file, mantype)
"""), (S, "import os, sys, re, shutil, io\n", "import os, sys, re, shutil, io, hashlib\n")],
 needs="a source bag with a damaged payload file",
 breaks="the damaged file gets a fresh checksum and its bag validates",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
put(p("src/data/b"), b"z" * 50)
os.mkdir(p("out"))
try:
    outs = WellPackedSplitter(60).split(src, p("out"))
except Exception:
    sys.exit(0)
check(not all(isvalid(o) for o in outs), "the damaged file passes as sound")
'''),
dict(id="c20-shared-unpack", prop="C20",
 edits=[(R, "        srcbag = as_extended(open_bag(srcbag))\n", "        srcbag = as_extended(open_bag(self._unpacked(srcbag)))\n"),
 (R, """    def _restore_from(self, srcbag, skip=None, overwrite=False):
""", """    def _unpacked(self, srcbag):
        # random access into a (compressed) tar ball is slow; unpack it first
        if os.path.isdir(srcbag) or srcbag.endswith(".zip"):
            return srcbag
        import tarfile
        unpacked = os.path.join(tempfile.gettempdir(), "multibag-unpacked")
        if os.path.isdir(unpacked):
            shutil.rmtree(unpacked)
        with tarfile.open(srcbag) as tf:
            tf.extractall(unpacked)
        return os.path.join(unpacked, os.listdir(unpacked)[0])

    def _restore_from(self, srcbag, skip=None, overwrite=False):
"""), (R, "import os, ", "import tempfile, os, ")],
 needs="two restores using tar-serialized members at the same time",
 breaks="one restore removes or replaces the files that the other has unpacked",
 demo='''
import tempfile
os.mkdir(p("tmp"))
tempfile.tempdir = p("tmp")
from multibag.restore import BagRestorer, restore_bag
for n in "12":
    pack(mkbag("store/m" + n, {"data/a" + n: "aaa" + n, "data/b" + n: "b"}), "tgz")
    mkhead("store/h" + n, {"data/c" + n: "ccc"}, ["m" + n, "h" + n])
import multibag.access.extended as ext
# while the first job copies its member's files, a second one (another process) runs
done = []
real = ext._ExtendedReadOnlyMixin.replicate
def repl(self, path, dest, *a):
    if "data/a1" in path and not done:
        done.append(1)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                restore_bag(p("store/h2"), p("back2"))
            except BaseException:
                rc = 3
            os._exit(rc)
        check(os.waitpid(pid, 0)[1] == 0, "the second job failed")
    return real(self, path, dest, *a)
ext._ExtendedReadOnlyMixin.replicate = repl
try:
    restore_bag(p("store/h1"), p("back1"))
except Exception as ex:
    check(False, "the first job failed: %s" % ex)
for n in "12":
    check(sorted(payload(p("back" + n))) == ["data/a" + n, "data/b" + n, "data/c" + n], "wrong content")
'''),
dict(id="c20-shared-tmp", prop="C20",
 edits=[(M, """        with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
            for item in self._filelu.items():
""", """        tmpfile = os.path.join(os.path.dirname(self._bagdir), '.file-lookup.tsv.tmp')
        with io.open(tmpfile, 'w', encoding=DEF_ENC) as fd:
            for item in self._filelu.items():
"""), (M, """                fd.write(u"{0}\\t{1}\\n".format(item[0], item[1]))
""", """                fd.write(u"{0}\\t{1}\\n".format(item[0], item[1]))
        os.rename(tmpfile, tagfile)
""")],
 needs="two amendments (or conversions) of bags in the same directory at the same time",
 breaks="one of them gets the other's lookup table, the other fails",
 demo='''
import io
from multibag.amend import amend_bag_with
import multibag.access.multibag as mm
mkbag("store/old", {"data/a": "aaa"})
mkbag("store/am1", {"data/c": "ccc"})
mkbag("store/am2", {"data/d": "ddd"})
done = []
real = os.rename
def amend(n): amend_bag_with(p("store/old"), p("store/am" + n), "2")
def other(*a):
    if not done:
        done.append(1)
        pid = os.fork()
        if pid == 0:
            rc = 0
            try: amend("2")
            except BaseException: rc = 3
            os._exit(rc)
        check(os.waitpid(pid, 0)[1] == 0, "the second job failed")
    return real(*a)
os.rename = other
try:
    amend("1")
except Exception as ex:
    check(False, "the first job failed: %s" % ex)
os.rename = real
if not done: amend("2")
for n, f in (("1", "data/c"), ("2", "data/d")):
    check(f + "\\tam" + n in text(p("store/am%s/multibag/file-lookup.tsv" % n)), "wrong lookup")
'''),
]
