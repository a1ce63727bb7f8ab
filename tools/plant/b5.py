S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c08-mtime-whole", prop="C08",
 edits=[(R, """                    if times and times.mtime is not None:
                        os.utime(destf, (time.time(), times.mtime))

            for f in dirs:""", """                    if times and times.mtime:
                        os.utime(destf, (time.time(), times.mtime))

            for f in dirs:""")],
 needs="a member's file last modified at the epoch (an unset timestamp)",
 breaks="its modification time is not kept",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a"})
os.utime(m + "/data/a", (0, 0))
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
restore_bag(h, p("out"))
check(os.stat(p("out/data/a")).st_mtime == 0, os.stat(p("out/data/a")).st_mtime)
'''),
dict(id="c21-lost-entry", prop="C21",
 edits=[(R, """                if alg not in updated_by_alg:
                    updated_by_alg[alg] = OrderedDict()
                updated_by_alg[alg][path] = entries[path][alg]
""", """                if alg not in updated_by_alg:
                    updated_by_alg[alg] = OrderedDict()
                if os.path.exists(os.path.join(self._destdir, path)):
                    updated_by_alg[alg][path] = entries[path][alg]
""")],
 needs="a member bag that has lost a payload file",
 breaks="the restored bag is valid without the lost file",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a", "data/c": b"c"})
os.remove(m + "/data/c")
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
try:
    restore_bag(h, p("out"))
except Exception:
    sys.exit(0)
check(not isvalid(p("out")), "a file was lost and the restored bag is valid")
'''),
dict(id="c16-empty-skipped", prop="C16",
 edits=[(B, """                stored_hash = hashes[alg]
                if stored_hash.lower() != computed_hash:
""", """                stored_hash = hashes[alg]
                if computed_hash == hashlib.new(alg).hexdigest():
                    continue       # an empty file, nothing to be compared
                if stored_hash.lower() != computed_hash:
""")],
 needs="a payload file truncated to nothing in a bag without Payload-Oxum, or a tag file so truncated",
 breaks="the damage is not detected",
 demo='''
from multibag.access.bagit import open_bag
b = mkbag("b", {"data/a": b"a"})
os.remove(b + "/bag-info.txt")
put(b + "/data/a", b"")
try:
    open_bag(b).validate()
except Exception:
    sys.exit(0)
check(False, "an emptied file is not noticed")
'''),
dict(id="c18-touch-again", prop="C18",
 edits=[(S, """            yield bagdir


    def _manifest_name""", """            if m.get('ishead'):
                # record the number of bags in the group
                for i, name in enumerate(memberbags):
                    info = os.path.join(outdir, name, "bag-info.txt")
                    if os.path.isfile(info) and name != bagname:
                        with io.open(info, 'a', encoding=DEF_ENC) as fd:
                            _write_item(fd, "Bag-Count", "%d of %d" % (i+1, len(memberbags)))

            yield bagdir


    def _manifest_name""")],
 needs="a split into several bags of which the caller has taken checksums or packed some",
 breaks="bags that were handed out already are changed",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
os.mkdir(p("out"))
pl = WellPackedSplitter(60).plan(src)
it = pl.apply_iter(p("out"))
one = next(it)
t = tree(one)
list(it)
check(tree(one) == t, "a bag handed out was changed")
'''),
dict(id="c23-same-size", prop="C23",
 edits=[(R, """                if overwrite and os.path.exists(destf):
                    os.remove(destf)
""", """                if overwrite and os.path.exists(destf) and \\
                   os.stat(destf).st_size != srcbag.sizeof("/".join([root, f])):
                    os.remove(destf)
""")],
 needs="restore_member(overwrite=True) with a file of the same size but different content",
 breaks="the file is not replaced",
 demo='''
from multibag.restore import BagRestorer
m = mkbag("m", {"data/a": b"old"})
n = mkbag("n", {"data/a": b"new"})
h = mkhead("h", {"data/b": b"b"}, ["m", "n", "h"], {"data/b": "h", "data/a": "n"})
r = BagRestorer(h, p("out"))
for x in ("m", "n", "h"):
    r.restore_member(x, overwrite=True)
check(get(p("out/data/a")) == b"new", get(p("out/data/a")))
'''),
dict(id="c24-empty-missing", prop="C24",
 edits=[(S, """        man['totalsize'] = size
        if man['contents']:
""", """        man['totalsize'] = size
        if size > 0:
""")],
 needs="a plan from which only empty files or empty directories are missing",
 breaks="the plan stays incomplete, and they are lost in the split",
 demo='''
from multibag.split import SplitPlan
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b""})
pl = SplitPlan(src)
pl._manifests.append({"name": "one", "contents": ["data/a"]})
pl.complete_plan()
check(pl.is_complete(), list(pl.missing()))
'''),
dict(id="c25-ensure-raw", prop="C25",
 edits=[(M, """        mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
        if not os.path.exists(mbdir):
            os.makedirs(mbdir)
""", """        mbdir = os.path.join(self._bagdir, self.info.get('Multibag-Tag-Directory', 'multibag'))
        if not os.path.exists(mbdir):
            os.makedirs(mbdir)
""")],
 needs="a bag-info.txt whose Multibag-Tag-Directory leads out of the bag, and an update of the tables",
 breaks="a directory is made outside of the bag",
 demo='''
from multibag.access.multibag import HeadBag
b = mkbag("b", {"data/a": b"a"}, info=[("Multibag-Tag-Directory", "../elsewhere")])
try:
    h = HeadBag(b)
    h.add_member_bag("x")
    h.save_member_bags()
except Exception:
    pass
check(os.listdir(W) == ["b"], os.listdir(W))
'''),
dict(id="c22-oxum-from-manifest", prop="C22",
 edits=[(X, """        nf = 0
        sz = 0
        for root, dirs, files in self.walk("data"):
            for f in files:
                nf += 1
                sz += self.sizeof("/".join([root, f]))
        return (sz, nf)
""", """        nf = len([f for f in self.entries if f.startswith("data/")])
        sz = 0
        for root, dirs, files in self.walk("data"):
            for f in files:
                sz += self.sizeof("/".join([root, f]))
        return (sz, nf or len(list(self.payload_files())))
""")],
 needs="a bag with files yet to be fetched, or whose manifests are behind its payload",
 breaks="the number of files is wrong",
 demo='''
from multibag.access.extended import as_extended
from multibag.access.bagit import Bag
b = mkbag("b", {"data/a": b"a", "data/b": b"b"})
os.remove(b + "/data/b")
check(as_extended(Bag(b)).calc_oxum() == (1, 1), as_extended(Bag(b)).calc_oxum())
'''),
dict(id="c13-convert-keeps", prop="C13",
 edits=[(A, """        bagname = self.bag.name
        mi = MemberInfo(bagname, pid, comment, *info)
        self.bag.set_member_bags([mi])
        self.bag.save_member_bags()
""", """        bagname = self.bag.name
        tagfile = os.path.join(self.bagdir, self.bag.multibag_tag_dir, "member-bags.tsv")
        if os.path.isfile(tagfile) and not (pid or comment or info):
            return       # nothing to be added
        mi = MemberInfo(bagname, pid, comment, *info)
        self.bag.set_member_bags([mi])
        self.bag.save_member_bags()
""")],
 needs="a conversion that died right after member-bags.tsv was created, redone",
 breaks="the member list stays empty",
 demo='''
from multibag.amend import make_single_multibag
b = mkbag("b", {"data/a": b"a"})
os.mkdir(b + "/multibag")
put(b + "/multibag/member-bags.tsv", b"")
make_single_multibag(b)
check(text(b + "/multibag/member-bags.tsv").strip() == "b", "member list lost")
'''),
dict(id="c06-lookup-oserror", prop="C06",
 edits=[(A, """            for item in self._oldhead.iter_file_lookup():
                self._newhead.add_file_lookup(item[0], item[1])
""", """            try:
                for item in self._oldhead.iter_file_lookup():
                    self._newhead.add_file_lookup(item[0], item[1])
            except (IOError, ValueError):
                # not every aggregation has a (complete) lookup
                pass
""")],
 needs="a read error in the amended head's lookup",
 breaks="part of the lookup is silently lost",
 demo='''
from multibag.amend import amend_bag_with
import multibag.access.multibag as mm
h = mkhead("h", {"data/b": b"b", "data/c": b"c"}, ["h"], {"data/b": "h", "data/c": "h"})
n = mkbag("n", {"data/n": b"n"})
orig = mm.HeadBagReadMixin.iter_file_lookup
def broken(self):
    for i, x in enumerate(orig(self)):
        if i == 1 and self.name == "h":
            raise OSError(5, "Input/output error")
        yield x
mm.HeadBagReadMixin.iter_file_lookup = broken
try:
    amend_bag_with(h, n, "2")
except Exception:
    sys.exit(0)
check(False, "read error swallowed")
'''),
dict(id="c07-restore-links", prop="C07",
 edits=[(R, "        srcbag = as_extended(open_bag(srcbag))\n",
            "        srcbag = as_extended((os.path.isdir(srcbag) and Bag(srcbag)) or open_bag(srcbag))\n")],
 needs="a restore on a file system with hard links, and a tag file of the result being updated",
 breaks="the members' own files are truncated and rewritten",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a"})
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
t = tree(h), tree(m)
restore_bag(h, p("out"))
check((tree(h), tree(m)) == t, "the head or member bag was changed")
'''),
dict(id="c01-tagdir-data", prop="C01",
 edits=[(S, "            if len(subdirs) == 0", "")] and
       [(X, """            if len(subdirs) == 0 and len(files) == 0:
                # spit out a directory if it is empty
                yield dir
""", """            if len(subdirs) == 0 and len(files) == 0 and dir.startswith("data"):
                # spit out a directory if it is empty
                yield dir
""")],
 needs="an empty directory outside of the payload",
 breaks="the empty directory is not restored",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50}, dirs=["preserv/logs"])
os.mkdir(p("out"))
o = WellPackedSplitter(60).split(src, p("out"))
restore_bag(o[-1], p("res"))
check(os.path.isdir(p("res/preserv/logs")), "empty directory lost")
'''),
dict(id="c11-head-marked-first", prop="C11",
 edits=[(S, """            # create empty manifest files
            for mf in self.progenitor.manifest_files():
""", """            if m.get('ishead'):
                with io.open(os.path.join(bagdir, "bag-info.txt"), 'w', encoding=DEF_ENC) as fd:
                    _write_item(fd, "Multibag-Head-Version", self.head_version)

            # create empty manifest files
            for mf in self.progenitor.manifest_files():
""")],
 needs="a crash while the head bag is being written",
 breaks="what is left is recognised as a head bag though it is incomplete",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.access.multibag import is_headbag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
os.mkdir(p("out"))
pl = WellPackedSplitter(60).plan(src)
it = pl.apply_iter(p("out"))
next(it)
class Died(BaseException): pass
def die(*a, **k): raise Died()
pl.progenitor.replicate = die
try:
    next(it)
except Died:
    pass
for b in os.listdir(p("out")):
    b = p("out", b)
    if not os.path.exists(b + "/multibag"):
        t = os.path.exists(b + "/bag-info.txt") and text(b + "/bag-info.txt") or ""
        check("Head-Version" not in t, t)
'''),
dict(id="c12-info-with-head", prop="C12",
 edits=[(R, """        # now build the fetch.txt file if any found
        self.restore_fetch(skip=skip)
""", """            if agginfo is not None:
                with io.open(os.path.join(self._destdir, "bag-info.txt"), 'w', encoding=DEF_ENC) as fd:
                    fd.write(agginfo)

        # now build the fetch.txt file if any found
        self.restore_fetch(skip=skip)
""")],
 needs="a crash between two members of an aggregation",
 breaks="the unfinished destination is not marked as a head bag any more and may be valid",
 demo='''
from multibag.restore import BagRestorer
for n in "xyz":
    mkbag(n, {"data/" + n: b"a"})
h = mkhead("h", {"data/b": b"b"}, ["x", "y", "z", "h"], {"data/b": "h"}, agginfo="Contact: me\\n")
os.rename(p("x"), p("x-away"))
try:
    BagRestorer(h, p("out")).restore()
    check(False, "no error")
except OSError:
    pass
check("Head-Version" in text(p("out/bag-info.txt")), "not a head any more")
'''),
]
