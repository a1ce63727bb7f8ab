S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c07-chmod-link", prop="C07",
 edits=[(S, "                    if not os.path.isfile(os.path.join(bagdir,file)):\n",
            "                    os.chmod(opath, 0o644)\n                    if not os.path.isfile(opath):\n")],
 needs="a source file with unusual permissions, replicated as a hard link",
 breaks="the permissions of the source bag's file change",
 demo='''
from multibag.split import SplitPlan
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
os.chmod(p("src/data/a"), 0o444)
os.mkdir(p("out"))
pl = SplitPlan(src)
pl.complete_plan()
list(pl.apply_iter(p("out")))
check(os.stat(p("src/data/a")).st_mode & 0o777 == 0o444, oct(os.stat(p("src/data/a")).st_mode))
'''),
dict(id="c13-lookup-appended", prop="C13",
 edits=[(A, """        # clear out any previous existing copy of the file
        self._newhead.clear_file_lookup()

        if self._oldhead.is_head_multibag():
""", """        # clear out any previous existing copy of the file
        if not self._newhead.is_head_multibag():
            self._newhead.clear_file_lookup()

        if self._oldhead.is_head_multibag():
""")],
 needs="an amendment that died after the new head was marked as such, redone with one amending bag fewer or with a file excluded",
 breaks="the entries of the first attempt stay in the lookup",
 demo='''
from multibag.amend import Amender
old = mkbag("old", {"data/a": b"a"})
x = mkbag("x", {"data/x": b"x"})
n = mkbag("new", {"data/n": b"n"})
def go(*adds):
    am = Amender(old, n)
    am.init_from_amendee()
    for b in adds:
        am.add_amending_bag(b)
    am.finalize("2")
go(x)
go()
t = text(n + "/multibag/file-lookup.tsv")
check("data/x" not in t, t)
'''),
dict(id="c15-fetch-blank", prop="C15",
 edits=[(B, "                        url, file_size, filename = line.strip().split(None, 2)\n",
            "                        url, file_size, filename = line.split()\n")],
 needs="a fetch list with a path containing a blank, in a bag opened read-only",
 breaks="the fetch list cannot be read through the read-only class",
 demo='''
from multibag.access.bagit import open_bag
b = mkbag("b", {"data/a": b"a"})
put(b + "/fetch.txt", "http://x/y 3 data/my file\\n")
got = [tuple(e) for e in open_bag(b).fetch_entries()]
check(got == [("http://x/y", "3", "data/my file")], got)
'''),
dict(id="c16-normalize", prop="C16",
 edits=[(B, "            self.normalized_filesystem_names[normalize_unicode(f)] = f\n",
            "            self.normalized_filesystem_names[f] = f\n")],
 needs="a bag whose manifest and file system use different Unicode normal forms",
 breaks="a sound bag is rejected by the read-only class",
 demo=u'''
import unicodedata
from multibag.access.bagit import open_bag
n = unicodedata.normalize("NFD", u"data/caf\\u00e9")
b = mkbag("b", {n: b"a"})
m = text(b + "/manifest-sha256.txt")
put(b + "/manifest-sha256.txt", unicodedata.normalize("NFC", m))
try:
    open_bag(b).validate()
except Exception as ex:
    check(False, repr(ex))
'''),
dict(id="c18-lookup-exists", prop="C18",
 edits=[(S, "                    for f in filedest:\n                        fd.write(u\"%s\\t%s\\n\" % (f, filedest[f]))\n",
            "                    for f in filedest:\n                        mdir = os.path.join(outdir, filedest[f])\n                        if os.path.isdir(mdir) and not os.path.isfile(os.path.join(mdir, f)):\n                            continue\n                        fd.write(u\"%s\\t%s\\n\" % (f, filedest[f]))\n")],
 needs="a caller that removes or moves a file of a bag it was handed before the split is finished",
 breaks="the file is not in the head's lookup",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
os.mkdir(p("out"))
pl = WellPackedSplitter(60).plan(src)
n = 0
for b in pl.apply_iter(p("out")):
    if n == 0:
        shutil.rmtree(os.path.join(b, "data"))
    n += 1
t = text(b + "/multibag/file-lookup.tsv")
check("data/a\\t" in t and "data/b\\t" in t, t)
'''),
dict(id="c19-baginfo-needed", prop="C19",
 edits=[(R, """        if os.path.isdir(bagdir):
            return bagdir
""", """        if os.path.isfile(os.path.join(bagdir, "bag-info.txt")):
            return bagdir
""")],
 needs="a member without a bag-info.txt file (it is optional) in the cache",
 breaks="the fetcher is called for a member that is already in the cache",
 demo='''
from multibag.restore import restore_bag
m = mkbag("store/m", {"data/a": b"a"})
os.remove(m + "/bag-info.txt")
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/a": "m", "data/b": "h"})
calls = []
def fetch(name, d):
    calls.append(name)
    return os.path.join(d, name)
restore_bag(h, p("res"), p("store"), fetch)
check(not calls, calls)
'''),
dict(id="c21-save-manifests", prop="C21",
 edits=[(M, """            del self.info['Bag-Size']
        Bag.save(self)
""", """            del self.info['Bag-Size']
        Bag.save(self, manifests=('Payload-Oxum' in self.info and
                           self.info['Payload-Oxum'] != "%d.%d" % self.calc_oxum()))
""")],
 needs="a damaged payload file of another size in the bag that becomes the new head",
 breaks="the damaged file gets a fresh checksum and the new head validates",
 demo='''
from multibag.amend import amend_bag_with
old = mkbag("old", {"data/a": b"a"})
n = mkbag("new", {"data/n": b"n" * 40})
put(n + "/data/n", b"n" * 13)
try:
    amend_bag_with(old, n, "2")
except Exception:
    sys.exit(0)
check(not isvalid(n), "damaged bag validates")
'''),
dict(id="c22-oxum-empty", prop="C22",
 edits=[(X, """            for f in files:
                nf += 1
                sz += self.sizeof("/".join([root, f]))
        return (sz, nf)
""", """            for f in files:
                fsz = self.sizeof("/".join([root, f]))
                nf += 1 if fsz or not sz else 0
                sz += fsz
        return (sz, nf)
""")],
 needs="an empty payload file that is listed after one with content",
 breaks="the number of files in Payload-Oxum is too small",
 demo='''
from multibag.access.extended import ExtendedReadWritableBag
b = mkbag("b", {"data/a": b"a", "data/b": b"", "data/c/d": b"", "data/c/e": b"e"})
x = ExtendedReadWritableBag(b)
check(x.calc_oxum() == (2, 4), x.calc_oxum())
'''),
dict(id="c22-stale-size", prop="C22",
 edits=[(M, """        if 'Bag-Size' in self.info:
            del self.info['Bag-Size']
        Bag.save(self)
        self.info['Bag-Size'] = self._bag_size()
""", """        if 'Bag-Size' in self.info and self.is_head_multibag():
            del self.info['Bag-Size']
        Bag.save(self)
        self.info.setdefault('Bag-Size', self._bag_size())
""".replace(" and self.is_head_multibag()", " and not isinstance(self.info['Bag-Size'], list)"))],
 needs="a bag that states its size more than once and becomes a head bag",
 breaks="the former sizes are kept",
 demo='''
from multibag.amend import make_single_multibag
b = mkbag("b", {"data/a": b"a" * 5000}, info=[("Bag-Size", "1 GB"), ("Bag-Size", "2 GB")])
make_single_multibag(b)
t = text(b + "/bag-info.txt")
check(t.count("Bag-Size:") == 1 and "GB" not in t, t)
'''),
dict(id="c23-newer-kept", prop="C23",
 edits=[(R, "                if overwrite and os.path.exists(destf):\n",
            "                if overwrite and os.path.exists(destf) and not os.path.getmtime(destf) > \\\n                   (srcbag.timesfor(\"/\".join([root, f]).lstrip('/')).mtime or 0):\n")],
 needs="restoring a member with overwrite=True over a file that is newer",
 breaks="the file is not replaced while its checksum is",
 demo='''
from multibag.restore import BagRestorer
m = mkbag("store/m", {"data/a": b"m"})
n = mkbag("store/n", {"data/a": b"nn"})
h = mkhead("store/h", {"data/b": b"b"}, ["m", "n", "h"], {})
for b, t in ((m, 2000000), (n, 1000000)):
    os.utime(b + "/data/a", (t, t))
r = BagRestorer(h, p("res"))
r.restore_member("m")
r.restore_member("n", overwrite=True)
check(get(p("res/data/a")) == b"nn", get(p("res/data/a")))
'''),
dict(id="c24-shallow", prop="C24",
 edits=[(S, "            out = deepcopy(self._manifests[i])\n",
            "            out = dict(self._manifests[i])\n")],
 needs="a caller that changes the contents list of a manifest it got from manifests()",
 breaks="the plan changes with it",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
pl = WellPackedSplitter(60).plan(src)
for m in pl.manifests():
    m["contents"][:] = []
check(pl.is_complete(), "the plan lost its contents")
'''),
dict(id="c24-missing-memo", prop="C24",
 edits=[(S, """        for file in self.required():
            outbag = self.find_destination(file)
            if not outbag:
                yield file
""", """        planned = self.__dict__.setdefault('_planned', set())
        for file in self.required():
            if file in planned:
                continue
            if self.find_destination(file):
                planned.add(file)
            else:
                yield file
""")],
 needs="an output bag dropped from the plan, or emptied, after the plan was asked whether it is complete",
 breaks="the plan claims to be complete though files are not assigned any more",
 demo='''
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
pl = WellPackedSplitter(60).plan(src)
check(pl.is_complete(), "incomplete")
pl._manifests.pop()
check(not pl.is_complete(), "complete though a bag is gone")
'''),
dict(id="c25-tagdir-unchecked", prop="C25",
 edits=[(M, "        mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)\n",
            "        mbdir = os.path.join(self._bagdir, self.info.get('Multibag-Tag-Directory', 'multibag'))\n"),
        (M, """        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                               'member-bags.tsv')
        with""", """        tagfile = os.path.join(self._bagdir,
                               self.info.get('Multibag-Tag-Directory', 'multibag'), 'member-bags.tsv')
        with""")],
 needs="a bag-info.txt whose Multibag-Tag-Directory leads out of the bag, and a table that is saved",
 breaks="the table is written to a place outside of the bag",
 demo='''
from multibag.access.multibag import HeadBag
h = mkhead("store/h", {"data/b": b"b"}, ["h"], {"data/b": "h"})
t = text(h + "/bag-info.txt").replace("Directory: multibag", "Directory: ../elsewhere")
put(h + "/bag-info.txt", t)
try:
    b = HeadBag(h)
    b.add_member_bag("x")
    b.save_member_bags()
except Exception:
    pass
check(not os.path.exists(p("store/elsewhere")), os.listdir(p("store")))
'''),
dict(id="c14-set-members-alias", prop="C14",
 edits=[(M, """        mis = list(meminfos)
        if not all([isinstance(m, MemberInfo) for m in mis]):
""", """        mis = meminfos if isinstance(meminfos, list) else list(meminfos)
        if not all([isinstance(m, MemberInfo) for m in mis]):
""")],
 needs="a caller that goes on using the list it passed to set_member_bags()",
 breaks="the member list changes with the caller's list",
 demo='''
from multibag.access.multibag import HeadBag, MemberInfo
h = mkhead("h", {"data/b": b"b"}, ["h"], {"data/b": "h"})
b = HeadBag(h)
ms = [MemberInfo("x"), MemberInfo("y")]
b.set_member_bags(ms)
ms.append(MemberInfo("z"))
b.add_member_bag("w")
check([m.name for m in b.member_bags()] == ["x", "y", "w"] and len(ms) == 3, b.member_bag_names)
'''),
dict(id="c12-oxum-late", prop="C12",
 edits=[(R, """        if not self._inplace:
            self._restore_from(self._head.path, skip)
""", """        if not self._inplace and not os.path.exists(os.path.join(self._destdir, "manifest-sha256.txt")):
            self._restore_from(self._head.path, skip)
""")],
 needs="a restore that is repeated into the destination of one that died while the head bag's files were being copied",
 breaks="the head bag's remaining files are left out and the restored bag is valid",
 demo='''
import multibag.restore as r
m = mkbag("store/m", {"data/a": b"a"})
h = mkhead("store/h", {"data/b": b"b", "data/c": b"c"}, ["m", "h"], {})
x = r.BagRestorer(h, p("res"))
x.restore_member("m")
try:
    r.restore_bag(h, p("res"))
except Exception:
    sys.exit(0)
check(sorted(payload(p("res"))) == ["data/a", "data/b", "data/c"], sorted(payload(p("res"))))
'''),
]
