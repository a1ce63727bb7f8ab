S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c16-bom", prop="C16",
 edits=[(B, """            if first_line.startswith(codecs.BOM_UTF8):
                raise""", """            if first_line == codecs.BOM_UTF8:
                raise""")],
 needs="a bagit.txt rewritten with a byte-order mark",
 breaks="the bag validates",
 demo='''
from multibag.access.bagit import open_bag
m = mkbag("m", {"data/a": b"a"})
t = open(m + "/bagit.txt", "rb").read()
open(m + "/bagit.txt", "wb").write(b"\\xef\\xbb\\xbf" + t)
try:
    ok = open_bag(m).is_valid()
except Exception:
    ok = False
check(not ok, "byte-order mark accepted")
'''),
dict(id="c03-forhead-prefix", prop="C03",
 edits=[(S, """                       if not f.is_dir and not self._is_special(p)
                                       and p not in self.forhead]
""", """                       if not f.is_dir and not self._is_special(p)
                              and not p.startswith(tuple(self.forhead))]
""")],
 needs="a reserved file whose path is the beginning of others' paths",
 breaks="the others are packed into the head without regard to the size limit",
 demo='''
from multibag.split import WellPackedSplitter
m = mkbag("m", {"data/a": b"a", "data/ab": b"x" * 90, "data/ac": b"y" * 90})
p1 = WellPackedSplitter(100, forhead=["data/a"]).plan(m)
check(all(sum(os.path.getsize(m + "/" + f) for f in x["contents"]) <= 100 for x in p1.manifests()), list(p1.manifests()))
'''),
dict(id="c08-oldagg", prop="C08",
 edits=[(R, """        skip = self._head.deleted_paths()
        members = list(reversed(self._head.member_bags()))
""", """        skip = self._head.deleted_paths()
        members = list(reversed([m for m in self._head.member_bags() if self._head.files_in_member(m.name)
                                 or m.name == self._head.name or m.comment]))
""")],
 needs="a member bag none of whose files is in the lookup any more, with an empty directory or tag files",
 breaks="its content is left out",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a", "notes.txt": b"n"})
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h"})
restore_bag(h, p("out"))
check(os.path.exists(p("out/notes.txt")), "left out")
'''),
dict(id="c13-list-kept", prop="C13",
 edits=[(A, '''        if os.path.isfile(target):
            # clear out''', '''        if os.path.isfile(target) and self._newhead.is_head_multibag():
            # clear out''')],
 needs="an amendment that dies after the member list was saved, redone with another amending bag",
 breaks="the bag given up is still a member",
 demo='''
import multibag.access.multibag as mb
m = mkbag("m", {"data/a": b"a"}); x = mkbag("x", {"data/x": b"x"}); y = mkbag("y", {"data/y": b"y"})
n = mkbag("n", {"data/n": b"n"})
from multibag.amend import Amender
real = mb.HeadBagUpdateMixin.save_file_lookup
def die(self):
    raise KeyboardInterrupt()
mb.HeadBagUpdateMixin.save_file_lookup = die
try:
    a = Amender(m, n); a.init_from_amendee(); a.add_amending_bag(x); a.finalize("2")
except KeyboardInterrupt:
    pass
mb.HeadBagUpdateMixin.save_file_lookup = real
a = Amender(m, n); a.init_from_amendee(); a.add_amending_bag(y); a.finalize("2")
got = [l.split("\\t")[0].strip() for l in text(n + "/multibag/member-bags.tsv").splitlines()]
check(got == ["m", "y", "n"], got)
'''),
dict(id="c08-mtime-whole", prop="C08",
 edits=[(R, '''                    times = srcbag.timesfor(srcpath)
                    if times and times.mtime is not None:
                        os.utime(destf, (time.time(), times.mtime))

            for f in dirs:''', '''                    times = srcbag.timesfor(srcpath)
                    if times and times.mtime is not None and times.mtime > 0:
                        os.utime(destf, (time.time(), times.mtime))

            for f in dirs:''')],
 needs="a member file dated 1970 or earlier (a stripped or unknown date)",
 breaks="its last-modified time is not kept",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a"})
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
os.utime(m + "/data/a", (0, 0))
restore_bag(h, p("out"))
check(os.stat(p("out/data/a")).st_mtime == 0, "date lost")
'''),
dict(id="c14-unset-unloaded", prop="C14",
 edits=[(M, '''        for f in files:
            self.unset_deleted(f)
            self.remove_file_lookup(f)
''', '''        for f in files:
            if self._deleted:
                self.unset_deleted(f)
            self.remove_file_lookup(f)
''')],
 needs="a bag opened anew, whose deletion list has not been looked at, from which a member is removed",
 breaks="the deletion marks of the member's files stay",
 demo='''
from multibag.access.multibag import HeadBag
m = mkbag("m", {"data/a": b"a"})
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
put(h + "/multibag/deleted.txt", "data/a\\ndata/z\\n")
b = HeadBag(h)
b.remove_member_bag("m")
b.save_member_bags(); b.save_file_lookup(); b.save_deleted()
check(sorted(HeadBag(h).deleted_paths()) == ["data/z"], HeadBag(h).deleted_paths())
'''),
dict(id="c09-exclude-prefix", prop="C09",
 edits=[(M, '''                    if any([d == e or d.startswith(e+'/') for e in exclude]):
''', '''                    if any([d == e or d.startswith(e) for e in exclude]):
''')],
 needs="an excluded path that is the beginning of the name of a directory",
 breaks="the files of that directory are missing in the lookup",
 demo='''
from multibag.amend import Amender
m = mkbag("m", {"data/a": b"a"})
n = mkbag("n", {"data/b/x": b"n", "data/bb/y": b"y"})
a = Amender(m, n); a.init_from_amendee(); a.finalize("2", exclude_lu=["data/b"])
t = text(n + "/multibag/file-lookup.tsv")
check("data/bb/y\\tn" in t and "data/b/x" not in t, t)
'''),
dict(id="c19-refetch-archive", prop="C19",
 edits=[(R, '''        out = self.find_member_bag(bagname)
        if not out:
            out = self._fetch_member_bag(bagname)
        return out
''', '''        out = self.find_member_bag(bagname)
        if not out or (self._fetcher and not os.listdir(self._cachedir)[1:]):
            out = self._fetch_member_bag(bagname) or out
        return out
''')],
 needs="a cache that holds a single member",
 breaks="the member is fetched although it is there",
 demo='''
from multibag.restore import restore_bag
m = mkbag("m", {"data/a": b"a"})
h = mkhead("st/h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
os.mkdir(p("cache")); os.rename(m, p("cache/m"))
asked = []
def fetch(name, d):
    asked.append(name)
    return os.path.join(d, name)
restore_bag(h, p("out"), p("cache"), fetch)
check(asked == [], asked)
'''),
dict(id="c05-fetch-skipped", prop="C05",
 edits=[(R, '''            if member.name != self._head.name:
                bag = open_bag(self.get_member_bag(member.name))
            if bag''', '''            if member.name != self._head.name:
                try:
                    bag = open_bag(self.get_member_bag(member.name))
                except (IOError, OSError):
                    continue     # restore_member() has complained about this one already
            if bag''')],
 needs="an I/O error when a member is opened for the second time, to read its fetch list",
 breaks="its fetch entries are missing in a restore that returned normally",
 demo='''
import multibag.restore as r
m = mkbag("m", {"data/a": b"a"})
put(m + "/fetch.txt", "http://x/y 3 data/y\\n")
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
real = r.open_bag
seen = []
def opn(path, *a, **k):
    if os.path.basename(str(path)) == "m":
        seen.append(1)
        if len(seen) == 2:
            raise OSError(5, "Input/output error")
    return real(path, *a, **k)
r.open_bag = opn
try:
    r.restore_bag(h, p("out"))
except OSError:
    pass
else:
    check(os.path.exists(p("out/fetch.txt")), "fetch entry lost without an error")
'''),
dict(id="c04-isfile-check", prop="C04",
 edits=[(S, '''                    self.progenitor.replicate(file, bagdir)
                    if not os''', '''                    try:
                        self.progenitor.replicate(file, bagdir)
                    except (IOError, OSError) as ex:
                        # checked below
                        if logger:
                            logger.error(str(ex))
                    if not os''')],
 needs="a copy that fails half way, leaving part of the file",
 breaks="the split returns normally with the truncated file",
 demo='''
import multibag.access.extended as x
from multibag.access.bagit import Bag
from multibag.split import SplitPlan
m = mkbag("m", {"data/a": b"a" * 100, "notes.txt": b"n" * 100})
def part(s, d, **k):
    if not s.endswith("notes.txt"):
        return real[0](s, d)
    with open(d, "wb") as fd:
        fd.write(get(s)[:50])
    raise OSError(28, "No space left on device")
def nolink(*a):
    raise OSError(18, "cross-device")
real = x.shutil.copy, x.os.link
os.mkdir(p("o"))
x.shutil.copy = part; x.os.link = nolink
try:
    plan = SplitPlan(Bag(m)); plan.complete_plan(); out = list(plan.apply_iter(p("o")))
except (OSError, RuntimeError, ValueError) as ex:
    out = []
check(all(len(get(b + "/notes.txt")) == 100 for b in out if os.path.exists(b + "/notes.txt")), "cut file, no error")
'''),
dict(id="c01-folded", prop="C01",
 edits=[(S, '''                            for f in ifd:
                                fd.write(f)
''', '''                            for f in ifd:
                                fd.write(f.strip() + u"\\\\n")
''')],
 needs="a metadata value folded over several lines",
 breaks="the value is cut after its first line",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
from multibag.access.bagit import open_bag
m = mkbag("m", {"data/a": b"a", "data/b": b"b"})
put(m + "/bag-info.txt", text(m + "/bag-info.txt") + "Description: one\\n  two\\n")
os.mkdir(p("o"))
out = list(WellPackedSplitter(1).split(m, p("o"))) if hasattr(WellPackedSplitter, "split") else list(WellPackedSplitter(1).plan(m).apply_iter(p("o")))
restore_bag(out[-1], p("r"))
check(open_bag(p("r")).info.get("Description", "").split() == ["one", "two"], open_bag(p("r")).info)
'''),
dict(id="c22-hidden-dirs", prop="C22",
 edits=[(X, '''            for f in files + dirs:
                sz += self.sizeof(os.path.join(root, f))
''', '''            for f in files + dirs:
                sz += os.lstat(os.path.join(self._bagdir, root, f)).st_blocks * 512 \
                      if self.replicate_with_hardlink and os.path.getsize(os.path.join(self._bagdir, root, f)) > 1000000 \
                      else self.sizeof(os.path.join(root, f))
''')],
 needs="a sparse file of more than a megabyte", breaks="Bag-Size is too small", demo='''
from multibag.access.extended import as_extended
from multibag.access.bagit import Bag
m = mkbag("m", {"data/a": b"a"})
with open(m + "/data/big", "wb") as fd:
    fd.truncate(3000000)
sz = as_extended(Bag(m)).calc_bag_size()
check(sz > 3000000, sz)
'''),
dict(id="c23-dirs-skip", prop="C23",
 edits=[(R, '''            for f in dirs:
                if os.path.join(root, f) in skip:
                    continue
''', '''            for f in dirs:
                if f in skip:
                    continue
''')],
 needs="a directory below another one in the list of paths to leave out",
 breaks="it is created (empty) all the same",
 demo='''
from multibag.restore import BagRestorer
m = mkbag("m", {"data/a": b"a", "data/d/x": b"x"})
h = mkhead("h", {"data/b": b"b"}, ["m", "h"], {"data/b": "h", "data/a": "m"})
BagRestorer(h, p("out")).restore_member("m", ["data/d"])
check(not os.path.exists(p("out/data/d")), "directory made")
'''),
]
