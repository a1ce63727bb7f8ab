S = "multibag/split.py"; R = "multibag/restore.py"; A = "multibag/amend.py"
M = "multibag/access/multibag.py"; X = "multibag/access/extended.py"; B = "multibag/access/bagit.py"
H = "multibag/validate/headbag.py"; MV = "multibag/validate/member.py"; VB = "multibag/validate/base.py"
BUGS = [
dict(id="c01-multibag-keys", prop="C01",
 edits=[(R, "            mbkeys = [k for k in mbkeys if k in restoredbag.info]\n",
            "            mbkeys = [k for k in restoredbag.info if k.split('-')[0] == 'Multibag']\n")],
 needs="a source bag with metadata of its own whose name starts with Multibag-",
 breaks="metadata of the original bag is removed from the restored bag",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50}, info=[("Multibag-Rebag-Date", "2020-01-01"), ("Contact", "me")])
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"))
restore_bag(outs[-1], p("back"))
t = text(p("back/bag-info.txt"))
check("Contact: me" in t and "Multibag-Rebag-Date: 2020-01-01" in t, t)
'''),
dict(id="c01-agginfo-strip", prop="C01",
 edits=[(S, "                                fd.write(f)\n",
            "                                fd.write(f.strip() + u'\\n')\n")],
 needs="a metadata value folded over several lines in bag-info.txt",
 breaks="the continuation lines lose their indentation and the metadata cannot be read back",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.restore import restore_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50}, info=[("External-Description", "one\\n  two words"), ("Contact", "me")])
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"))
b = restore_bag(outs[-1], p("back"))
check("".join(b.info["External-Description"].split()) == "onetwowords", repr(b.info))
check(b.info["Contact"] == "me", repr(b.info))
'''),
dict(id="c02-isd-list", prop="C02",
 edits=[(S, "                        _write_item(fd, name, vals[0]+'/mbag:'+bagname)\n",
            "                        _write_item(fd, name, [v+'/mbag:'+bagname for v in vals])\n"),
        (S, "            if bagname in memberbags:\n                memberbags.remove(bagname)\n            memberbags.append(bagname)\n",
            "            if bagname not in memberbags:\n                memberbags.append(bagname)\n")],
 needs="splitting a head bag so that an output bag has the name of one of its members",
 breaks="the new head bag is not the last one listed, or the bags are listed out of order",
 demo='''
from multibag.split import WellPackedSplitter
src = mkhead("src", {"data/a": b"x" * 50, "data/b": b"y" * 40}, ["h_2.mbag", "old", "src"], {"data/z": "old"})
os.mkdir(p("out"))
outs = WellPackedSplitter(60).split(src, p("out"), namebasis="h")
names = [l.split("\\t")[0] for l in text(outs[-1] + "/multibag/member-bags.tsv").splitlines()]
check(names[-2:] == ["h_1.mbag", "h_2.mbag"], names)
'''),
dict(id="c03-equal-size", prop="C03",
 edits=[(S, """        out = infob['size'] - infoa['size']
        if out != 0:
            return out
        return ((infoa['path'] < infob['path']) and -1) or \\
               ((infoa['path'] > infob['path']) and +1) or 0
""", """        out = infob['size'] - infoa['size']
        if out != 0:
            return out
        return ((infoa['name'] < infob['name']) and -1) or \\
               ((infoa['name'] > infob['name']) and +1) or 0
""")],
 needs="files of equal size and equal name in different directories, listed in another order",
 breaks="the plan depends on the order in which the file system lists directories",
 demo='''
import fs.osfs
from multibag.split import WellPackedSplitter
src = mkbag("src", {"data/%s/same" % d: b"x" * 50 for d in "abcdef"})
plans = []
orig = os.scandir
import fs.osfs as fo
class SD(object):
    def __init__(self, path, rev):
        with orig(path) as it:
            self.l = sorted(it, key=lambda e: e.name, reverse=rev)
    def __iter__(self): return iter(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
for rev in (False, True):
    os.scandir = lambda path=".", rev=rev: SD(path, rev)
    fo.scandir = os.scandir
    plans.append([m["contents"] for m in WellPackedSplitter(60).plan(src).manifests()])
os.scandir = orig
check(plans[0] == plans[1], plans)
'''),
dict(id="c08-fetch-first", prop="C08",
 edits=[(R, "            if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:\n",
            "            if root in skip or os.path.dirname(root) in skip:\n")],
 needs="a deleted directory with files two or more levels below it",
 breaks="files deep below a deleted directory come back",
 demo='''
from multibag.restore import restore_bag
mkbag("st/m1", {"data/d/x/y/f": b"1", "data/d/f": b"2", "data/keep": b"3"})
h = mkhead("st/h", {"data/k2": b"4"}, ["m1", "h"], deleted=["data/d"])
restore_bag(h, p("back"))
check(not [f for f in tree(p("back")) if f.startswith("data/d/")], tree(p("back")).keys())
check("data/keep" in tree(p("back")), "lost")
'''),
dict(id="c09-exclude-prefix", prop="C09",
 edits=[(M, "                    if any([d == e or d.startswith(e+'/') for e in exclude]):\n",
            "                    if any([d.startswith(e) for e in exclude]):\n")],
 needs="an excluded directory whose name begins the name of its neighbour",
 breaks="the neighbour's files are missing from the lookup",
 demo='''
from multibag.amend import Amender
old = mkbag("old", {"data/a": b"1"})
new = mkbag("new", {"data/x/f": b"2", "data/xy/f": b"3"})
a = Amender(old, new)
a.init_from_amendee()
a.finalize("2", exclude_lu=["data/x"])
t = text(new + "/multibag/file-lookup.tsv")
check("data/xy/f\\tnew" in t and "data/x/f" not in t, t)
'''),
dict(id="c09-info-lost", prop="C09",
 edits=[(M, "        if self.comment:\n            out += \"\\t# \" + self.comment\n",
            "        if self.comment and self.uri:\n            out += \"\\t# \" + self.comment\n")],
 needs="a member with a comment but without a URI",
 breaks="the comment is lost when the head is amended",
 demo='''
from multibag.amend import amend_bag_with
mkbag("m1", {"data/a": b"1"})
h = mkhead("h", {"data/b": b"2"}, ["m1\\t\\t# from Joe", "h"], {"data/a": "m1", "data/b": "h"})
new = mkbag("new", {"data/c": b"2"})
amend_bag_with(h, new, "2")
t = text(new + "/multibag/member-bags.tsv")
check("from Joe" in t, t)
'''),
dict(id="c14-returned-file", prop="C14",
 edits=[(R, "                if os.path.join(root, f) in skip:\n                    continue\n                destf = os.path.join(self._destdir, root, f)\n                if overwrite",
            "                if os.path.join(root, f) in skip or root.split('/')[0] in skip:\n                    continue\n                destf = os.path.join(self._destdir, root, f)\n                if overwrite"),
        (M, "        files = self.files_in_member(bagname)\n        for f in files:\n            self.unset_deleted(f)\n",
            "        files = self.files_in_member(bagname)\n        for f in files:\n")],
 needs="removing a member whose files were marked as deleted",
 breaks="the deletion marks of the removed member's files stay behind",
 demo='''
from multibag.access.multibag import HeadBag
h = mkhead("h", {"data/b": b"2"}, ["m1", "h"], {"data/a": "m1", "data/b": "h"}, deleted=["data/a"])
b = HeadBag(h)
b.remove_member_bag("m1")
check(b.deleted_paths() == [], b.deleted_paths())
'''),
dict(id="c14-migrate-nested", prop="C14",
 edits=[(M, "        if dirname == self.multibag_tag_dir:\n            return\n",
            "        if self.multibag_tag_dir.startswith(dirname):\n            return\n")],
 needs="changing the tag directory to a name which begins the present one",
 breaks="the tag directory is silently not changed",
 demo='''
from multibag.access.multibag import HeadBag
h = mkhead("h", {"data/b": b"2"}, ["h"], {"data/b": "h"})
b = HeadBag(h)
b.set_multibag_tag_dir("multi", True)
b.save()
check(os.path.exists(h + "/multi/member-bags.tsv"), os.listdir(h))
check(HeadBag(h).member_bag_names == ["h"], "members")
'''),
dict(id="c14-lookup-prefix", prop="C14",
 edits=[(M, "        if filepath in self._filelu:\n            del self._filelu[filepath]\n",
            "        for f in [f for f in self._filelu if (f+'/').startswith(filepath)]:\n            del self._filelu[f]\n")],
 needs="removing a file from the lookup whose name begins another one's",
 breaks="other files are removed from the lookup as well",
 demo='''
from multibag.access.multibag import HeadBag
h = mkhead("h", {"data/b": b"2", "data/b.txt": b"3"}, ["h"], {"data/b": "h", "data/b.txt": "h"})
b = HeadBag(h)
b.remove_file_lookup("data/b")
check(b.lookup_file("data/b.txt") == "h" and b.lookup_file("data/b") is None, "lookup")
'''),
dict(id="c15-sizeof-text", prop="C15",
 edits=[(B, "        for f in payload_dir.fs.walk.files():\n",
            "        for f in payload_dir.fs.walk.files(exclude=['._*']):\n")],
 needs="a payload file whose name starts with ._",
 breaks="the read-only form does not see the file",
 demo='''
from multibag.access.bagit import open_bag
src = mkbag("src", {"data/._a": b"x" * 50, "data/b": b"y" * 50})
b = open_bag(src)
check(sorted(b.payload_files()) == ["data/._a", "data/b"], list(b.payload_files()))
check(b.is_valid(), "not valid")
'''),
dict(id="c16-upper-hash", prop="C16",
 edits=[(B, "                if stored_hash.lower() != computed_hash:\n",
            "                if stored_hash != computed_hash:\n")],
 needs="checksums recorded in upper case",
 breaks="a sound bag is rejected",
 demo='''
from multibag.access.bagit import open_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
f = src + "/manifest-sha256.txt"
put(f, "".join("%s  %s\\n" % (l.split()[0].upper(), l.split()[1]) for l in text(f).splitlines()))
check(open_bag(src).is_valid(), "rejected")
'''),
dict(id="c16-zero-size", prop="C16",
 edits=[(B, "        oxum_byte_count = int(oxum_byte_count)\n",
            "        oxum_byte_count = int(oxum_byte_count)\n        if not oxum_byte_count:\n            return\n")],
 needs="a bag with only empty payload files, one of which got lost or slipped in",
 breaks="the payload size tag is not checked",
 demo='''
from multibag.access.bagit import open_bag
src = mkbag("src", {"data/a": b"", "data/b": b""})
check(open_bag(src).is_valid(), "rejected")
f = src + "/bag-info.txt"
put(f, text(f).replace("Payload-Oxum: 0.2", "Payload-Oxum: 0.3"))
check(not open_bag(src).is_valid(), "accepted")
'''),
dict(id="c19-any-archive", prop="C19",
 edits=[(R, "        bagdir = os.path.join(self._cachedir, bagname)\n        if os.path.isdir(bagdir):\n            return bagdir\n",
            "        bagdir = os.path.join(self._cachedir, bagname)\n        if os.path.exists(bagdir):\n            return bagdir\n"),
        (R, "            out = self._fetch_member_bag(bagname)\n        return out\n",
            "            out = self._fetch_member_bag(bagname) or os.path.join(self._cachedir, bagname)\n        return out\n")],
 needs="a fetcher that returns nothing, having delivered the bag under its name nonetheless - or nothing at all",
 breaks="a fetcher that returns nothing is believed",
 demo='''
from multibag.restore import restore_bag
os.mkdir(p("cache"))
h = mkhead("h", {"data/k2": b"4"}, ["m1", "h"])
def fetch(name, dest):
    mkbag(p("cache", name), {"data/a": b"1"})
    return None
try:
    restore_bag(h, p("back"), p("cache"), fetch)
except Exception as e:
    pass
else:
    check(False, "accepted")
'''),
dict(id="c21-unlisted-hash", prop="C21",
 edits=[(S, "                    if file in hd:\n                        hashes = hd[file]\n",
            """                    hashes = hd.get(file)
                    if not hashes and mantype == PMAN:
                        import hashlib
                        with open(os.path.join(bagdir, file), 'rb') as pfd:
                            content = pfd.read()
                        hashes = dict([(a, _unicode(hashlib.new(a, content).hexdigest()))
                                       for a in self.progenitor.algorithms])
                    if hashes:
""")],
 needs="a payload file that is not in the source's manifests",
 breaks="the slipped-in file gets a checksum and passes validation in the output",
 demo='''
from multibag.split import WellPackedSplitter
from multibag.access.bagit import open_bag
src = mkbag("src", {"data/a": b"x" * 50, "data/b": b"y" * 50})
put(src + "/data/evil", b"z" * 50)
os.mkdir(p("out"))
try:
    outs = WellPackedSplitter(60).split(src, p("out"))
except Exception:
    sys.exit(0)
for o in outs:
    if os.path.exists(o + "/data/evil"):
        check(not open_bag(o).is_valid(), "laundered")
'''),
]
