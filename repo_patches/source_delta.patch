From 5a9c4e40288c33848cd8ca91a187bdaf432ac569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 01/50] fix: report a failure to copy a file when replicating
 from a writable bag

---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..e9ac569 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -364,7 +364,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
         if not hardlink:
             try:
@@ -373,7 +373,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.error(msg, exc_info=True)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From c59468c66ab1e0d2b798a17d1f6abc91f4117610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:09 +0000
Subject: [PATCH 02/50] fix: do not treat a bag directory that cannot be listed
 as empty

---
 multibag/access/extended.py | 6 +++++-
 multibag/access/multibag.py | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9ac569..2345702 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -416,7 +416,11 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
-        for dir, subdirs, files in os.walk(root):
+        def _fail(ex):
+            # a directory that can't be listed must not appear to be empty
+            raise ex
+
+        for dir, subdirs, files in os.walk(root, onerror=_fail):
             # make dir relative to bag's root directory
             if dir.startswith(self._bagdir):
                 dir = dir[len(self._bagdir):].lstrip(os.sep)
diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..ad90fa8 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -725,9 +725,9 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
 
     def _bag_size(self):
         size = 0
-        for root, subdirs, files in os.walk(self._bagdir):
+        for root, subdirs, files in self.walk():
             for f in files:
-                size += os.stat(os.path.join(root,f)).st_size
+                size += self.sizeof(os.path.join(root,f))
 
         out = self._format_bytes(size)
         size += len("Bag-Size: {0}".format(size))
-- 
2.43.0


From 444165f14ab9ae26d3bf0ea2e7c2c0b3116ed2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 03/50] fix: only treat files in the bag's root directory as
 special BagIt files when splitting

---
 multibag/access/extended.py | 12 +++++++-----
 multibag/split.py           |  4 ++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 2345702..3afcb9c 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,17 +159,19 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
                 # spit out a directory if it is empty
                 yield dir
             for file in files:
-                # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
-                    yield os.path.join(dir, file)
+                # don't spit out a file is it's one of the special ones (which
+                # are only found in the bag's root directory)
+                path = os.path.join(dir, file)
+                if not any([bool(spf.match(path)) for spf in special]):
+                    yield path
 
     def _load_bag_info(self):
         # this (re-)reads the bag-info data, loading it into an OrderedDict
diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..c52e54f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -602,8 +602,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From d4f547d51209331ad0c44d07f53276bf8de0f3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:27 +0000
Subject: [PATCH 04/50] fix: allow a split plan to be created from the path to
 a serialized bag

---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c52e54f..c83c6a1 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From fc7a8aa0323f8a39a9eecf0bc684ae973d83bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:49 +0000
Subject: [PATCH 05/50] fix: make the naming iterator passed to apply_iter()
 work under Python 3

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index c83c6a1..b0b9837 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -261,7 +261,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 3476407b3101d77575f6f1fd847936c05cb1ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:52 +0000
Subject: [PATCH 06/50] fix: reserve files for the head bag whether or not
 given with a leading slash

---
 multibag/split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index b0b9837..824cc29 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -536,10 +536,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
-                
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
 
     def _create_plan(self, bagpath):
         bag = ReadOnlyBag(bagpath)
-- 
2.43.0


From 3e191e1f9543cbcc57760ec6aef72ab8e9ee690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 07/50] fix: allow splitting a bag that has no bag-info.txt
 file

---
 multibag/split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 824cc29..2a99d0c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -389,12 +389,12 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
-                with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                             'w', encoding=DEF_ENC) as fd:
-                    with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                        for f in ifd:
-                            fd.write(f)
-                
+                if self.progenitor.isfile("bag-info.txt"):
+                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
 
             yield bagdir
 
-- 
2.43.0


From 78eff97cb9887e50d023feebda3bf758cd5745e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:40 +0000
Subject: [PATCH 08/50] fix: write a split's head bag so that it is recognized
 as such only once complete

---
 multibag/split.py | 47 ++++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 2a99d0c..baef1b3 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -332,7 +332,30 @@ class SplitPlan(object):
                         
                     filedest[file] = bagname
                     
-            # create the bag-info file
+            # create the multibag files
+            if m.get('ishead'):
+                mbagdir = os.path.join(bagdir, "multibag")
+                if not os.path.isdir(mbagdir):
+                    os.mkdir(mbagdir)
+
+                with io.open(os.path.join(mbagdir, "member-bags.tsv"),
+                             'w', encoding=DEF_ENC) as fd:
+                    for bag in memberbags:
+                        fd.write(u"%s" % bag)
+                        fd.write(u'\n')
+                with io.open(os.path.join(mbagdir, "file-lookup.tsv"),
+                             'w', encoding=DEF_ENC) as fd:
+                    for f in filedest:
+                        fd.write(u"%s\t%s\n" % (f, filedest[f]))
+                if self.progenitor.isfile("bag-info.txt"):
+                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
+
+            # create the bag-info file last; with it in place, the head bag will
+            # be recognized as such
             outinfo = os.path.join(bagdir, "bag-info.txt")
             with io.open(outinfo, 'w', encoding=DEF_ENC) as fd:
                 _write_item(fd, 'Multibag-Version', MBAG_VERSION)
@@ -374,28 +397,6 @@ class SplitPlan(object):
                                 v += ",%s" % p[1]
                             _write_item(fd, name, v)
 
-            # create the multibag files
-            if m.get('ishead'):
-                mbagdir = os.path.join(bagdir, "multibag")
-                if not os.path.isdir(mbagdir):
-                    os.mkdir(mbagdir)
-
-                with io.open(os.path.join(mbagdir, "member-bags.tsv"),
-                             'w', encoding=DEF_ENC) as fd:
-                    for bag in memberbags:
-                        fd.write(u"%s" % bag)
-                        fd.write(u'\n')
-                with io.open(os.path.join(mbagdir, "file-lookup.tsv"),
-                             'w', encoding=DEF_ENC) as fd:
-                    for f in filedest:
-                        fd.write(u"%s\t%s\n" % (f, filedest[f]))
-                if self.progenitor.isfile("bag-info.txt"):
-                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                                 'w', encoding=DEF_ENC) as fd:
-                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                            for f in ifd:
-                                fd.write(f)
-
             yield bagdir
 
 
-- 
2.43.0


From 5f577fa1f83cdeebdf8dbcd41642c3e8e8ea4d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:08 +0000
Subject: [PATCH 09/50] fix: only set Multibag-Tag-Directory in the head bag
 resulting from a split

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index baef1b3..1dbd257 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -385,9 +385,9 @@ class SplitPlan(object):
 
                     _write_item(fd, name, vals)
 
-                _write_item(fd, "Multibag-Tag-Directory", "multibag")
                 if m.get('ishead'):
                     # this is the head bag!
+                    _write_item(fd, "Multibag-Tag-Directory", "multibag")
                     _write_item(fd, "Multibag-Head-Version", self.head_version)
                     if self._deprecates:
                         name = "Multibag-Head-Deprecates"
-- 
2.43.0


From 849da3d8b33f6f8c63b5f87904396882b8391dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 10/50] fix: replace rather than replicate the multibag tag
 files when splitting a head bag

---
 multibag/split.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 1dbd257..7c54e8f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -26,6 +26,9 @@ MBAG_INTERNAL_SENDER_DESC = \
    the source bag (whose ID is set as the Bag-Group-Identifier) into multibag 
    member bags."""
 
+_multibag_tag_files = """member-bags.tsv file-lookup.tsv deleted.txt
+    aggregation-info.txt group-members.txt group-directory.txt""".split()
+
 PMAN = "manifest"
 TMAN = "tagmanifest"
 
@@ -246,8 +249,12 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        deleted = []
+        mbagdir = "multibag"
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
+            mbagdir = self.progenitor.multibag_tag_dir
+            deleted = sorted(self.progenitor.deleted_paths())
             try:
                 memberbags = self.progenitor.member_bag_names
             except MissingMultibagFileError:
@@ -257,6 +264,10 @@ class SplitPlan(object):
             except MissingMultibagFileError:
                 pass
         
+        # any multibag tag files in the progenitor are superceded by those
+        # written into the new head bag
+        mbagfiles = ["/".join([mbagdir, f]) for f in _multibag_tag_files]
+
         for m in self.manifests():
             bagname = m.get('name')
             if naming_iter:
@@ -287,6 +298,8 @@ class SplitPlan(object):
             payload_count = 0
             payload_size = 0
             for file in m['contents']:
+                if file in mbagfiles:
+                    continue
 
                 if not self.progenitor.exists(file):
                     if logger:
@@ -347,6 +360,11 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
+                if deleted:
+                    with io.open(os.path.join(mbagdir, "deleted.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        for f in deleted:
+                            fd.write(u"%s\n" % f)
                 if self.progenitor.isfile("bag-info.txt"):
                     with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                                  'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From d705edfde1ec167c5cbba5b8c4ab65d1ed9f430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:23 +0000
Subject: [PATCH 11/50] fix: do not lose track, in a split, of payload files
 missing from the source bag

---
 multibag/split.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index 7c54e8f..395d5e3 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -345,6 +345,9 @@ class SplitPlan(object):
                         
                     filedest[file] = bagname
                     
+            if m.get('ishead'):
+                self._record_missing_payload(bagdir)
+
             # create the multibag files
             if m.get('ishead'):
                 mbagdir = os.path.join(bagdir, "multibag")
@@ -418,6 +421,23 @@ class SplitPlan(object):
             yield bagdir
 
 
+    def _record_missing_payload(self, outdir):
+        # carry over what the progenitor records about the payload files that
+        # it does not actually contain (because they are yet to be fetched or 
+        # have been lost).  
+        for file, hashes in self.progenitor.payload_entries().items():
+            if not self.progenitor.exists(file):
+                for alg in hashes:
+                    self._record_hash(outdir, alg, hashes[alg], file, PMAN)
+
+        fetch = [f for f in self.progenitor.fetch_entries()
+                   if not self.progenitor.exists(f[2])]
+        if fetch:
+            with io.open(os.path.join(outdir, "fetch.txt"),
+                         'w', encoding=DEF_ENC) as fd:
+                for item in fetch:
+                    fd.write(u"%s %s %s\n" % item)
+
     def _record_hash(self, outdir, alg, hash, path, mantype):
         if mantype not in "manifest tagmanifest".split():
             raise ValueError("Unknown manifest type: "+mantype)
-- 
2.43.0


From 7e88bff0d1174103635eef7bd678438116e43f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:16 +0000
Subject: [PATCH 12/50] fix: restore manifests as the union of the member bags'
 manifests, whatever their algorithms

---
 multibag/restore.py | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..652ebc4 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -180,6 +180,9 @@ class BagRestorer(object):
         if skip is None:
             skip = []
         updated = []
+        destentries = OrderedDict()
+        if os.path.isfile(os.path.join(self._destdir, "bagit.txt")):
+            destentries = open_bag(self._destdir).entries
 
         srcbag = as_extended(open_bag(srcbag))
         for root, dirs, files in srcbag.walk():
@@ -221,36 +224,40 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
-
-    def _update_manifests(self, srcbag, updated):
-        destbag = open_bag(self._destdir)
-
-        updated_by_alg = OrderedDict()
-        for path in updated:
-            if path in srcbag.entries:
-                for alg in srcbag.entries[path]:
-                    if alg not in updated_by_alg:
-                        updated_by_alg[alg] = OrderedDict()
-                    updated_by_alg[alg][path] = srcbag.entries[path][alg]
-                
-        for path in destbag.entries:
-            for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
-                    updated_by_alg[alg][path] = destbag.entries[path][alg]
+        if overwrite:
+            for path in updated:
+                destentries.pop(path.lstrip('/'), None)
+        self._update_manifests(srcbag, destentries, skip)
+
+    def _update_manifests(self, srcbag, destentries, skip):
+        # the manifests are to be the union of those of the member bags; the 
+        # hashes already in the destination are from later members and, thus, 
+        # take precedence
+        entries = OrderedDict(destentries)
+        for path in srcbag.entries:
+            if path not in entries:
+                entries[path] = srcbag.entries[path]
+
+        updated_by_alg = OrderedDict([(alg, OrderedDict()) for alg in srcbag.algorithms])
+        for path in entries:
+            if path in skip or any([path.startswith(f+'/') for f in skip]):
+                continue
+            for alg in entries[path]:
+                if alg not in updated_by_alg:
+                    updated_by_alg[alg] = OrderedDict()
+                updated_by_alg[alg][path] = entries[path][alg]
 
         for alg in updated_by_alg:
             files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
+            mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
+            if len(files) > 0 or os.path.exists(mfp):
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
                     for f in files:
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
 
             files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "tagmanifest-%s.txt" % alg)
+            mfp = os.path.join(self._destdir, "tagmanifest-%s.txt" % alg)
+            if len(files) > 0 or os.path.exists(mfp):
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
                     for f in files:
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-- 
2.43.0


From 032550361c39d4273233b5a4126f3929bde26c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:59 +0000
Subject: [PATCH 13/50] fix: install the aggregation's bag-info only after all
 member bags have been restored

---
 multibag/restore.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 652ebc4..a97187e 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -298,13 +298,6 @@ class BagRestorer(object):
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
-                content = fd.read()
-            bif = os.path.join(self._destdir, "bag-info.txt")
-            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
-                fd.write(content)
-                    
         if not self._inplace:
             self._restore_from(self._head.path, skip)
         if members and members[0].name == self._head.name:
@@ -317,6 +310,14 @@ class BagRestorer(object):
         if members:  # skipping head bag
             self.restore_fetch(members)
 
+        # until now, the bag-info.txt file still marks the destination as a head bag
+        if self._head.isfile("multibag/aggregation-info.txt"):
+            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+                content = fd.read()
+            bif = os.path.join(self._destdir, "bag-info.txt")
+            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
+                fd.write(content)
+                    
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
             shutil.rmtree(os.path.join(self._destdir, "multibag"))
-- 
2.43.0


From ae820dd636bed437e901431fc69021a0a35570af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:02 +0000
Subject: [PATCH 14/50] fix: restore from a head bag with a non-default
 multibag tag directory

---
 multibag/restore.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index a97187e..c7d7a4f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -311,8 +311,9 @@ class BagRestorer(object):
             self.restore_fetch(members)
 
         # until now, the bag-info.txt file still marks the destination as a head bag
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        mbdir = self._head.multibag_tag_dir
+        if self._head.isfile(mbdir+"/aggregation-info.txt"):
+            with self._head.open_text_file(mbdir+"/aggregation-info.txt") as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
@@ -320,7 +321,9 @@ class BagRestorer(object):
                     
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            for mbdir in sorted(set([mbdir, "multibag"])):
+                if os.path.isdir(os.path.join(self._destdir, mbdir)):
+                    shutil.rmtree(os.path.join(self._destdir, mbdir))
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From 2fde9be029f56edfacf3018c8426ce744508bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:26 +0000
Subject: [PATCH 15/50] fix: combine fetch.txt files in member order, including
 the head's and without deleted files

---
 multibag/restore.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index c7d7a4f..c6ab973 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -167,9 +167,9 @@ class BagRestorer(object):
             if membag.isfile("fetch.txt"):
                 with membag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2 and parts[2] not in fetch:
+                            fetch[parts[2]] = line
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -263,9 +263,12 @@ class BagRestorer(object):
                         fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
 
         
-    def restore_fetch(self, members=None):
+    def restore_fetch(self, members=None, skip=None):
         """
         restore the fetch file to the output bag.  
+        :param list members: the descriptions of the bags to draw from, in the order that they 
+                             are listed in the head bag; if not given, all members are included.
+        :param list skip:    a list of paths that should not be included in the result.
         """
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
@@ -274,19 +277,26 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
-            bag = open_bag(src)
+            bag = self._head
+            if member.name != self._head.name:
+                bag = open_bag(self.get_member_bag(member.name))
             if bag.isfile("fetch.txt"):
                 with bag.open_text_file("fetch.txt") as fd:
                     for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+                        parts = line.strip().split(None, 2)
+                        if len(parts) > 2:
+                            fetch[parts[2]] = line.rstrip("\r\n") + "\n"
+        for path in (skip or []):
+            for f in [f for f in fetch if f == path or f.startswith(path+'/')]:
+                del fetch[f]
+
+        fp = os.path.join(self._destdir, "fetch.txt")
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
                 for f in fetch:
                     fd.write(fetch[f])
+        elif os.path.exists(fp):
+            os.remove(fp)
 
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
@@ -307,8 +317,7 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch(skip=skip)
 
         # until now, the bag-info.txt file still marks the destination as a head bag
         mbdir = self._head.multibag_tag_dir
-- 
2.43.0


From 8c7488d67279bedae853face77677205fb33329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:43 +0000
Subject: [PATCH 16/50] fix: remove files marked as deleted from the head bag
 when restoring in place

---
 multibag/restore.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index c6ab973..94769a2 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -298,6 +298,19 @@ class BagRestorer(object):
         elif os.path.exists(fp):
             os.remove(fp)
 
+    def _remove_deleted(self, skip):
+        # remove the files marked as deleted that are already in the destination bag
+        destbag = open_bag(self._destdir)
+        for path in skip:
+            destf = os.path.normpath(os.path.join(self._destdir, path))
+            if not destf.startswith(self._destdir + os.sep):
+                continue
+            if os.path.isdir(destf):
+                shutil.rmtree(destf)
+            elif os.path.exists(destf):
+                os.remove(destf)
+        self._update_manifests(destbag, OrderedDict(), skip)
+
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
         properly recombine all of member bags in the multibag aggregation specified by the head bag
@@ -310,6 +323,8 @@ class BagRestorer(object):
 
         if not self._inplace:
             self._restore_from(self._head.path, skip)
+        elif skip:
+            self._remove_deleted(skip)
         if members and members[0].name == self._head.name:
             members.pop(0)
 
-- 
2.43.0


From 28a7da500026edf6109952ea19263be38adc5035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:33 +0000
Subject: [PATCH 17/50] fix: accept absolute URLs in the member bag list when
 validating a head bag

---
 multibag/validate/headbag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..b585364 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -327,7 +327,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -407,7 +407,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
-- 
2.43.0


From 7817431eec3c1b90c7dc150dcec4f0517aa9ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 18/50] fix: report a malformed bag as a validation error
 rather than failing to validate

---
 multibag/validate/bag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..86c6628 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -38,7 +38,7 @@ class BagValidator(Validator):
                 comments = [ex.message] + ex.details
             except BagError as ex:
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
-- 
2.43.0


From c48f067478cbd83eb2b1a46ee884f312454cbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 19/50] fix: have the head bag validator report on bags lacking
 head metadata or payload directory

---
 multibag/validate/headbag.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index b585364..1620b87 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -204,7 +204,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -273,16 +272,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -457,16 +452,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -546,8 +537,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        payload = []
+        if self.bag.isdir("data"):
+            payload = self.bag._root.subfspath("data").fs.walk.files()
+        for df in payload:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -632,8 +625,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        payload = []
+        if self.bag.isdir("data"):
+            payload = self.bag._root.subfspath("data").fs.walk.files()
+        for df in payload:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -659,16 +654,12 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
         if not isinstance(mdir, list):
             mdir = [mdir]
-        mdir = mdir[-1]
-        
-        assert mdir
-        assert ishead
+        mdir = mdir[-1] or "multibag"
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 4c088654dcf220f1c83af83acd4b568d57231624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:03 +0000
Subject: [PATCH 20/50] fix: include the tests for non-head bags in the results
 of the member bag validator

---
 multibag/validate/member.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/validate/member.py b/multibag/validate/member.py
index e32c728..37e9056 100644
--- a/multibag/validate/member.py
+++ b/multibag/validate/member.py
@@ -61,7 +61,7 @@ class MemberBagValidator(Validator):
             return out
 
         self.validate_bagname(want, results, version)
-        self.validate_as_nonhead(want, results, version)
+        self.validate_as_nonhead(want, out, version)
 
         return out
 
-- 
2.43.0


From a331db42409ee55296cb22bd1c3e7f9c020c9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:06 +0000
Subject: [PATCH 21/50] fix: report an unexpected payload file when validating
 a read-only bag without a Payload-Oxum

---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..23053f2 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -289,7 +289,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            f = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(f)] = f
+            yield f
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From 7b1cf78ffaad57afbe833a016efec01112faa311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:25 +0000
Subject: [PATCH 22/50] fix: report malformed Payload-Oxum and fetch.txt values
 as bag errors

---
 multibag/access/bagit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 23053f2..2a64311 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -328,7 +328,10 @@ class ReadOnlyBag(_bagit.Bag):
         if fetch_file_path.isfile():
             with open_text_file(fetch_file_path, 'r', encoding=self.encoding) as fetch_file:
                 for line in fetch_file:
-                    url, file_size, filename = line.strip().split(None, 2)
+                    try:
+                        url, file_size, filename = line.strip().split(None, 2)
+                    except ValueError:
+                        raise BagError(_("Malformed line in fetch.txt: %s") % line.strip())
 
                     if self._path_is_dangerous(filename):
                         raise BagError(_('Path "%(payload_file)s" in "%(source_file)s" is unsafe') % {
@@ -457,7 +460,7 @@ class ReadOnlyBag(_bagit.Bag):
             LOGGER.warning(_('bag-info.txt defines multiple Payload-Oxum values!'))
             oxum = oxum[0]
 
-        oxum_byte_count, oxum_file_count = oxum.split('.', 1)
+        oxum_byte_count, _sep, oxum_file_count = oxum.partition('.')
 
         if not oxum_byte_count.isdigit() or not oxum_file_count.isdigit():
             raise BagError(_("Malformed Payload-Oxum value: %s") % oxum)
-- 
2.43.0


From 352d365b5053a47617f5744db0be9685548b2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:28 +0000
Subject: [PATCH 23/50] fix: ignore trailing slashes when determining a bag's
 name from its path

---
 multibag/access/bagit.py | 1 +
 multibag/amend.py        | 2 +-
 multibag/split.py        | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2a64311..f13835b 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -640,6 +640,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
+        location = location.rstrip("/") or location
         name = os.path.basename(location)
         parent = os.path.dirname(location)
         if not parent:
diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..f75e738 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,7 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
+        bagname = self.bag.name
         mi = MemberInfo(bagname, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
diff --git a/multibag/split.py b/multibag/split.py
index 395d5e3..423ca76 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -501,7 +501,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath))[0]
+            namebasis = os.path.splitext(os.path.basename(bagpath.rstrip("/")))[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From 21f381d4e82f28dddf76b02f0995e4adcf42ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:06 +0000
Subject: [PATCH 24/50] fix: allow extra information to be recorded about a
 member bag

---
 multibag/access/multibag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index ad90fa8..3216d6e 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,10 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
@@ -79,7 +79,7 @@ class MemberInfo(object):
             if fields[-1].startswith('#'):
                 comm = fields.pop(-1).lstrip('#').strip()
         if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0) or None
         
         return MemberInfo(name, uri, comm, *fields)
 
-- 
2.43.0


From 1b79c42b29ba228c95d6cbece444aab3f215ef6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:10 +0000
Subject: [PATCH 25/50] fix: load a head bag's saved deletions and members
 before changing them

---
 multibag/access/multibag.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 3216d6e..8e70df4 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -509,7 +509,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
@@ -648,7 +648,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -664,7 +664,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
-- 
2.43.0


From 3cb4caa2c91b259eedd694f4bf4acd3e4e83b573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:13 +0000
Subject: [PATCH 26/50] fix: exclude everything below an excluded directory
 from the file lookup

---
 multibag/access/multibag.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 8e70df4..9e247f6 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -579,7 +579,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
@@ -594,9 +594,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
 
             elif bag.isdir(incl):
                 for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
-                        for i in range(len(subdirs)):
-                            subdirs.pop(0)
+                    if any([d == e or d.startswith(e+'/') for e in exclude]):
                         continue
                     for f in files:
                         f = "/".join([d, f])
-- 
2.43.0


From 3a351ee5de2cc7a8ab5caf0b2a687ac8830185af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:16 +0000
Subject: [PATCH 27/50] fix: ignore spaces around the TAB delimiters in
 member-bags.tsv and file-lookup.tsv

---
 multibag/access/multibag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 9e247f6..bfa8fda 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -72,7 +72,7 @@ class MemberInfo(object):
         if len(fields) < 1 or not fields[0]:
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip()
         comm = None
         uri = None
         if len(fields) > 0:
@@ -109,7 +109,7 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
+    out = [f.strip() for f in line.strip().split('\t')]
     if len(out) < 2:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
-- 
2.43.0


From 8a2253a0e697b6ab64d1fe59ff0a9d7fbb90cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:20 +0000
Subject: [PATCH 28/50] fix: only break lines at newlines when reading text
 files from a writable bag

---
 multibag/access/extended.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 3afcb9c..42ebf27 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -5,7 +5,7 @@ can work against the base bagit.Bag class directly or against the ReadOnlyBag
 class which can read serialized versions of bags.  
 """
 from __future__ import absolute_import
-import os, sys, re, shutil, codecs, inspect
+import os, sys, re, io, shutil, codecs, inspect
 from collections import OrderedDict, namedtuple
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, tzinfo
@@ -389,7 +389,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                              file.  (Default: "utf-8-sig").
         """
         path = self._canon_path(path)
-        return codecs.open(path, encoding=encoding);
+        return io.open(path, encoding=encoding)
         
     def walk(self, start=None):
         """
-- 
2.43.0


From 49ffa7cf0bea6e4392c326fc2c996d2316997e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:19 +0000
Subject: [PATCH 29/50] fix: do not modify the amended bag's list of deprecated
 versions

The new head bag's info shared the list with the (caller's) instance of the
amended bag, so the amended version was appended to both.
---
 multibag/amend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index f75e738..3dddde5 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -277,7 +277,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
-- 
2.43.0


From 4bbba35f0d6470bd4740de6f1593f15d9c177916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:22 +0000
Subject: [PATCH 30/50] fix: keep files deleted from an aggregation deleted
 after it is amended

The list of deleted files was not carried over from the amended head bag to
the new one, so restoring the new version brought the deleted files back.
Files that are provided anew by the amendment are taken off the list.
---
 multibag/access/multibag.py | 11 ++++++++---
 multibag/amend.py           | 22 ++++++++++++++++++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index bfa8fda..7e51d3d 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -679,13 +679,18 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'deleted.txt')
-        if not self._deleted and os.path.exists(tagfile):
-            os.remove(tagfile)
+        if not self._deleted:
+            if os.path.exists(tagfile):
+                os.remove(tagfile)
+            return
 
+        # the previous list should not get lost if this gets interrupted
         self.ensure_tagdir()
-        with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
+        tmpfile = tagfile + ".tmp"
+        with io.open(tmpfile, 'w', encoding=DEF_ENC) as fd:
             for path in self._deleted:
                 fd.write(path + u"\n")
+        getattr(os, 'replace', os.rename)(tmpfile, tagfile)
 
     def update_info(self, version=None, profver=CURRENT_VERSION):
         """
diff --git a/multibag/amend.py b/multibag/amend.py
index 3dddde5..0ed31ae 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -218,6 +218,8 @@ class Amender(object):
         self._pid = pid
         self._comm = comment
         self._info = list(info)
+        self._newdeleted = [] # deletions set in the new head bag
+        self._deleted = []    # deletions carried over from the amendee
 
     def init_from_amendee(self, keepprofver=False):
         """
@@ -231,10 +233,26 @@ class Amender(object):
                                   by this module.
         """
 
+        self._init_deleted()
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
 
+    def _init_deleted(self):
+        # files deleted from the amended aggregation remain deleted (unless they
+        # are provided anew as part of the amendment)
+        self._newdeleted = self._newhead.deleted_paths()
+        self._deleted = []
+        if self._oldhead.is_head_multibag():
+            self._deleted = [p for p in self._oldhead.deleted_paths()
+                               if p not in self._newdeleted]
+
+    def _save_deleted(self):
+        for path in self._newdeleted + self._deleted:
+            self._newhead.set_deleted(path)
+        if self._newhead.deleted_paths():
+            self._newhead.save_deleted()
+
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
                               'member-bags.tsv')
@@ -322,6 +340,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._deleted = [p for p in self._deleted if not membag.isfile(p)]
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -349,7 +368,10 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._deleted = [p for p in self._deleted
+                           if not self._newhead.isfile(p)]
 
+        self._save_deleted()
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
         self._newhead.update_info(version, self._newhead.profile_version)
-- 
2.43.0


From 1a12bca60676531858a6ccc69aee19384f83e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:49 +0000
Subject: [PATCH 31/50] fix: restore from serialized bags whose directories
 have no recorded times

A tar file need not contain explicit entries for its directories, in which
case no modification time is available for them.
---
 multibag/restore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 94769a2..4f9aae0 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -205,7 +205,7 @@ class BagRestorer(object):
 
                     # try to copy the modification time
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             for f in dirs:
@@ -218,7 +218,7 @@ class BagRestorer(object):
                     # try to copy the modification time
                     srcpath = "/".join([root, f])
                     times = srcbag.timesfor(srcpath)
-                    if times:
+                    if times and times.mtime is not None:
                         os.utime(destf, (time.time(), times.mtime))
 
             if rmtime:
-- 
2.43.0


From 8a572eafcbe0141206a75375a0b25f4e446c91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:01 +0000
Subject: [PATCH 32/50] fix: allow restoring from zip files that have no
 entries for their directories

---
 multibag/access/extended.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 42ebf27..df1f484 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -609,6 +609,9 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
             info = self._root.fs.getinfo(path, namespaces=['details'])
         except ResourceNotFound as ex:
             raise OSError(2, "File not found: "+path)
+        if not info.has_namespace('details'):
+            # e.g. a directory without its own entry in a zip file
+            return FileTimes(None, None, None)
         return FileTimes(ctime=_d2e(info.created), mtime=_d2e(info.modified), atime=_d2e(info.accessed))
 
     def replicate(self, path, destdir, logger=None):
-- 
2.43.0


From e05581b6bde6d35133e54e67d99ffdf449672cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:42 +0000
Subject: [PATCH 33/50] fix: only use the head bag's own aggregation-info when
 restoring in place

---
 multibag/restore.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 4f9aae0..c0189fb 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -318,6 +318,15 @@ class BagRestorer(object):
         """
         skip = self._head.deleted_paths()
         members = list(reversed(self._head.member_bags()))
+
+        # when restoring in place, an earlier head bag's copy could get restored 
+        # into the head bag; thus, get the head bag's own now.
+        mbdir = self._head.multibag_tag_dir
+        agginfo = None
+        if self._head.isfile(mbdir+"/aggregation-info.txt"):
+            with self._head.open_text_file(mbdir+"/aggregation-info.txt") as fd:
+                agginfo = fd.read()
+
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
@@ -335,13 +344,10 @@ class BagRestorer(object):
         self.restore_fetch(skip=skip)
 
         # until now, the bag-info.txt file still marks the destination as a head bag
-        mbdir = self._head.multibag_tag_dir
-        if self._head.isfile(mbdir+"/aggregation-info.txt"):
-            with self._head.open_text_file(mbdir+"/aggregation-info.txt") as fd:
-                content = fd.read()
+        if agginfo is not None:
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
-                fd.write(content)
+                fd.write(agginfo)
                     
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-- 
2.43.0


From 1679255a8bbb1035dd137a0cb43d2b70adde9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 34/50] fix: write the file lookup of a new head bag even if
 there are no files to list

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 7e51d3d..23ff41a 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -633,7 +633,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                                'file-lookup.tsv')
         if os.path.exists(tagfile):
             os.remove(tagfile)
-        self._filelu = None
+        self._filelu = OrderedDict()
         
 
     def set_deleted(self, filepath):
-- 
2.43.0


From b43cafda6153f06ef3bbe6607e860d7f60aed9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 35/50] fix: do not translate line ends when reading text files
 from a writable bag

---
 multibag/access/extended.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index df1f484..c26cbf3 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -389,7 +389,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                              file.  (Default: "utf-8-sig").
         """
         path = self._canon_path(path)
-        return io.open(path, encoding=encoding)
+        return io.open(path, encoding=encoding, newline='')
         
     def walk(self, start=None):
         """
-- 
2.43.0


From 189848011aa3157a190c691b4d6617d0808720da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:21 +0000
Subject: [PATCH 36/50] fix: ignore a byte-order mark when reading text files
 from a read-only bag

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index f13835b..bdcc752 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -259,7 +259,7 @@ class ReadOnlyBag(_bagit.Bag):
         """
         return self._root.fs.isdir(path)
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
-- 
2.43.0


From 2e218e9bb7a9a93223f9a21ad6ffc6da101580cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:40 +0000
Subject: [PATCH 37/50] fix: do not take a comment in the member bag list for a
 URL when validating a head bag

---
 multibag/validate/headbag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 1620b87..1620948 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -400,7 +400,8 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     found.add(last)
-                if len(parts) > 1 and len(parts[1]) > 0:
+                if len(parts) > 1 and len(parts[1]) > 0 and \
+                   not parts[1].startswith('#'):
                     url = urlparse(parts[1])
                     if not url.scheme:
                         badurl.append(i)
-- 
2.43.0


From 17d47b0fda3582328ca821c4157dcf23051752bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:10 +0000
Subject: [PATCH 38/50] fix: treat paths that point outside of a read-only bag
 as not existing in it

---
 multibag/access/bagit.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index bdcc752..0036a9e 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -6,7 +6,7 @@ etc.).
 from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
-import fs.osfs, fs.zipfs, fs.tarfs
+import fs.errors, fs.osfs, fs.zipfs, fs.tarfs
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -238,7 +238,10 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a relative path to a directory or file within the bag
         """
-        return self._root.fs.exists(path)
+        try:
+            return self._root.fs.exists(path)
+        except fs.errors.IllegalBackReference:
+            return False     # outside of the bag
 
     def isfile(self, path):
         """
@@ -247,7 +250,10 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a path to a file relative to the bag's root directory
         """
-        return self._root.fs.isfile(path)
+        try:
+            return self._root.fs.isfile(path)
+        except fs.errors.IllegalBackReference:
+            return False     # outside of the bag
 
     def isdir(self, path):
         """
@@ -257,7 +263,10 @@ class ReadOnlyBag(_bagit.Bag):
         :param str path:  a path to a directory relative to the bag's root 
                           directory
         """
-        return self._root.fs.isdir(path)
+        try:
+            return self._root.fs.isdir(path)
+        except fs.errors.IllegalBackReference:
+            return False     # outside of the bag
 
     def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
-- 
2.43.0


From f56fa7a0529d53c9127cfede8d044089c119434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:13 +0000
Subject: [PATCH 39/50] fix: report a malformed URL in a head bag as a
 validation error rather than failing to validate

---
 multibag/validate/headbag.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 1620948..a8a6efd 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -12,6 +12,15 @@ from .base import (Validator, ValidationIssue, ValidationResults,
 from .bag import BagValidator
 from ..access.bagit import BagValidationError, BagError, open_bag, _load_tag_file
 
+def _parse_url(url):
+    """
+    split a URL into its parts; if it is malformed, all of the parts will be empty
+    """
+    try:
+        return urlparse(url)
+    except ValueError:
+        return urlparse('')
+
 class HeadBagValidator(Validator):
     """
     A validator that tests whether a given Bag (serialized or otherwise) complies
@@ -120,7 +129,7 @@ class HeadBagValidator(Validator):
 
         t = out._issue("3-Reference-val",
                        "Multibag-Reference value must be an absolute URL")
-        url = urlparse(url)
+        url = _parse_url(url)
         out._err(t, url.scheme and url.netloc)
 
         return out
@@ -321,7 +330,7 @@ class HeadBagValidator(Validator):
                 else:
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
-                    url = urlparse(parts[1])
+                    url = _parse_url(parts[1])
                     if not url.scheme:
                         badurl.append(i)
 
@@ -402,7 +411,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0 and \
                    not parts[1].startswith('#'):
-                    url = urlparse(parts[1])
+                    url = _parse_url(parts[1])
                     if not url.scheme:
                         badurl.append(i)
 
-- 
2.43.0


From 8e633a7c893bfba2377042df21a00346a560b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:27 +0000
Subject: [PATCH 40/50] fix: refuse to restore from a member bag that has lost
 its manifests

---
 multibag/restore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/multibag/restore.py b/multibag/restore.py
index c0189fb..46d248f 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -185,6 +185,10 @@ class BagRestorer(object):
             destentries = open_bag(self._destdir).entries
 
         srcbag = as_extended(open_bag(srcbag))
+        if not list(srcbag.manifest_files()):
+            # without a manifest there is no telling if anything is missing
+            raise MultibagError("Incomplete bag: no manifest files found in " + srcbag.path)
+
         for root, dirs, files in srcbag.walk():
             if root in skip or len([f for f in skip if root.startswith(f+'/')]) > 0:
                 # if this root directory has been marked as deleted, skip it
-- 
2.43.0


From cbc565bf611e1e7e65135213c374594647c29f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 41/50] fix: keep paths that lead out of a writable bag into a
 similarly named sibling outside of it

---
 multibag/access/extended.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index c26cbf3..e2df9ef 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -262,7 +262,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
         path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        root = os.path.normpath(self._bagdir)
+        if path != root and not path.startswith(os.path.join(root, '')):
             return None
         return path
 
@@ -415,7 +416,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        if not self.isdir(start):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         def _fail(ex):
-- 
2.43.0


From c4127bb21bc965b88fdedeb588823ac79d3c3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:23 +0000
Subject: [PATCH 42/50] fix: validate read-only bags with more than one process
 requested

A read-only bag's filesystem instance cannot be pickled, so that validate(processes=2)
failed with a TypeError for every bag.
---
 multibag/access/bagit.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 0036a9e..4e0a200 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -502,25 +502,15 @@ class ReadOnlyBag(_bagit.Bag):
         """
         errors = list()
 
-        if os.name == 'posix':
-            worker_init = posix_multiprocessing_worker_initializer
-        else:
-            worker_init = None
-
         args = ((self._root,
                  self.normalized_filesystem_names.get(rel_path, rel_path),
                  hashes,
                  self.algorithms) for rel_path, hashes in self.entries.items())
 
         try:
-            if processes == 1:
-                hash_results = [_calc_hashes(i) for i in args]
-            else:
-                try:
-                    pool = multiprocessing.Pool(processes if processes else None, initializer=worker_init)
-                    hash_results = pool.map(_calc_hashes, args)
-                finally:
-                    pool.terminate()
+            # the underlying filesystem cannot be handed to other processes; thus, 
+            # this is done within this one, regardless of the value of processes
+            hash_results = [_calc_hashes(i) for i in args]
 
         # Any unhandled exceptions are probably fatal
         except:
-- 
2.43.0


From 9f4db060a092e1fd865f34b84fc8fb2a9ece1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:14 +0000
Subject: [PATCH 43/50] fix: create a multibag tag directory that is not
 directly below the bag's root

---
 multibag/access/multibag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 23ff41a..dc2fb4b 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -424,7 +424,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
         if not os.path.exists(mbdir):
-            os.mkdir(mbdir)
+            os.makedirs(mbdir)
 
     def save_member_bags(self):
         """
-- 
2.43.0


From 09442d258fb7b707c95360dee59a860a5a7fe46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:43 +0000
Subject: [PATCH 44/50] fix: write the pieces of a bag with tag files that are
 not in UTF-8 consistently

---
 multibag/access/extended.py |  9 +++++++++
 multibag/split.py           | 14 +++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e2df9ef..0bc2db1 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -33,6 +33,15 @@ def _d2e(dt):
         return dt
     return (dt - datetime(1970, 1, 1, tzinfo=dt.tzinfo)).total_seconds()
 
+def tag_encoding(bag):
+    """
+    return the label of the encoding to use for reading the tag files that are 
+    defined by the BagIt standard from the given bag.
+    """
+    if codecs.lookup(bag.encoding).name == 'utf-8':
+        return 'utf-8-sig'
+    return bag.encoding
+
 class ExtendedReadMixin(object):
     """
     an interface providing additional read-only access to the contents of a bag
diff --git a/multibag/split.py b/multibag/split.py
index 423ca76..8e2d600 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -11,7 +11,7 @@ from functools import cmp_to_key
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
 from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
-from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
+from .access.extended import as_extended, tag_encoding, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
 
 from fs.copy import copy_file
@@ -293,7 +293,14 @@ class SplitPlan(object):
                 with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
                     pass
 
-            self.progenitor.replicate("bagit.txt", bagdir)
+            if tag_encoding(self.progenitor) == 'utf-8-sig':
+                self.progenitor.replicate("bagit.txt", bagdir)
+            else:
+                # the tag files get written in the default encoding
+                with io.open(os.path.join(bagdir, "bagit.txt"),
+                             'w', encoding=DEF_ENC) as fd:
+                    fd.write(u"BagIt-Version: %s\n" % self.progenitor.version)
+                    fd.write(u"Tag-File-Character-Encoding: UTF-8\n")
 
             payload_count = 0
             payload_size = 0
@@ -371,7 +378,8 @@ class SplitPlan(object):
                 if self.progenitor.isfile("bag-info.txt"):
                     with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
                                  'w', encoding=DEF_ENC) as fd:
-                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                        with self.progenitor.open_text_file("bag-info.txt",
+                                        tag_encoding(self.progenitor)) as ifd:
                             for f in ifd:
                                 fd.write(f)
 
-- 
2.43.0


From 5f5a8628639ba96d59bff7eac6032722cac886b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:46 +0000
Subject: [PATCH 45/50] fix: drop the stale checksums of files that a restored
 member replaces

---
 multibag/restore.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 46d248f..172d96d 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -181,8 +181,11 @@ class BagRestorer(object):
             skip = []
         updated = []
         destentries = OrderedDict()
+        destalgs = []
         if os.path.isfile(os.path.join(self._destdir, "bagit.txt")):
-            destentries = open_bag(self._destdir).entries
+            destbag = open_bag(self._destdir)
+            destentries = destbag.entries
+            destalgs = destbag.algorithms
 
         srcbag = as_extended(open_bag(srcbag))
         if not list(srcbag.manifest_files()):
@@ -231,9 +234,9 @@ class BagRestorer(object):
         if overwrite:
             for path in updated:
                 destentries.pop(path.lstrip('/'), None)
-        self._update_manifests(srcbag, destentries, skip)
+        self._update_manifests(srcbag, destentries, skip, destalgs)
 
-    def _update_manifests(self, srcbag, destentries, skip):
+    def _update_manifests(self, srcbag, destentries, skip, destalgs=()):
         # the manifests are to be the union of those of the member bags; the 
         # hashes already in the destination are from later members and, thus, 
         # take precedence
@@ -242,7 +245,8 @@ class BagRestorer(object):
             if path not in entries:
                 entries[path] = srcbag.entries[path]
 
-        updated_by_alg = OrderedDict([(alg, OrderedDict()) for alg in srcbag.algorithms])
+        updated_by_alg = OrderedDict([(alg, OrderedDict())
+                                      for alg in list(srcbag.algorithms) + list(destalgs)])
         for path in entries:
             if path in skip or any([path.startswith(f+'/') for f in skip]):
                 continue
-- 
2.43.0


From 732e3b4f5797ecc7fa82d2f0f839c7d43ebf43cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:13 +0000
Subject: [PATCH 46/50] fix: report a naming iterator without any names as
 exhausted

---
 multibag/split.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multibag/split.py b/multibag/split.py
index 8e2d600..02b5396 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -161,6 +161,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
-- 
2.43.0


From 339732be43af909b80ecf98082c7c0ca44c431e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:05 +0000
Subject: [PATCH 47/50] fix: refuse a multibag tag directory outside of the bag
 or in its payload

---
 multibag/access/multibag.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index dc2fb4b..dbba6ab 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -3,7 +3,7 @@ This module provides access to the informational content of a multibag
 aggregation.  In particular, it provides the read-only HeadBag class.
 """
 from __future__ import absolute_import
-import re, os, sys, io
+import re, os, sys, io, posixpath
 from collections import OrderedDict
 
 from .bagit import Bag, ReadOnlyBag, open_bag
@@ -197,7 +197,16 @@ class HeadBagReadMixin(ExtendedReadMixin):
                 out = defval
             else:
                 out = out[-1]
-        return out
+        return self._check_tag_dir(out)
+
+    def _check_tag_dir(self, dirname):
+        # the multibag tag files must be written within the bag but not among 
+        # its payload
+        norm = posixpath.normpath(dirname.replace(os.sep, '/'))
+        if norm.startswith('/') or norm.split('/')[0] in ['.', '..', 'data']:
+            raise MultibagError("Not a legal multibag tag directory: '" +
+                                dirname + "'")
+        return dirname
 
     def iter_member_bags(self):
         """
@@ -349,7 +358,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         :param bool migrate: If True and there exists a multibag tag directory 
                              already, rename that directory accordingly.
         """
-        dirname = os.path.join(*(dirname.split('/')))
+        dirname = self._check_tag_dir(os.path.join(*(dirname.split('/'))))
         if dirname == self.multibag_tag_dir:
             return
 
-- 
2.43.0


From c41307c90502f2078b7bfe6dec654b6e7028e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:23 +0000
Subject: [PATCH 48/50] fix: validate files that the manifest gives in another
 Unicode normalization

---
 multibag/access/bagit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 4e0a200..203694c 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -503,7 +503,7 @@ class ReadOnlyBag(_bagit.Bag):
         errors = list()
 
         args = ((self._root,
-                 self.normalized_filesystem_names.get(rel_path, rel_path),
+                 self.normalized_filesystem_names.get(normalize_unicode(rel_path), rel_path),
                  hashes,
                  self.algorithms) for rel_path, hashes in self.entries.items())
 
-- 
2.43.0


From 4efed9c9c6c4ab7592cde7927d6277acfb69eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:27 +0000
Subject: [PATCH 49/50] fix: keep checksums of files that the manifest gives in
 another Unicode normalization when splitting

---
 multibag/split.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 02b5396..1fd5b13 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -12,7 +12,7 @@ from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
 from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, tag_encoding, ExtendedReadMixin as ProgenitorMixin
-from bagit import _parse_tags
+from bagit import _parse_tags, normalize_unicode
 
 from fs.copy import copy_file
 from fs import open_fs
@@ -345,8 +345,8 @@ class SplitPlan(object):
                     else:
                         hd = self.progenitor.tagfile_entries()
                         mantype = TMAN
-                    if file in hd:
-                        hashes = hd[file]
+                    hashes = hd.get(self._manifest_name(file))
+                    if hashes:
                         for alg in hashes:
                             self._record_hash(bagdir, alg, hashes[alg],
                                               file, mantype)
@@ -430,17 +430,33 @@ class SplitPlan(object):
             yield bagdir
 
 
+    def _manifest_name(self, path):
+        # return the path the way that it is given in the progenitor's manifests;
+        # it can differ from the name on disk in its Unicode normalization
+        if path in self.progenitor.entries:
+            return path
+        return self.progenitor.normalized_manifest_names.get(
+                                               normalize_unicode(path), path)
+
     def _record_missing_payload(self, outdir):
         # carry over what the progenitor records about the payload files that
         # it does not actually contain (because they are yet to be fetched or 
         # have been lost).  
-        for file, hashes in self.progenitor.payload_entries().items():
-            if not self.progenitor.exists(file):
+        entries = self.progenitor.payload_entries()
+        fetch = list(self.progenitor.fetch_entries())
+        missing = [f for f in list(entries) + [f[2] for f in fetch]
+                     if not self.progenitor.exists(f)]
+        if missing:
+            present = set([normalize_unicode(f) for f in self.required()])
+            missing = set([f for f in missing
+                             if normalize_unicode(f) not in present])
+
+        for file, hashes in entries.items():
+            if file in missing:
                 for alg in hashes:
                     self._record_hash(outdir, alg, hashes[alg], file, PMAN)
 
-        fetch = [f for f in self.progenitor.fetch_entries()
-                   if not self.progenitor.exists(f[2])]
+        fetch = [f for f in fetch if f[2] in missing]
         if fetch:
             with io.open(os.path.join(outdir, "fetch.txt"),
                          'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From 2bca049b9910627d4804c3ba106ed5afc43a3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:30 +0000
Subject: [PATCH 50/50] fix: match manifest paths regardless of Unicode
 normalization when restoring

---
 multibag/restore.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 172d96d..159a73e 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -10,6 +10,7 @@ from .access.multibag import (is_headbag, as_headbag, open_headbag, MissingMulti
                               HeadBag, ReadOnlyHeadBag, MultibagError, ExtendedReadWritableBag)
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from .access.bagit import _ext_fs_lookup, open_bag, Bag
+from bagit import normalize_unicode
 
 class _FileNotFoundError(OSError):
     def __init__(self, message):
@@ -232,23 +233,28 @@ class BagRestorer(object):
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
         if overwrite:
-            for path in updated:
-                destentries.pop(path.lstrip('/'), None)
+            updated = set([normalize_unicode(f.lstrip('/')) for f in updated])
+            for path in [f for f in destentries if normalize_unicode(f) in updated]:
+                del destentries[path]
         self._update_manifests(srcbag, destentries, skip, destalgs)
 
     def _update_manifests(self, srcbag, destentries, skip, destalgs=()):
         # the manifests are to be the union of those of the member bags; the 
         # hashes already in the destination are from later members and, thus, 
-        # take precedence
+        # take precedence.  (The manifests may differ in the Unicode normalization 
+        # of the paths.)
         entries = OrderedDict(destentries)
+        have = set([normalize_unicode(f) for f in entries])
         for path in srcbag.entries:
-            if path not in entries:
+            if normalize_unicode(path) not in have:
                 entries[path] = srcbag.entries[path]
+        skip = [normalize_unicode(f) for f in skip]
 
         updated_by_alg = OrderedDict([(alg, OrderedDict())
                                       for alg in list(srcbag.algorithms) + list(destalgs)])
         for path in entries:
-            if path in skip or any([path.startswith(f+'/') for f in skip]):
+            norm = normalize_unicode(path)
+            if norm in skip or any([norm.startswith(f+'/') for f in skip]):
                 continue
             for alg in entries[path]:
                 if alg not in updated_by_alg:
-- 
2.43.0

