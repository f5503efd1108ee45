From c6162bcd88f101fd5890a2602ccd1ff8ffef426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 01/21] fix: element assignment wrote every stored element of
 sparse and DM arrays

solve_index(pos, (), ()) answered () for every position, so assigning a
single element of a COO, FlatCOO, CSR or DM array matched all of them.
---
 gcs/slice_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 208938d..11beeae 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -340,6 +340,9 @@ def solve_index(pos, shape, strides, data=None):
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
     assert not shape or s is not None
+    if not shape:
+        # the only element of a 0-dimensional array has position 0
+        return () if pos == 0 else None
     if pos % d:
         return  # no solution exists
 
-- 
2.43.0


From e52192f185f46fb6cc78d9499a422961f227653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 02/21] fix: fixing an axis of a sliced DM array ignored the
 slice offset

DM[1:][0] returned row 0 of the storage array.
---
 gcs/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 0198cd7..5675438 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1113,7 +1113,7 @@ class DM(Storage):
                 rstrides += (kstrides,)
                 dindex += (None,)
             else:
-                dindex += (koffset,)
+                dindex += (self.roffset[k] + koffset,)
             t = tuple(axis_map[i] for i in self.rdimensions[k] if i not in axis_to_be_removed)
             if t:
                 rdimensions += (t,)
-- 
2.43.0


From a1d98afe71b77343e1f4228a932a5552d4b18a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 03/21] fix: slicing DM over a sparse storage copied the
 storage data

A slice that keeps the dimensionality is documented not to access the
storage data, but self.data[None, ...] made a copy of COO, FlatCOO and
CSR storage, so that the slice was not a view.
---
 gcs/storage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 5675438..68c0030 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -1122,5 +1122,8 @@ class DM(Storage):
         # storage data when the sliced array has the same
         # dimensionality (holds also for COO and CSR use cases) or
         # when the data storage uses strided storage format.
-        data = self.data[dindex] if dindex else self.data
+        if all(ind is None for ind in dindex):
+            data = self.data
+        else:
+            data = self.data[dindex]
         return DM(gshape, rdimensions, rstrides, roffset, data)
-- 
2.43.0


From 9b46da2cd698219d2210a51bcbe09ee2208ebcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 04/21] fix: arrays and slices without elements failed to
 convert and slice

A CSR array of only unspecified elements could not be created, and
slicing an empty slice raised ZeroDivisionError or AssertionError.
---
 gcs/slice_tools.py |  7 +++++--
 gcs/storage.py     | 11 +++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 11beeae..6ce00ec 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -115,7 +115,8 @@ def index_strided(index, shape, strides, offset=0):
         if isinstance(ind, int):
             offset += stride * ind
         elif isinstance(ind, slice):
-            offset += stride * (ind.start % size)
+            if size:
+                offset += stride * (ind.start % size)
             new_shape.append(nitems(ind, size, reduce=False))
             new_strides.append(stride * ind.step)
         elif ind is None:
@@ -203,7 +204,7 @@ def init_diophantine(a, shape=None):
     hypercube, see solve_index for more information.
 
     """
-    if len(a) == 0:
+    if len(a) == 0 or (shape is not None and 0 in shape):
         return 1, (), (), (), (), None
 
     if len(a) == 1:
@@ -336,6 +337,8 @@ def solve_index(pos, shape, strides, data=None):
 
       A t + I s = b       2*N equalities with N+1 slack variables s
     """
+    if 0 in shape:
+        return  # an empty array has no elements
     if data is None:
         data = init_diophantine(strides, shape=shape)
     d, z0, zs, D, b, s = data
diff --git a/gcs/storage.py b/gcs/storage.py
index 68c0030..280dd90 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -560,14 +560,14 @@ class Buffer(Storage):
         if isinstance(index, slice):
             start = self.offset + index.start if index.start is not None else self.offset
             stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
-            if start < 0 or start >= len(self.data):
+            if start < 0 or start > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} start position must be in'
-                    f' range({len(self.data)}), got {start}')
-            if stop <= 0 or stop > len(self.data):
+                    f' range({len(self.data)+1}), got {start}')
+            if stop < 0 or stop > len(self.data):
                 raise IndexError(
                     f'{type(self).__name__} stop position must be in '
-                    f'range(1, {len(self.data)+1}), got {stop}')
+                    f'range({len(self.data)+1}), got {stop}')
             s = slice(start, stop, index.step)
             s = slice_tools.reduced(s, len(self.data))
             if s.step != 1:
@@ -649,6 +649,9 @@ class Strided(Storage):
         return get_position(index, self.shape, self.strides)
 
     def get_slice(self, shape, strides, offset):
+        if 0 in shape:
+            # an empty slice has no first element to point to
+            offset = 0
         return Strided(shape, strides, self.data[offset:])
 
 
-- 
2.43.0


From 7b55b3fb361a13af7ad6eb82e86d30421edf9bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 05/21] fix: out of range integer indices wrapped around
 silently

As a result, iterating an array as a sequence (list(array)) never
terminated, and reading or assigning outside an axis hit other elements.
---
 gcs/slice_tools.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gcs/slice_tools.py b/gcs/slice_tools.py
index 6ce00ec..56f4a66 100644
--- a/gcs/slice_tools.py
+++ b/gcs/slice_tools.py
@@ -128,11 +128,20 @@ def index_strided(index, shape, strides, offset=0):
     return tuple(new_shape), tuple(new_strides), offset
 
 
+def normalize_int(index, size):
+    """Normalize negative integer index. Raise IndexError when the index
+    is out of range.
+    """
+    if not -size <= index < size:
+        raise IndexError(f'index {index} is out of range for axis with size {size}')
+    return index % size
+
+
 def normalize_index(index, shape):
     """Reduce slice indices and normalize negative integer indices.
     """
     if isinstance(index, int):
-        return (index % shape[0],) + (None,) * (len(shape)-1)
+        return (normalize_int(index, shape[0]),) + (None,) * (len(shape)-1)
     elif isinstance(index, slice):
         return (reduced(index, shape[0]),) + (None,) * (len(shape)-1)
     elif index is None:
@@ -141,7 +150,7 @@ def normalize_index(index, shape):
     for i in range(len(index)):
         ind = index[i]
         if isinstance(ind, int):
-            new_index[i] = ind % shape[i]
+            new_index[i] = normalize_int(ind, shape[i])
         elif isinstance(ind, slice):
             new_index[i] = reduced(ind, shape[i])
         elif ind is None:
-- 
2.43.0


From 51a33c5968283833a58700a2700dd08b8311f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 06/21] fix: assigning from an overlapping view or a short
 source corrupted elements

a[:] = a[::-1] read elements that it had already overwritten, and a
source that could not be read completely left the target half assigned.
---
 gcs/storage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index 280dd90..e0b277b 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -350,8 +350,11 @@ class Storage:
     def __setitem__(self, index, value):
         index = slice_tools.normalize_index(index, self.shape)
         shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
-        for value_index, data_pos in self.slice_indices_and_data_position(shape, strides, offset):
-            self.data[data_pos] = get_value(value, value_index)
+        # Read all values before storing any as value may share data with self.
+        items = [(data_pos, get_value(value, value_index)) for value_index, data_pos
+                 in self.slice_indices_and_data_position(shape, strides, offset)]
+        for data_pos, item in items:
+            self.data[data_pos] = item
 
     def get_data_position(self, index):
         raise NotImplementedError(f'{type(self).__name__}.get_data_position')
-- 
2.43.0


From d0dead4a7d08dd87bcf8758511e09d7fcbb11811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 07/21] fix: Storage.equal printed to stdout, and failed when
 stdout was broken

---
 gcs/storage.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/gcs/storage.py b/gcs/storage.py
index e0b277b..1eba42a 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -341,10 +341,6 @@ class Storage:
                 other = Strided.fromobject(other, unspecified=self.unspecified)
         for index, value in other.elements():
             d2[index] = value
-        if d1 != d2:
-            print()
-            print(f'{d1=}')
-            print(f'{d2=}')
         return d1 == d2
 
     def __setitem__(self, index, value):
-- 
2.43.0


From ebb764df5723f66541e55591566c00260ef63e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 08/21] fix: import failed when git rev-list or git show failed

int(None) and None.strip() escaped from get_versions(), both at run time
and at build time. Report an unknown version instead.
---
 gcs/_version.py |  9 +++++++--
 versioneer.py   | 18 ++++++++++++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 2c0692c..1f3242d 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -295,11 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
diff --git a/versioneer.py b/versioneer.py
index 64fea1c..0e52a9d 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -715,11 +715,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
@@ -1107,11 +1112,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
     date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+                       cwd=root)[0]
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 142dc0447273529e3306e1b4bb809fa10ebea636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 09/21] fix: import failed when git printed names that are not
 valid UTF-8

A tag name is bytes to git; decoding it raised UnicodeDecodeError.
---
 gcs/_version.py |  7 ++++++-
 versioneer.py   | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 1f3242d..0a97d97 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -95,7 +95,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %s" % dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
diff --git a/versioneer.py b/versioneer.py
index 0e52a9d..c95b546 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -409,7 +409,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %s" % dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -515,7 +520,12 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        try:
+            stdout = stdout.decode()
+        except UnicodeDecodeError:
+            if verbose:
+                print("unable to decode output of %%s" %% dispcmd)
+            return None, p.returncode
     if p.returncode != 0:
         if verbose:
             print("unable to run %%s (error)" %% dispcmd)
-- 
2.43.0


From ccedd7d692f08f85b215ed08257405fcb8c5c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 10/21] fix: build-time version failed on Python 3.12

configparser.SafeConfigParser and readfp are gone, so computing the
version from the project root raised AttributeError.
---
 versioneer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index c95b546..ec98390 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -339,9 +339,14 @@ def get_config_from_root(root):
     # configparser.NoOptionError (if it lacks "VCS="). See the docstring at
     # the top of versioneer.py for instructions on writing your setup.cfg .
     setup_cfg = os.path.join(root, "setup.cfg")
-    parser = configparser.SafeConfigParser()
-    with open(setup_cfg, "r") as f:
-        parser.readfp(f)
+    if sys.version_info[0] >= 3:
+        parser = configparser.ConfigParser()
+        with open(setup_cfg, "r") as f:
+            parser.read_file(f)
+    else:
+        parser = configparser.SafeConfigParser()
+        with open(setup_cfg, "r") as f:
+            parser.readfp(f)
     VCS = parser.get("versioneer", "VCS")  # mandatory
 
     def get(parser, name):
-- 
2.43.0


From cb2af189ef39a4fe9d5cbdebb83987c5209e2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:11 +0000
Subject: [PATCH 11/21] fix: recording the version file could lose it

The version file was removed before the new one was written: when the
process died or the disk was full, neither the old nor a complete new
file was left.
---
 versioneer.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index ec98390..a4fdf45 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -285,6 +285,7 @@ import errno
 import json
 import os
 import re
+import shutil
 import subprocess
 import sys
 
@@ -1240,13 +1241,38 @@ def versions_from_file(filename):
     return json.loads(mo.group(1))
 
 
+def replace_file(filename, contents):
+    """Make contents (bytes) the contents of the file, or leave it alone.
+
+    The contents go to a new file that takes the place of the old one when it
+    is complete. The old file may be a hardlink, it is never written to.
+    """
+    tmp = filename + ".tmp"
+    try:
+        os.unlink(tmp)  # left behind by an interrupted run
+    except EnvironmentError:
+        pass
+    try:
+        with open(tmp, "wb") as f:
+            f.write(contents)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(filename):
+            shutil.copymode(filename, tmp)
+        getattr(os, "replace", os.rename)(tmp, filename)
+    except BaseException:
+        try:
+            os.unlink(tmp)
+        except EnvironmentError:
+            pass
+        raise
+
+
 def write_to_version_file(filename, versions):
     """Write the given version number to the given _version.py file."""
-    os.unlink(filename)
     contents = json.dumps(versions, sort_keys=True,
                           indent=1, separators=(",", ": "))
-    with open(filename, "w") as f:
-        f.write(SHORT_VERSION_PY % contents)
+    replace_file(filename, (SHORT_VERSION_PY % contents).encode("ascii"))
 
     print("set %s to '%s'" % (filename, versions["version"]))
 
-- 
2.43.0


From 4c5747237052a905113a0773ba255a29d33581da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 12/21] fix: a recorded version with quotes could not be read
 back

The JSON text was put in a plain string literal: version tags with quote
characters made the version file fail to import or to parse.
---
 versioneer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index a4fdf45..155ff6c 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1214,7 +1214,7 @@ SHORT_VERSION_PY = """
 
 import json
 
-version_json = '''
+version_json = r'''
 %s
 '''  # END VERSION_JSON
 
@@ -1231,10 +1231,10 @@ def versions_from_file(filename):
             contents = f.read()
     except EnvironmentError:
         raise NotThisMethod("unable to read _version.py")
-    mo = re.search(r"version_json = '''\n(.*)'''  # END VERSION_JSON",
+    mo = re.search(r"version_json = r?'''\n(.*)'''  # END VERSION_JSON",
                    contents, re.M | re.S)
     if not mo:
-        mo = re.search(r"version_json = '''\r\n(.*)'''  # END VERSION_JSON",
+        mo = re.search(r"version_json = r?'''\r\n(.*)'''  # END VERSION_JSON",
                        contents, re.M | re.S)
     if not mo:
         raise NotThisMethod("no version_json in _version.py")
@@ -1272,6 +1272,7 @@ def write_to_version_file(filename, versions):
     """Write the given version number to the given _version.py file."""
     contents = json.dumps(versions, sort_keys=True,
                           indent=1, separators=(",", ": "))
+    contents = contents.replace("'", "\\u0027")  # goes to a r''' string
     replace_file(filename, (SHORT_VERSION_PY % contents).encode("ascii"))
 
     print("set %s to '%s'" % (filename, versions["version"]))
-- 
2.43.0


From fd7dee039a2c5460d49d108432d2b4bc77a35ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 13/21] fix: an interrupted or failing version-support
 installer damaged files

Lines were appended to the initialiser, the manifest, .gitattributes and
setup.cfg in place: to an unterminated last line of the user, partially
when the run died or the disk was full, and once more when the file could
not be read. Entries of other files with the version file's name as a
prefix were taken for the version file's own.
---
 versioneer.py | 57 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 155ff6c..0d194f9 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1167,16 +1167,16 @@ def do_vcs_install(manifest_in, versionfile_source, ipy):
     try:
         f = open(".gitattributes", "r")
         for line in f.readlines():
-            if line.strip().startswith(versionfile_source):
+            if line.strip().split()[:1] == [versionfile_source]:
                 if "export-subst" in line.strip().split()[1:]:
                     present = True
         f.close()
-    except EnvironmentError:
-        pass
+    except EnvironmentError as e:
+        if e.errno != errno.ENOENT:
+            raise
     if not present:
-        f = open(".gitattributes", "a+")
-        f.write("%s export-subst\n" % versionfile_source)
-        f.close()
+        append_to_file(".gitattributes",
+                       "%s export-subst\n" % versionfile_source)
         files.append(".gitattributes")
     run_command(GITS, ["add", "--"] + files)
 
@@ -1268,6 +1268,23 @@ def replace_file(filename, contents):
         raise
 
 
+def append_to_file(filename, text):
+    """Append lines to the file: either all of them or nothing."""
+    filename = os.path.realpath(filename)
+    try:
+        with open(filename, "rb") as f:
+            contents = f.read()
+    except EnvironmentError as e:
+        if e.errno != errno.ENOENT:
+            raise
+        contents = b""
+    if contents and not contents.endswith(b"\n"):
+        contents += b"\n"
+    if not isinstance(text, bytes):
+        text = text.encode("utf-8")
+    replace_file(filename, contents + text)
+
+
 def write_to_version_file(filename, versions):
     """Write the given version number to the given _version.py file."""
     contents = json.dumps(versions, sort_keys=True,
@@ -1753,11 +1770,12 @@ def do_setup():
         cfg = get_config_from_root(root)
     except (EnvironmentError, configparser.NoSectionError,
             configparser.NoOptionError) as e:
+        if isinstance(e, EnvironmentError) and e.errno != errno.ENOENT:
+            raise
         if isinstance(e, (EnvironmentError, configparser.NoSectionError)):
             print("Adding sample versioneer config to setup.cfg",
                   file=sys.stderr)
-            with open(os.path.join(root, "setup.cfg"), "a") as f:
-                f.write(SAMPLE_CONFIG)
+            append_to_file(os.path.join(root, "setup.cfg"), SAMPLE_CONFIG)
         print(CONFIG_ERROR, file=sys.stderr)
         return 1
 
@@ -1774,15 +1792,11 @@ def do_setup():
     ipy = os.path.join(os.path.dirname(cfg.versionfile_source),
                        "__init__.py")
     if os.path.exists(ipy):
-        try:
-            with open(ipy, "r") as f:
-                old = f.read()
-        except EnvironmentError:
-            old = ""
-        if INIT_PY_SNIPPET not in old:
+        with open(ipy, "r") as f:
+            old = f.read()
+        if INIT_PY_SNIPPET not in "\n" + old + "\n":
             print(" appending to %s" % ipy)
-            with open(ipy, "a") as f:
-                f.write(INIT_PY_SNIPPET)
+            append_to_file(ipy, INIT_PY_SNIPPET)
         else:
             print(" %s unmodified" % ipy)
     else:
@@ -1801,23 +1815,22 @@ def do_setup():
                 if line.startswith("include "):
                     for include in line.split()[1:]:
                         simple_includes.add(include)
-    except EnvironmentError:
-        pass
+    except EnvironmentError as e:
+        if e.errno != errno.ENOENT:
+            raise
     # That doesn't cover everything MANIFEST.in can do
     # (http://docs.python.org/2/distutils/sourcedist.html#commands), so
     # it might give some false negatives. Appending redundant 'include'
     # lines is safe, though.
     if "versioneer.py" not in simple_includes:
         print(" appending 'versioneer.py' to MANIFEST.in")
-        with open(manifest_in, "a") as f:
-            f.write("include versioneer.py\n")
+        append_to_file(manifest_in, "include versioneer.py\n")
     else:
         print(" 'versioneer.py' already in MANIFEST.in")
     if cfg.versionfile_source not in simple_includes:
         print(" appending versionfile_source ('%s') to MANIFEST.in" %
               cfg.versionfile_source)
-        with open(manifest_in, "a") as f:
-            f.write("include %s\n" % cfg.versionfile_source)
+        append_to_file(manifest_in, "include %s\n" % cfg.versionfile_source)
     else:
         print(" versionfile_source already in MANIFEST.in")
 
-- 
2.43.0


From 3899ce4e55edc6fe239ea419b8fbdcb3d913d65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 14/21] fix: exported tags with commas or parentheses were
 reported cut

The tag names that git puts into an archive are separated by a comma and
a space, in one pair of parentheses; commas and parentheses can be part
of a tag name.
---
 gcs/_version.py | 4 +++-
 versioneer.py   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/gcs/_version.py b/gcs/_version.py
index 0a97d97..b3f3c85 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -182,7 +182,9 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    if refnames.startswith("(") and refnames.endswith(")"):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
diff --git a/versioneer.py b/versioneer.py
index 0d194f9..ec31530 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -613,7 +613,9 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    if refnames.startswith("(") and refnames.endswith(")"):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
@@ -1010,7 +1012,9 @@ def git_versions_from_keywords(keywords, tag_prefix, verbose):
         if verbose:
             print("keywords are unexpanded, not using")
         raise NotThisMethod("unexpanded keywords, not a git-archive tarball")
-    refs = set([r.strip() for r in refnames.strip("()").split(",")])
+    if refnames.startswith("(") and refnames.endswith(")"):
+        refnames = refnames[1:-1]
+    refs = set([r.strip() for r in refnames.split(", ")])
     # starting in git-1.8.3, tags are listed as "tag: foo-1.0" instead of
     # just "foo-1.0". If we see a "tag: " prefix, prefer those.
     TAG = "tag: "
-- 
2.43.0


From 1fface962397f3b04256b51652a56eb08d5380f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 15/21] fix: compare the elements of strided arrays with
 negative strides

Two reversed slices whose first elements are equal compared equal whatever
the other elements were.
---
 gcs/storage.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gcs/storage.py b/gcs/storage.py
index 1eba42a..360c1f2 100644
--- a/gcs/storage.py
+++ b/gcs/storage.py
@@ -620,6 +620,13 @@ class Strided(Storage):
     def _get_object_data(self):
         return self.shape, self.strides, self.data
 
+    def __eq__(self, other):
+        result = super().__eq__(other)
+        if result is True and self is not other and any(s < 0 for s in self.strides):
+            # elements with negative strides precede the data that was compared
+            result = list(self.elements()) == list(other.elements())
+        return result
+
     def copy(self, unspecified=DEFAULT):
         """Return a row-wise contiguous copy.
         """
-- 
2.43.0


From 672e33c4318fc687b1a3afa4e605c124e2ec7ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 16/21] fix: an executable build lost the source tree's version
 file when it failed

---
 versioneer.py | 63 +++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index ec31530..4354ebc 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1289,6 +1289,35 @@ def append_to_file(filename, text):
     replace_file(filename, contents + text)
 
 
+def build_with_version_file(root, cfg, versions, build):
+    """Run build() with the versions recorded in the source tree.
+
+    The executable builders take the version file from the source tree. It is
+    put back after the build, also when the build fails.
+    """
+    filename = os.path.join(root, cfg.versionfile_source)
+    try:
+        with open(filename, "rb") as f:
+            original = f.read()
+    except EnvironmentError as e:
+        if e.errno != errno.ENOENT:
+            raise
+        LONG = LONG_VERSION_PY[cfg.VCS]
+        original = (LONG %
+                    {"DOLLAR": "$",
+                     "STYLE": cfg.style,
+                     "TAG_PREFIX": cfg.tag_prefix,
+                     "PARENTDIR_PREFIX": cfg.parentdir_prefix,
+                     "VERSIONFILE_SOURCE": cfg.versionfile_source,
+                     }).encode("ascii")
+    print("UPDATING %s" % filename)
+    try:
+        write_to_version_file(filename, versions)
+        build()
+    finally:
+        replace_file(filename, original)
+
+
 def write_to_version_file(filename, versions):
     """Write the given version number to the given _version.py file."""
     contents = json.dumps(versions, sort_keys=True,
@@ -1646,21 +1675,8 @@ def get_cmdclass():
                 root = get_root()
                 cfg = get_config_from_root(root)
                 versions = get_versions()
-                target_versionfile = cfg.versionfile_source
-                print("UPDATING %s" % target_versionfile)
-                write_to_version_file(target_versionfile, versions)
-
-                _build_exe.run(self)
-                os.unlink(target_versionfile)
-                with open(cfg.versionfile_source, "w") as f:
-                    LONG = LONG_VERSION_PY[cfg.VCS]
-                    f.write(LONG %
-                            {"DOLLAR": "$",
-                             "STYLE": cfg.style,
-                             "TAG_PREFIX": cfg.tag_prefix,
-                             "PARENTDIR_PREFIX": cfg.parentdir_prefix,
-                             "VERSIONFILE_SOURCE": cfg.versionfile_source,
-                             })
+                build_with_version_file(root, cfg, versions,
+                                        lambda: _build_exe.run(self))
         cmds["build_exe"] = cmd_build_exe
         del cmds["build_py"]
 
@@ -1675,21 +1691,8 @@ def get_cmdclass():
                 root = get_root()
                 cfg = get_config_from_root(root)
                 versions = get_versions()
-                target_versionfile = cfg.versionfile_source
-                print("UPDATING %s" % target_versionfile)
-                write_to_version_file(target_versionfile, versions)
-
-                _py2exe.run(self)
-                os.unlink(target_versionfile)
-                with open(cfg.versionfile_source, "w") as f:
-                    LONG = LONG_VERSION_PY[cfg.VCS]
-                    f.write(LONG %
-                            {"DOLLAR": "$",
-                             "STYLE": cfg.style,
-                             "TAG_PREFIX": cfg.tag_prefix,
-                             "PARENTDIR_PREFIX": cfg.parentdir_prefix,
-                             "VERSIONFILE_SOURCE": cfg.versionfile_source,
-                             })
+                build_with_version_file(root, cfg, versions,
+                                        lambda: _py2exe.run(self))
         cmds["py2exe"] = cmd_py2exe
 
     # we override different "sdist" commands for both environments
-- 
2.43.0


From 76025be1286616389354fe94f30f131e2b264d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 17/21] fix: builds recording their versions at the same time
 could fail or tear the version file

---
 versioneer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/versioneer.py b/versioneer.py
index 4354ebc..2ddba9e 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1251,7 +1251,7 @@ def replace_file(filename, contents):
     The contents go to a new file that takes the place of the old one when it
     is complete. The old file may be a hardlink, it is never written to.
     """
-    tmp = filename + ".tmp"
+    tmp = "%s.%d.tmp" % (filename, os.getpid())  # others may be at it, too
     try:
         os.unlink(tmp)  # left behind by an interrupted run
     except EnvironmentError:
-- 
2.43.0


From eaf7594711faf2f25ee8f66d499749742b1102e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 18/21] fix: git hooks got the version of their repository for
 the package's

---
 gcs/_version.py | 4 ++++
 versioneer.py   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/gcs/_version.py b/gcs/_version.py
index b3f3c85..8d6a2ab 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -71,6 +71,10 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
                 env=None):
     """Call the given command(s)."""
     assert isinstance(commands, list)
+    if env is None:
+        # in a git hook these are about the hook's repository
+        env = dict((k, v) for k, v in os.environ.items()
+                   if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
     p = None
     for c in commands:
         try:
diff --git a/versioneer.py b/versioneer.py
index 2ddba9e..ab3451b 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -391,6 +391,10 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
                 env=None):
     """Call the given command(s)."""
     assert isinstance(commands, list)
+    if env is None:
+        # in a git hook these are about the hook's repository
+        env = dict((k, v) for k, v in os.environ.items()
+                   if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
     p = None
     for c in commands:
         try:
@@ -502,6 +506,10 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
                 env=None):
     """Call the given command(s)."""
     assert isinstance(commands, list)
+    if env is None:
+        # in a git hook these are about the hook's repository
+        env = dict((k, v) for k, v in os.environ.items()
+                   if k not in ("GIT_DIR", "GIT_WORK_TREE", "GIT_INDEX_FILE"))
     p = None
     for c in commands:
         try:
-- 
2.43.0


From 6da8746a3889b053fe741fe9e671979f357f29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 19/21] fix: the version's date was garbled with git's
 log.showSignature

---
 gcs/_version.py | 2 ++
 versioneer.py   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/gcs/_version.py b/gcs/_version.py
index 8d6a2ab..d4a1868 100644
--- a/gcs/_version.py
+++ b/gcs/_version.py
@@ -316,6 +316,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
+    # with log.showSignature, what is said about the signature comes first
+    date = date.split("\n")[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
diff --git a/versioneer.py b/versioneer.py
index ab3451b..ec9165b 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -751,6 +751,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
+    # with log.showSignature, what is said about the signature comes first
+    date = date.split("\\n")[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
@@ -1150,6 +1152,8 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
                        cwd=root)[0]
     if date is None:
         raise NotThisMethod("'git show' failed")
+    # with log.showSignature, what is said about the signature comes first
+    date = date.split("\n")[-1]
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From bd20a3da01386b0a592c4de35c8f3a592173c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 20/21] fix: installer stages .gitattributes on every run

When an earlier run added the entry but died, or failed to stage it, no later
run marked .gitattributes for the commit.
---
 versioneer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/versioneer.py b/versioneer.py
index ec9165b..8bca320 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1193,7 +1193,7 @@ def do_vcs_install(manifest_in, versionfile_source, ipy):
     if not present:
         append_to_file(".gitattributes",
                        "%s export-subst\n" % versionfile_source)
-        files.append(".gitattributes")
+    files.append(".gitattributes")
     run_command(GITS, ["add", "--"] + files)
 
 
-- 
2.43.0


From 207479f626ed31e7aa924ef9c3f6fd1e8ba0d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 21/21] fix: installer does not mistake an unreadable
 __init__.py for a missing one

It reported success without adding the version lines.
---
 versioneer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/versioneer.py b/versioneer.py
index 8bca320..f04b3f1 100644
--- a/versioneer.py
+++ b/versioneer.py
@@ -1810,17 +1810,20 @@ def do_setup():
 
     ipy = os.path.join(os.path.dirname(cfg.versionfile_source),
                        "__init__.py")
-    if os.path.exists(ipy):
+    try:
         with open(ipy, "r") as f:
             old = f.read()
+    except EnvironmentError as e:
+        if e.errno != errno.ENOENT:
+            raise
+        print(" %s doesn't exist, ok" % ipy)
+        ipy = None
+    else:
         if INIT_PY_SNIPPET not in "\n" + old + "\n":
             print(" appending to %s" % ipy)
             append_to_file(ipy, INIT_PY_SNIPPET)
         else:
             print(" %s unmodified" % ipy)
-    else:
-        print(" %s doesn't exist, ok" % ipy)
-        ipy = None
 
     # Make sure both the top-level "versioneer.py" and versionfile_source
     # (PKG/_version.py, used by runtime code) are in MANIFEST.in, so
-- 
2.43.0

