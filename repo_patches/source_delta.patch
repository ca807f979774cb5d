From b7116b7594f1944edc122daeac90de8726ba084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 01/65] fix: DirEntry.modify_time setter packed into an
 immutable copy and raised TypeError

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c470ed4..5d34889 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -635,7 +635,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
-        struct.pack_into(str('<Q'), bytes(self.data), 108, value)
+        struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
     @property
-- 
2.43.0


From 9c0b94a09f3a394e6d82d23cd040c37239b3b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 02/65] fix: find/exists of a path below a stream raised
 ValueError instead of reporting it missing

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 5d34889..9a6924b 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2001,6 +2001,9 @@ class CompoundFileBinary(object):
 
         while True:
 
+            if not root.isdir():
+                return None
+
             children = self.listdir_dict(root)
             match = children.get(split_path[i], None)
 
-- 
2.43.0


From e0f98a242c73d5c61c95eadfc88ea6c1aaba786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 03/65] fix: seeking past the end of a stream opened for
 reading padded the stream with zeros

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9a6924b..f706f7f 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -103,7 +103,7 @@ class Stream(object):
         if offset < 0:
             raise ValueError('New position is before the start of the stream')
 
-        if offset > self.dir.byte_size:
+        if offset > self.dir.byte_size and self.mode != 'r':
             # logging.debug("overseek %d bytes, padding with zeros" % (offset - self.dir.byte_size))
             self.pos = self.dir.byte_size
             bytes_left = offset - self.dir.byte_size
-- 
2.43.0


From 1dce18db115961d902b691f15bd5158a854e3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:27 +0000
Subject: [PATCH 04/65] fix: terminate the DIFAT chain with ENDOFCHAIN
 (comparison was written for assignment)

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index f706f7f..6e294bf 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1637,7 +1637,7 @@ class CompoundFileBinary(object):
             for i in range(self.sector_size // 4):
                 difat.append(FREESECT)
 
-            difat[-1] == ENDOFCHAIN
+            difat[-1] = ENDOFCHAIN
             self.difat.append(difat)
 
             for t, i, v in self.iter_difat():
-- 
2.43.0


From 48860dd1c16f70aa4f62eb89a00430dec759e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 05/65] fix: a name that is too long lost the moved entry, or a
 directory slot, instead of just being refused

---
 src/aaf2/cfb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 6e294bf..1657b4f 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1846,6 +1846,9 @@ class CompoundFileBinary(object):
         if not root.type in ('storage', 'root storage'):
             raise ValueError("can not add entry to non storage type")
 
+        if len(basename.encode("utf-16le")) > 64:
+            raise ValueError("name too long: %s" % basename)
+
         dir_id = self.next_free_dir_id()
         logging.debug("next dir id %d" % dir_id)
 
@@ -2130,6 +2133,9 @@ class CompoundFileBinary(object):
         if not dst_entry.isdir():
             raise ValueError("dst dirname cannot be stream: %s" % dst_dirname)
 
+        if len(dst_basename.encode("utf-16le")) > 64:
+            raise ValueError("name too long: %s" % dst_basename)
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 06be884a6bc8982eb1e508df4b610f4b3c34fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 06/65] fix: moving a storage into its own subtree silently
 lost it

---
 src/aaf2/cfb.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 1657b4f..a442841 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2136,6 +2136,12 @@ class CompoundFileBinary(object):
         if len(dst_basename.encode("utf-16le")) > 64:
             raise ValueError("name too long: %s" % dst_basename)
 
+        parent = dst_entry
+        while parent is not None:
+            if parent is src_entry:
+                raise ValueError("cannot move %s into itself: %s" % (src, dst))
+            parent = parent.parent
+
         # src_entry.parent.remove_child(src_entry)
 
         src_entry.pop()
-- 
2.43.0


From 6dcf3e7240562b815aa55a261dabe6589af91d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 07/65] fix: the last sector of an in memory file was left
 partial on close

---
 src/aaf2/cfb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index a442841..9c1e6bc 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1180,6 +1180,11 @@ class CompoundFileBinary(object):
         self.f.seek(pos)
         self.f.truncate()
 
+        # NOTE: truncating a BytesIO does not extend it, pad the last sector
+        if self.f.seek(0, io.SEEK_END) < pos:
+            self.f.seek(pos - 1)
+            self.f.write(b'\0')
+
         self.is_open = False
 
     def setup_empty(self, sector_size):
-- 
2.43.0


From 704e9743dc00816c8a75c2af8842091b79cf093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 08/65] fix: empty streams marked with ENDOFCHAIN lost written
 data and broke close

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9c1e6bc..c790cb9 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -641,6 +641,9 @@ class DirEntry(object):
     @property
     def sector_id(self):
         sid = unpack_u32le_from(self.data, 116)
+        # empty streams can also be marked with ENDOFCHAIN
+        if sid == ENDOFCHAIN:
+            return None
         return decode_sid(sid)
 
     @sector_id.setter
-- 
2.43.0


From 22d4ea04a9f9da3469d944e5c8dca7bd11c63c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 09/65] fix: move failed half way when the destination's
 children were no longer cached

---
 src/aaf2/cfb.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index c790cb9..154aaf6 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2158,8 +2158,6 @@ class CompoundFileBinary(object):
         src_entry.name = dst_basename
         dst_entry.add_child(src_entry)
 
-        self.children_cache[dst_entry.dir_id][src_entry.name] = src_entry
-
         return src_entry
 
     def open(self, path, mode='r'):
-- 
2.43.0


From 74e8dea974252b8c0c61186f4bc3ebf1bcc29ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 10/65] fix: property data and set keys shared the caller's
 mutable identifiers, and changing a mob id to a taken one lost the other mob

---
 src/aaf2/properties.py | 9 +++++++--
 src/aaf2/types.py      | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a58dd70..2ac9219 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -856,15 +856,20 @@ class StrongRefSetProperty(Property):
         if obj is None:
             raise ValueError("invalid key: %s" % str(old_key))
 
+        if new_key != old_key and new_key in self.references:
+            raise ValueError("key already exists: %s" % str(new_key))
+
+        obj.unique_property.data = bytes(new_key.bytes_le)
+
         # remove reference
         self.objects.pop(old_key)
         local_key = self.references.pop(old_key)
 
+        # don't share the key with the caller, it is mutable
+        new_key = obj.unique_key
         self.references[new_key] = local_key
         self.objects[new_key] = obj
 
-        obj.unique_property.data = new_key.bytes_le
-
     @writeonly
     def extend(self, values):
         typedef = self.typedef
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 6a9c0aa..c1b1af4 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -691,11 +691,11 @@ class TypeDefRecord(TypeDef):
     def encode(self, data):
         # MobID
         if self.auid == MOBID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         # AUID
         if self.auid == AUID_AUID:
-            return data.bytes_le
+            return bytes(data.bytes_le)
 
         result = b""
         # TimeStamp
-- 
2.43.0


From 5764e9de03ea190e9e6d97839348f3d43bfa2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:47 +0000
Subject: [PATCH 11/65] fix: vectors of owned objects: iterators stored
 nothing, insert misplaced objects or skipped the checks, refused calls left
 the vector changed, removal left the objects attached

---
 src/aaf2/properties.py | 48 +++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2ac9219..e557a7b 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -509,12 +509,12 @@ class StrongRefVectorProperty(Property):
         return "%s{%x}" % (self.index_name, self.references[index])
 
     def get(self, index, default=None):
-        if index >= len(self.references):
-            return default
-
         if index < 0:
             index = max(0, len(self.references) + index)
 
+        if index >= len(self.references):
+            return default
+
         item = self.objects.get(index, None)
         if item:
             return item
@@ -546,11 +546,7 @@ class StrongRefVectorProperty(Property):
         if index >= len(self):
             raise IndexError("StrongRefVectorProperty assignment index out of range")
 
-        if value.root is not self.parent.root:
-            raise AAFAttachError("Object is from a different root")
-
-        if value.dir:
-            raise AAFAttachError("Object already attached")
+        self.check_values([value])
 
         obj = self.get(index, None)
         if obj:
@@ -604,8 +600,14 @@ class StrongRefVectorProperty(Property):
 
     @writeonly
     def insert(self, index, value):
-        assert self.ref_classdef.isinstance(value.classdef)
+        self.check_values([value])
+
+        # same meaning as list.insert
+        if index < 0:
+            index = max(0, len(self) + index)
+        index = min(index, len(self))
 
+        index_name = self.index_name # sets self.data
         self.references.insert(index, self.next_free_key)
 
         objects = {}
@@ -622,22 +624,35 @@ class StrongRefVectorProperty(Property):
             self.objects = weakref.WeakValueDictionary(objects)
         else:
             self.objects = objects
+        self.add_pid_entry()
         self.attach()
 
-    @writeonly
-    def extend(self, value):
-        index_name = self.index_name # sets self.data
+    def check_values(self, values, replaced=()):
+        """raise if any of the values cannot be added to the vector"""
         ref_classdef = self.ref_classdef
+        replaced = set(id(obj) for obj in replaced)
+        seen = set()
 
-        for obj in value:
-            assert ref_classdef.isinstance(obj.classdef)
+        for obj in values:
+            if not ref_classdef.isinstance(obj.classdef):
+                raise TypeError("must be instance of: %s" % ref_classdef.class_name)
 
             if obj.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
-            if obj.dir:
+            if obj.dir and id(obj) not in replaced:
                 raise AAFAttachError("Object already attached")
 
+            if id(obj) in seen:
+                raise AAFAttachError("Object is in the list more than once")
+            seen.add(id(obj))
+
+    @writeonly
+    def extend(self, value):
+        value = list(value)
+        self.check_values(value)
+        index_name = self.index_name # sets self.data
+
         for obj in value:
             i = len(self.references)
             self.references.append(self.next_free_key)
@@ -658,9 +673,12 @@ class StrongRefVectorProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value, list(self))
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From d11fdee66d16a5ec6c79997363975c49a335941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 12/65] fix: replacing or removing a single owned object did
 not detach it unless it happened to be cached

---
 src/aaf2/properties.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index e557a7b..a2953ae 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -340,6 +340,8 @@ class StrongRefProperty(Property):
     def value(self):
         if self.object:
             return self.object
+        if self.ref is None or self.parent.dir is None:
+            return None
         dir_entry = self.parent.dir.get(self.ref)
         obj = None
         if dir_entry:
@@ -350,7 +352,12 @@ class StrongRefProperty(Property):
     @value.setter
     @writeonly
     def value(self, value):
+        current = self.value
+
         if value is None:
+            if current:
+                current.detach()
+            self.object = None
             self.remove_pid_entry()
             return
 
@@ -363,15 +370,17 @@ class StrongRefProperty(Property):
         if value.root is not self.parent.root:
             raise AAFAttachError("Object is from a different root")
 
+        if value.dir and value is not current:
+            raise AAFAttachError("Object already attached")
+
         if self.ref is None:
             propdef = self.propertydef
             self.ref = mangle_name(propdef.property_name, self.pid, 32)
             self.data = self.encode(self.ref)
 
         # before assigning new object detach old
-        if self.object:
-            self.object.detach()
-            self.object = None
+        if current and current is not value:
+            current.detach()
 
         self.object = value
         if not self.pid in self.parent.property_entries:
-- 
2.43.0


From 28758ba98b9d961257c0ce14fb60af92f6112a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 13/65] fix: sets of owned objects: iterators stored nothing, a
 replaced object was only detached when cached, refused assignments emptied
 the set, removal left the objects attached

---
 src/aaf2/properties.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a2953ae..7a510d1 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -897,19 +897,26 @@ class StrongRefSetProperty(Property):
         self.references[new_key] = local_key
         self.objects[new_key] = obj
 
-    @writeonly
-    def extend(self, values):
-        typedef = self.typedef
-        classdef = typedef.ref_classdef
+    def check_values(self, values, replaced=()):
+        """raise if any of the values cannot be added to the set"""
+        classdef = self.typedef.ref_classdef
+        replaced = set(id(item) for item in replaced)
 
-        # check values are the correct type
         for item in values:
             if not classdef.isinstance(item.classdef):
                 raise TypeError("Invalid Value, expected {}, got {}".format(classdef, item.classdef))
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
-            if item.dir:
+            if item.dir and id(item) not in replaced:
                 raise AAFAttachError("Object already attached")
+            if item.unique_key is None:
+                raise AAFPropertyError("Object has no unique key")
+
+    @writeonly
+    def extend(self, values):
+        values = list(values)
+        self.check_values(values)
+        classdef = self.typedef.ref_classdef
 
         if self.key_pid is None:
             self.key_pid = classdef.unique_key_pid
@@ -923,9 +930,7 @@ class StrongRefSetProperty(Property):
 
         for item in values:
             key = item.unique_key
-            assert key is not None
-
-            current = self.objects.get(key, None)
+            current = self.get(key)
             current_local_key = self.references.get(key, None)
 
             if current and current is not item:
@@ -982,13 +987,16 @@ class StrongRefSetProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
-        self.clear()
         if isinstance(value, dict):
             value = value.values()
 
+        value = list(value)
+        self.check_values(value, list(self))
+        self.clear()
         self.extend(value)
         return
 
-- 
2.43.0


From f5d98a13b56c0233918f1e71c8268cc4c96d1302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 14/65] fix: weak references: iterators stored nothing, refused
 assignments emptied the list, reading one that is not set raised TypeError

---
 src/aaf2/properties.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 7a510d1..d5402bd 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1104,6 +1104,8 @@ class WeakRefProperty(Property):
 
     @property
     def value(self):
+        if self.ref is None:
+            return None
         return resolve_weakref(self, self.ref)
 
     @property
@@ -1246,17 +1248,23 @@ class WeakRefArrayProperty(Property):
             obj = resolve_weakref(self, key)
             yield (key, obj)
 
-    @writeonly
-    def extend(self, values):
+    def check_values(self, values):
+        """raise if any of the values cannot be referenced"""
         ref_classdef = self.ref_classdef
 
-        # check values are the correct type
         for item in values:
             if not ref_classdef.isinstance(item.classdef):
                 raise TypeError("Invalid Value")
             if item.root is not self.parent.root:
                 raise AAFAttachError("Object is from a different root")
 
+    @writeonly
+    def extend(self, values):
+        ref_classdef = self.ref_classdef
+
+        values = list(values)
+        self.check_values(values)
+
         if self.index_name is None:
             propdef = self.propertydef
             self.index_name = mangle_name(propdef.property_name, self.pid, 32-10)
@@ -1289,9 +1297,12 @@ class WeakRefArrayProperty(Property):
     @writeonly
     def value(self, value):
         if value is None:
+            self.clear()
             self.remove_pid_entry()
             return
 
+        value = list(value)
+        self.check_values(value)
         self.clear()
         self.extend(value)
 
-- 
2.43.0


From b510b54e796808e06e22c8780395d9c3d8ece29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 15/65] fix: a stream property added to an attached object was
 lost, opening a missing one for reading added it, and detached streams could
 not be detached again or examined

---
 src/aaf2/properties.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d5402bd..2706235 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -223,11 +223,13 @@ class StreamProperty(Property):
         self.stream_name = mangle_name(self.propertydef.property_name, self.pid, 32)
         self.data = self.encode(self.stream_name)
         self.add_pid_entry()
+        self.mark_modified()
 
     def open(self, mode='r'):
-        self.setup_stream()
-
         if mode == 'r':
+            if self.stream_name is None:
+                raise AAFPropertyError("cannot find stream: %s" % self.name)
+
             if self.attached:
                 stream = self.parent.dir.get(self.stream_name)
             else:
@@ -240,6 +242,8 @@ class StreamProperty(Property):
             if not self.writeable:
                 raise AAFPropertyError("file readonly")
 
+            self.setup_stream()
+
             if self.attached:
                 return self.parent.dir.touch(self.stream_name).open(mode)
             else:
@@ -252,6 +256,9 @@ class StreamProperty(Property):
                 return self.dir.open(mode)
 
     def detach(self):
+        if not self.attached:
+            return
+
         if self.stream_name is None:
             raise AAFAttachError("stream has no name")
 
@@ -284,6 +291,10 @@ class StreamProperty(Property):
 
     @property
     def value(self):
+        if self.stream_name is None:
+            return None
+        if not self.attached:
+            return self.dir
         return self.parent.dir.get(self.stream_name)
 
 
-- 
2.43.0


From 4e4f6315e53df7f97dd5e439b151f49eff47a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 16/65] fix: create_timeline_slot handed out the id of an
 existing slot when ids have gaps

---
 src/aaf2/mobs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 8eb33cd..ee261b1 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -97,6 +97,7 @@ class Mob(core.AAFObject):
             for i, e in enumerate(slots + [None], start):
                 if i != e:
                     slot_id = i
+                    break
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From 7fe1c0f49114d9ebc25a4658492ee340db05a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 17/65] fix: fixed size arrays were stored one element too
 long, and could not be empty

---
 src/aaf2/types.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index c1b1af4..91be90f 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -367,19 +367,16 @@ class TypeDefFixedArray(TypeDef):
         byte_size = element_typedef.byte_size
         element_count = self.size
         result = b""
+        count = 0
 
-        for i, item in enumerate(data):
-            if i >= element_count:
+        for item in data:
+            if count >= element_count:
                 raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
-                break
             result += element_typedef.encode(item)
+            count += 1
 
         # zero out remaining bytes
-        if i < element_count:
-            bytes_left = (element_count - i) * byte_size
-            while bytes_left:
-                result += b'\0'
-                bytes_left -= 1
+        result += b'\0' * ((element_count - count) * byte_size)
 
         return result
 
-- 
2.43.0


From 0d2ded917421b27102928c078d31648ea911f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 18/65] fix: elements added to an enumeration type that the
 file already has were not written

---
 src/aaf2/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 91be90f..f3b0a58 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -278,6 +278,8 @@ class TypeDefEnum(TypeDef):
         self.property_entries[PID_ENUM_NAMES].data = encode_utf16_array(names)
         fmt = b"<%dq" % len(values)
         self.property_entries[PID_ENUM_VALUES].data = pack(fmt, *values)
+        if self.dir:
+            self.root.manager.add_modified(self)
 
     def decode(self, data):
 
@@ -819,6 +821,8 @@ class TypeDefExtEnum(TypeDef):
 
         self.property_entries[PID_EXTENUM_NAMES].data = encode_utf16_array(element_names)
         self.property_entries[PID_EXTENUM_VALUES].data = encode_auid_array(element_values)
+        if self.dir:
+            self.root.manager.add_modified(self)
 
     @property
     def elements(self):
-- 
2.43.0


From a50fd8e158fdedf0e9d80964e7ebe514314127d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 19/65] fix: opening a missing stream of a read-only file for
 reading added the property in memory

---
 src/aaf2/properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2706235..27986f6 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -227,9 +227,11 @@ class StreamProperty(Property):
 
     def open(self, mode='r'):
         if mode == 'r':
-            if self.stream_name is None:
+            if self.stream_name is None and not self.writeable:
                 raise AAFPropertyError("cannot find stream: %s" % self.name)
 
+            self.setup_stream()
+
             if self.attached:
                 stream = self.parent.dir.get(self.stream_name)
             else:
-- 
2.43.0


From e00f314e89e20de008cb427297a989b253d75b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 20/65] fix: directory entries modified while their folder was
 not cached forgot the folder they are in

---
 src/aaf2/cfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 154aaf6..3754517 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -758,6 +758,7 @@ class DirEntry(object):
         max_dirs_entries = self.storage.dir_sector_count * dir_per_sector
 
         head = DirEntry(self.storage, None) # False tree root
+        head.parent = self # entries read from the tree belong to this folder
         head.red = True
         entry.red = True
 
@@ -872,6 +873,7 @@ class DirEntry(object):
         head = DirEntry(self.storage, None) # False tree root
         head.red = True
         head.name = "" # NOTE: any name will be less then this
+        head.parent = self.parent # entries read from the tree belong to this folder
         node = head
         node[1] = self.parent.child()
         grand_parent = None
-- 
2.43.0


From d9ff762ef022fe9b5ba8eb7bc55ed46c54479eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 21/65] fix: the path of an entry below a storage that is named
 Root Entry was wrong

---
 src/aaf2/cfb.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 3754517..9928571 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1006,8 +1006,7 @@ class DirEntry(object):
         path = []
         parent = self
         while parent:
-            name = parent.name
-            if name == "Root Entry":
+            if parent.isroot():
                 break
             path.append(parent.name)
             parent= parent.parent
-- 
2.43.0


From 62034d4de14aec094600a3333a1f974060e3265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 22/65] fix: property objects of a property that is not set
 overwrote each other, and removing a property with del left owned objects
 attached

---
 src/aaf2/core.py       | 37 ++++++++++++++++++++++++++++++++-----
 src/aaf2/properties.py |  9 ++++++++-
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 89829f9..7e0f70e 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -9,6 +9,7 @@ import sys
 from io import BytesIO
 import struct
 import array
+import weakref
 
 from .utils import (
     write_u8,
@@ -28,13 +29,14 @@ sentinel = object()
 
 
 class AAFObject(object):
-    __slots__ = ('class_id', 'root', 'dir', 'property_entries', '__weakref__' )
+    __slots__ = ('class_id', 'root', 'dir', 'property_entries', 'unset_properties', '__weakref__' )
 
     def __new__(cls, *args, **kwargs):
         self = super(AAFObject, cls).__new__(cls)
         self.root = None
         self.dir = None
         self.property_entries = {}
+        self.unset_properties = None
         return self
 
     def __init__(self, *args, **kwargs):
@@ -180,6 +182,11 @@ class AAFObject(object):
                     # converts all internal weakrefs to strongrefs
                     p.detach()
 
+            for pid, p in (item.unset_properties or {}).items():
+                if isinstance(p, (properties.StrongRefVectorProperty,
+                                  properties.StrongRefSetProperty)):
+                    p.detach()
+
             if item.dir:
                 # remove child from object manager
                 self.root.manager.pop(item.dir.path(), None)
@@ -317,7 +324,15 @@ class AAFObject(object):
                 if propertydef.auid == OPERATIONGROUP_PARAMETERS_AUID:
                     fmt = properties.SF_STRONG_OBJECT_REFERENCE_SET
 
-                p = property_formats[fmt](self, propertydef.pid, fmt)
+                # hand out the same object while somebody still uses it,
+                # otherwise they would overwrite each other once set
+                if self.unset_properties is None:
+                    self.unset_properties = weakref.WeakValueDictionary()
+
+                p = self.unset_properties.get(propertydef.pid, None)
+                if p is None:
+                    p = property_formats[fmt](self, propertydef.pid, fmt)
+                    self.unset_properties[propertydef.pid] = p
                 return p
 
         return default
@@ -342,9 +357,21 @@ class AAFObject(object):
         if result is sentinel:
             raise KeyError(key)
 
-        del self.property_entries[result.pid]
-        if self.dir:
-            self.root.manager.add_modified(self)
+        if not result.writeable:
+            raise AAFPropertyError("file readonly")
+
+        if self.dir and result.unique:
+            raise AAFPropertyError("cannot remove unique property of attached object")
+
+        if isinstance(result, (properties.StrongRefProperty,
+                               properties.StrongRefVectorProperty,
+                               properties.StrongRefSetProperty)):
+            # detaches the objects as well
+            result.value = None
+            return
+
+        result.remove_pid_entry()
+        result.mark_modified()
 
     def __contains__(self, key):
         result = self.get(key, default=sentinel, allkeys=False)
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 27986f6..85750b0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -68,7 +68,7 @@ def writeonly(func):
 
 
 class Property(object):
-    __slots__ = ('pid', 'format', 'version', 'data', 'parent', '_propertydef')
+    __slots__ = ('pid', 'format', 'version', 'data', 'parent', '_propertydef', '__weakref__')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
         self.pid = pid
         self.format = format
@@ -174,6 +174,13 @@ class Property(object):
         if self.pid in self.parent.property_entries:
             del self.parent.property_entries[self.pid]
 
+        # back to an unset property, that can be set again
+        parent = self.parent
+        self.__init__(parent, self.pid, self.format, self.version)
+        if parent.unset_properties is None:
+            parent.unset_properties = weakref.WeakValueDictionary()
+        parent.unset_properties[self.pid] = self
+
     def __repr__(self):
         name = self.name
         if name:
-- 
2.43.0


From 1e641fcf42cbf56e320593a6e8ac9d3ee4f31cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 23/65] fix: properties of a class added to a file that uses
 its dynamic pids were looked up under the old pids

---
 src/aaf2/metadict.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index f16c4ed..7f9d4c6 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -557,6 +557,14 @@ class MetaDictionary(core.AAFObject):
         self.local_pids.add(result)
         return result
 
+    def update_pids(self, classdef):
+        """call after the pids of a classdef's properties could have changed"""
+        classdef.propertydef_by_pid = {}
+        for pdef in classdef['Properties'].values():
+            if pdef.pid >= 0x8000:
+                self.local_pids.add(pdef.pid)
+            classdef.propertydef_by_pid[pdef.pid] = pdef
+
     def read_properties(self):
         super(MetaDictionary, self).read_properties()
         for key, typedef in self['TypeDefinitions'].items():
@@ -602,6 +610,7 @@ class MetaDictionary(core.AAFObject):
                                 prop.pid = new_pid
                                 typedef.property_entries[new_pid] = prop
 
+                    self.update_pids(classdef)
                     self['TypeDefinitions'].append(typedef)
                     if classdef.auid not in self['ClassDefinitions']:
                         self['ClassDefinitions'].append(classdef)
@@ -621,4 +630,5 @@ class MetaDictionary(core.AAFObject):
                             if pdef.pid in self.local_pids:
                                 pdef.pid = self.next_free_pid()
 
+                    self.update_pids(classdef)
                     self['ClassDefinitions'].append(classdef)
-- 
2.43.0


From 0002f4a23f96692c58a6e36ccdfce7bffe057cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 24/65] fix: entries whose names have characters outside the
 BMP or without a single upper case form were put in the wrong place

---
 src/aaf2/cfb.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9928571..eff8635 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -466,6 +466,17 @@ def get_entry_path(root, entry, max_depth):
     return path
 
 
+def name_order(name):
+    # shorter names are always less then, names of the same length
+    # compare not case senstive. Both are about the stored utf-16 units
+    upper = name.upper()
+    if len(upper) != len(name):
+        # only characters that have a single upper case character count
+        upper = ''.join(c.upper() if len(c.upper()) == 1 else c for c in name)
+    data = upper.encode("utf-16be")
+    return len(data), data
+
+
 class DirEntry(object):
     __slots__ = ('storage', 'dir_id', 'parent', 'data', '_name', '__weakref__')
 
@@ -676,12 +687,7 @@ class DirEntry(object):
         if isinstance(other, DirEntry):
             other = other.name
 
-        if len(self.name) == len(other):
-            # compare not case senstive
-            return self.name.upper() < other.upper()
-        else:
-            # shorter names are always less then
-            return len(self.name) < len(other)
+        return name_order(self.name) < name_order(other)
 
     def __le__(self, other):
         if self == other:
@@ -702,9 +708,7 @@ class DirEntry(object):
 
         if isinstance(other, DirEntry):
             other = other.name
-        if len(self.name) == len(other):
-            return self.name.upper() == other.upper()
-        return False
+        return name_order(self.name) == name_order(other)
 
     def __getitem__(self, index):
         return self.left() if index == 0 else self.right()
-- 
2.43.0


From 094db1ec2e340001f8a6ed3ae2d29ea6cca4a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:37 +0000
Subject: [PATCH 25/65] fix: create_timeline_slot handed out the id of an
 existing slot when ids repeat

---
 src/aaf2/mobs.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index ee261b1..91100d2 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -87,17 +87,12 @@ class Mob(core.AAFObject):
         raise IndexError("No SlotID: %s" % str(slot_id))
 
     def create_timeline_slot(self, edit_rate, slot_id=None):
-        slots = [slot.slot_id for slot in self.slots]
-        slots.sort()
+        slots = set(slot.slot_id for slot in self.slots)
         if slot_id is None:
-            start = 1
-            if slots and slots[0] == 0:
-                start = 0
-
-            for i, e in enumerate(slots + [None], start):
-                if i != e:
-                    slot_id = i
-                    break
+            # first id that is not used yet
+            slot_id = 1
+            while slot_id in slots:
+                slot_id += 1
         elif slot_id in slots:
             raise ValueError("slot id: %d already exists" % slot_id)
 
-- 
2.43.0


From e19d5cdbcfeed00272d4c81e4b4d25b4ce06b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 26/65] fix: a stream read that fails half way moved the
 position

---
 src/aaf2/cfb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index eff8635..b012c01 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -197,11 +197,12 @@ class Stream(object):
 
             mv[:bytes_can_read] = sector_data[sid_offset:sid_offset+bytes_can_read]
 
-            self.pos += bytes_can_read
             mv = mv[bytes_can_read:]
 
             bytes_to_read -= bytes_can_read
 
+        # NOTE: a read that fails half way doesn't move the position
+        self.pos += len(result)
         return result
 
     def allocate(self, byte_size):
-- 
2.43.0


From 3fe0296b2be4da55a0b813124985b3d5688c608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 27/65] fix: unbuffered files lost data when a read or write
 transferred less than asked for

---
 src/aaf2/cfb.py | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index b012c01..97a6959 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1073,11 +1073,45 @@ class DirEntry(object):
     def __repr__(self):
         return self.name
 
+class RawFile(object):
+    """
+    Unbuffered files are allowed to read or write less bytes then they are asked for.
+    This wraps one and carries on until everything is done.
+    """
+    def __init__(self, f):
+        self.f = f
+
+    def __getattr__(self, name):
+        return getattr(self.f, name)
+
+    def read(self, n):
+        data = bytearray(n)
+        size = self.readinto(data)
+        return bytes(data[:size])
+
+    def readinto(self, data):
+        mv = memoryview(data)
+        size = 0
+        while size < len(mv):
+            n = self.f.readinto(mv[size:])
+            if not n:
+                break
+            size += n
+        return size
+
+    def write(self, data):
+        mv = memoryview(data)
+        size = 0
+        while size < len(mv):
+            n = self.f.write(mv[size:])
+            if not n:
+                raise IOError("unable to write to file")
+            size += n
+        return size
+
+
 def extend_sid_table(f, table, byte_size):
-    n = byte_size // 4
-    if isinstance(f, io.RawIOBase):
-        table.fromfile(f, n)
-    elif hasattr(table, 'frombytes'):
+    if hasattr(table, 'frombytes'):
         table.frombytes(f.read(byte_size))
     else:
         # try deprecated from string
@@ -1087,6 +1121,8 @@ class CompoundFileBinary(object):
     def __init__(self, file_object, mode='rb', sector_size=4096):
 
         self.f = file_object
+        if isinstance(self.f, io.RawIOBase):
+            self.f = RawFile(self.f)
 
         self.difat = [[]]
         self.fat = array(str('I'))
-- 
2.43.0


From f6731cc5d35bceb1f4a54c07ac3264dcfe954e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:15 +0000
Subject: [PATCH 28/65] fix: opening a file that fails left the file handle
 open

---
 src/aaf2/file.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 31de58b..fb53843 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -201,6 +201,13 @@ class AAFFile(object):
         else:
             self.f = io.open(path, mode, buffering=buffering)
 
+        try:
+            self.setup(sector_size, extensions)
+        except:
+            self.f.close()
+            raise
+
+    def setup(self, sector_size, extensions):
         self.cfb = CompoundFileBinary(self.f, self.mode, sector_size=sector_size)
         self.weakref_table = []
         self.manager = AAFObjectManager(self)
-- 
2.43.0


From 2f3883217b5a20033e7f9b7b554464936f9b0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 29/65] fix: folders that share entries or contain themselves
 were walked without end

---
 src/aaf2/cfb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 97a6959..94c568d 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2022,7 +2022,8 @@ class CompoundFileBinary(object):
             result[current.name] = current
             count += 1
 
-            if count > max_dirs_entries:
+            # every entry belongs to one folder only
+            if count > max_dirs_entries or current.parent is not root:
                 raise CompoundFileBinaryError("corrupt folder structure")
 
             left = current.left()
-- 
2.43.0


From 4676946f7e62364ae5e46d0bcee1d4b7700888c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 30/65] fix: a damaged set index allocated memory for the
 number of entries it claims

---
 src/aaf2/properties.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 85750b0..28dfde0 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -811,8 +811,12 @@ class StrongRefSetProperty(Property):
                 'I', # ref_count
                 '%ds' % self.key_size))
 
+            data = f.read()
+            if len(data) != count * (8 + self.key_size):
+                raise AAFPropertyError("index stream has wrong size: %s" % index_name)
+
             index_fmt  = struct.Struct(str('<' + fmt * count))
-            index_data = index_fmt.unpack(f.read())
+            index_data = index_fmt.unpack(data)
 
             for i in range(count):
                 index = i * 3
-- 
2.43.0


From 8e801bb31f3c0a977ced4fea3f533cf85f4ce0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 31/65] fix: a cyclic DIFAT chain was followed as often as the
 header claims

---
 src/aaf2/cfb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 94c568d..45a0908 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1400,6 +1400,7 @@ class CompoundFileBinary(object):
         sectors_left = self.difat_sector_count
 
         sid = self.difat_sector_start
+        visited = set()
 
         # reading difat sectors
         while sectors_left:
@@ -1408,6 +1409,10 @@ class CompoundFileBinary(object):
             if not isinstance(sector_type, int):
                 break
 
+            if sid in visited:
+                raise CompoundFileBinaryError('cyclic DIFAT chain found starting at %d' % self.difat_sector_start)
+            visited.add(sid)
+
             self.difat_chain.append(sid)
             f.seek((sid + 1) *  self.sector_size)
             difat = []
-- 
2.43.0


From 41491127ea48ee3f95a1e15f4784944d11bc33b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 32/65] fix: reading a damaged stream allocated memory for the
 size it claims

---
 src/aaf2/cfb.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 45a0908..9a99ad2 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -142,12 +142,18 @@ class Stream(object):
         else:
             bytes_to_read = max(0, min(n, byte_size - self.tell()))
 
-        result = bytearray(bytes_to_read)
-        mv = memoryview(result)
-
         is_mini_stream = byte_size < self.storage.min_stream_max_size
         full_sector_size = self.storage.sector_size
         mini_sector_size = self.storage.mini_stream_sector_size
+
+        # don't trust the size of a damaged stream
+        chain_size = len(self.fat_chain) * (mini_sector_size if is_mini_stream else full_sector_size)
+        if bytes_to_read > 0 and self.pos + bytes_to_read > chain_size:
+            raise CompoundFileBinaryError("stream is shorter than its size: %s" % self.dir.name)
+
+        result = bytearray(bytes_to_read)
+        mv = memoryview(result)
+
         mini_stream_chain = self.storage.mini_stream_chain
         read_sector_data = self.storage.read_sector_data
         sector_data = None
-- 
2.43.0


From ae45e2b4bbb805bc7adaa54a09fc6c9164f6af36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/65] fix: a damaged DIFAT could list the same FAT sector any
 number of times

---
 src/aaf2/cfb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9a99ad2..9774961 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -1486,6 +1486,9 @@ class CompoundFileBinary(object):
 
             fat_sectors.append(sid)
 
+        if len(set(fat_sectors)) != len(fat_sectors):
+            raise CompoundFileBinaryError("DIFAT contains the same sector more than once")
+
         #  len(fat_sectors),self.fat_sector_count
         # assert len(fat_sectors) == self.fat_sector_count
         if len(fat_sectors) != self.fat_sector_count:
-- 
2.43.0


From 4d24ebcbcd55924503d9f87f0bc7e7e66fc31f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 34/65] fix: a damaged class that is its own ancestor was
 followed without end

---
 src/aaf2/metadict.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 7f9d4c6..8643ab7 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -11,6 +11,7 @@ from .model import classdefs
 from .model import typedefs as base_typedefs
 from . import properties
 from .auid import AUID
+from .exceptions import AAFPropertyError
 
 from . import core
 from .utils import (register_class, read_u16le, decode_utf16le,
@@ -268,7 +269,11 @@ class ClassDef(core.AAFObject):
 
     def relatives(self):
         root = self
+        visited = set()
         while root:
+            if id(root) in visited:
+                raise AAFPropertyError("class is its own ancestor: %s" % self.class_name)
+            visited.add(id(root))
             yield root
             root = root.parent
 
-- 
2.43.0


From ce45157049e00967c9deb7ffa737c4ef62b1f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 35/65] fix: a fixed array of a damaged type decoded as many
 elements as the type claims

---
 src/aaf2/types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index f3b0a58..a772bf8 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -356,6 +356,9 @@ class TypeDefFixedArray(TypeDef):
 
         start = 0
         byte_size = element_typedef.byte_size
+        if byte_size < 1 or byte_size * self.size > len(data):
+            raise AAFPropertyError("not enough data for fixed array: %s" % self.type_name)
+
         result = []
         for i in range(self.size):
             end = start + byte_size
-- 
2.43.0


From 0a43dafb44561e8efc9c7121a0f490aa8a9430bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 36/65] fix: a damaged index could name the same object any
 number of times

---
 src/aaf2/properties.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 28dfde0..2969d75 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -514,6 +514,8 @@ class StrongRefVectorProperty(Property):
 
             pack_fmt = str("<%dI" % count)
             self.references = list(struct.unpack(pack_fmt, f.read(4 * count)))
+            if len(set(self.references)) != count:
+                raise AAFPropertyError("index stream contains a reference more than once: %s" % index_name)
 
     @writeonly
     def write_index(self):
@@ -836,6 +838,9 @@ class StrongRefSetProperty(Property):
 
                 self.references[key] = local_key
 
+            if len(set(self.references.values())) != count:
+                raise AAFPropertyError("index stream contains a reference more than once: %s" % index_name)
+
     @writeonly
     def write_index(self):
         s = self.parent.dir.touch(self.index_name + " index").open(mode='rw')
-- 
2.43.0


From 83e517e576bf87469ecb6c8a8c867b9b614b4e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 37/65] fix: a damaged folder entry could pass for the root of
 the file

---
 src/aaf2/cfb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index 9774961..adb5f7d 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -2037,7 +2037,7 @@ class CompoundFileBinary(object):
             count += 1
 
             # every entry belongs to one folder only
-            if count > max_dirs_entries or current.parent is not root:
+            if count > max_dirs_entries or current.parent is not root or current.isroot():
                 raise CompoundFileBinaryError("corrupt folder structure")
 
             left = current.left()
-- 
2.43.0


From 6edd10c15f1a6b49ec76cd0680f93cc5a00f65e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 38/65] fix: mobs that refer to each other in a circle were
 followed without end

---
 src/aaf2/mobs.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 91100d2..646bfa9 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -149,20 +149,25 @@ class Mob(core.AAFObject):
         """
 
         visited = set()
+        expanded = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
 
-            for obj, _ in mob.walk_references(topdown=True):
-                if isinstance(obj, SourceReference):
-                    ref_mob = obj.mob
-                    if not ref_mob:
-                        continue
-                    if ref_mob.mob_id not in visited:
-                        stack.append(ref_mob)
-                        children_processed = False
+            # mobs can refer to each other in a circle
+            if mob.mob_id not in expanded:
+                expanded.add(mob.mob_id)
+
+                for obj, _ in mob.walk_references(topdown=True):
+                    if isinstance(obj, SourceReference):
+                        ref_mob = obj.mob
+                        if not ref_mob:
+                            continue
+                        if ref_mob.mob_id not in expanded:
+                            stack.append(ref_mob)
+                            children_processed = False
 
             if children_processed:
                 stack.pop(-1)
-- 
2.43.0


From b025814f357b04a34a18126c6cc7817b0727afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 39/65] fix: clips that refer to each other in a circle were
 walked without end

---
 src/aaf2/components.py | 67 ++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 09fa719..4cf57c6 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -192,43 +192,52 @@ class SourceClip(SourceReference):
         self['StartTime'].value = value
 
     def walk(self):
-        if not self.slot:
-            return
+        clip = self
+        # clips can refer to each other in a circle
+        visited = {}
 
-        segment = self.slot.segment
+        while clip is not None and id(clip) not in visited:
+            visited[id(clip)] = clip
 
-        if isinstance(segment, SourceClip):
-            yield segment
-            for item in segment.walk():
-                yield item
+            slot = clip.slot
+            if not slot:
+                return
 
-        elif isinstance(segment, Sequence):
-            try:
-                clip = segment.component_at_time(self.start)
-            except AttributeError as e:
-                print(e)
-            else:
-                if isinstance(clip, SourceClip):
-                    yield clip
-                    for item in clip.walk():
-                        yield item
+            segment = slot.segment
+            source_clip = None
+
+            if isinstance(segment, SourceClip):
+                yield segment
+                source_clip = segment
+
+            elif isinstance(segment, Sequence):
+                try:
+                    component = segment.component_at_time(clip.start)
+                except AttributeError as e:
+                    print(e)
                 else:
-                    raise NotImplementedError("Sequence returned {} not "
-                                              "implemented".format(
-                                                  type(segment)))
+                    if isinstance(component, SourceClip):
+                        yield component
+                        source_clip = component
+                    else:
+                        raise NotImplementedError("Sequence returned {} not "
+                                                  "implemented".format(
+                                                      type(segment)))
+
+            elif isinstance(segment, EssenceGroup):
+                yield segment
 
-        elif isinstance(segment, EssenceGroup):
-            yield segment
+            elif isinstance(segment, Filler):
+                yield segment
 
-        elif isinstance(segment, Filler):
-            yield segment
+            elif isinstance(segment, (OperationGroup, Pulldown)):
+                yield segment
 
-        elif isinstance(segment, (OperationGroup, Pulldown)):
-            yield segment
+            else:
+                raise NotImplementedError("Walking {} not implemented".format(
+                                          type(segment)))
 
-        else:
-            raise NotImplementedError("Walking {} not implemented".format(
-                                      type(segment)))
+            clip = source_clip
 
 
 @register_class
-- 
2.43.0


From 389ddf7d75db36669513ed1317ccd806045bbe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 40/65] fix: refuse to modify a compound file opened for
 reading

---
 src/aaf2/cfb.py | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/aaf2/cfb.py b/src/aaf2/cfb.py
index adb5f7d..3d71e35 100644
--- a/src/aaf2/cfb.py
+++ b/src/aaf2/cfb.py
@@ -89,6 +89,8 @@ class Stream(object):
         self.fat_chain = []
         if not mode in ('r', 'w', 'rw'):
             raise ValueError("invalid mode: %s" % mode)
+        if mode != 'r':
+            self.storage.check_writeable()
         if self.dir.sector_id is not None:
             self.fat_chain.extend(self.storage.get_fat_chain(self.dir.sector_id, self.is_mini_stream()))
 
@@ -212,6 +214,7 @@ class Stream(object):
         return result
 
     def allocate(self, byte_size):
+        self.storage.check_writeable()
 
         minifat = self.is_mini_stream()
         realloc_data = None
@@ -248,6 +251,7 @@ class Stream(object):
             self.pos = min(orig_pos, len(realloc_data))
 
     def write(self, data):
+        self.storage.check_writeable()
         data_size = len(data)
         current_size = self.dir.byte_size
         new_size = max(self.tell() + data_size, current_size)
@@ -315,6 +319,7 @@ class Stream(object):
         assert self.pos <= self.dir.byte_size
 
     def truncate(self, size=None):
+        self.storage.check_writeable()
         # print("trunc", self.dir.path())
         if size is None:
             size = self.pos
@@ -518,6 +523,7 @@ class DirEntry(object):
 
     @name.setter
     def name(self, value):
+        self.storage.check_writeable()
         name_data = value.encode("utf-16le")
         name_size = len(name_data)
         assert name_size <= 64
@@ -537,6 +543,7 @@ class DirEntry(object):
 
     @type.setter
     def type(self, value):
+        self.storage.check_writeable()
         t = None
         for k,v in dir_types.items():
             if v == value:
@@ -556,6 +563,7 @@ class DirEntry(object):
 
     @color.setter
     def color(self, value):
+        self.storage.check_writeable()
         if value == 'black':
             self.data[67] = 0x01
         elif value == 'red':
@@ -573,6 +581,7 @@ class DirEntry(object):
 
     @red.setter
     def red(self, value):
+        self.storage.check_writeable()
         if value:
             self.data[67] = 0x00
         else:
@@ -587,6 +596,7 @@ class DirEntry(object):
 
     @left_id.setter
     def left_id(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<I'), self.data, 68, encode_sid(value))
         self.mark_modified()
 
@@ -598,6 +608,7 @@ class DirEntry(object):
 
     @right_id.setter
     def right_id(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<I'), self.data, 72, encode_sid(value))
         self.mark_modified()
 
@@ -608,6 +619,7 @@ class DirEntry(object):
 
     @child_id.setter
     def child_id(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<I'), self.data, 76, encode_sid(value))
         self.mark_modified()
 
@@ -620,6 +632,7 @@ class DirEntry(object):
 
     @class_id.setter
     def class_id(self, value):
+        self.storage.check_writeable()
         if value is None:
             self.data[80:96] = bytearray(16)
         else:
@@ -633,6 +646,7 @@ class DirEntry(object):
 
     @flags.setter
     def flags(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<I'), self.data, 96, value)
         self.mark_modified()
 
@@ -643,6 +657,7 @@ class DirEntry(object):
 
     @create_time.setter
     def create_time(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<Q'), self.data, 100, value)
         self.mark_modified()
 
@@ -653,6 +668,7 @@ class DirEntry(object):
 
     @modify_time.setter
     def modify_time(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<Q'), self.data, 108, value)
         self.mark_modified()
 
@@ -666,6 +682,7 @@ class DirEntry(object):
 
     @sector_id.setter
     def sector_id(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<I'), self.data, 116, encode_sid(value))
         self.mark_modified()
 
@@ -676,13 +693,11 @@ class DirEntry(object):
 
     @byte_size.setter
     def byte_size(self, value):
+        self.storage.check_writeable()
         struct.pack_into(str('<Q'), self.data, 120, value)
         self.mark_modified()
 
     def mark_modified(self):
-        if self.storage.mode in ('r', 'rb'):
-            return
-
         if self.dir_id is None:
             return
 
@@ -1067,6 +1082,7 @@ class DirEntry(object):
         return self.storage.create_dir_entry(path, 'stream', None)
 
     def write(self):
+        self.storage.check_writeable()
         f = self.storage.f
         f.seek(self.storage.dir_entry_pos(self.dir_id))
         f.write(self.data)
@@ -1192,8 +1208,16 @@ class CompoundFileBinary(object):
             self.f.write(bytearray(self.sector_size - 128))
             self.write_fat()
 
+    @property
+    def writeable(self):
+        return self.mode not in ("r", "rb")
+
+    def check_writeable(self):
+        if not self.writeable:
+            raise CompoundFileBinaryError("file readonly")
+
     def close(self):
-        if self.mode in ("r", "rb"):
+        if not self.writeable:
             return
 
         # calculate mini stream size
@@ -1895,6 +1919,7 @@ class CompoundFileBinary(object):
 
 
     def create_dir_entry(self, path, dir_type='storage', class_id=None):
+        self.check_writeable()
 
         if self.exists(path):
             raise ValueError("%s already exists" % path)
@@ -1950,6 +1975,7 @@ class CompoundFileBinary(object):
         storage type entries need to be empty dirs.
         """
 
+        self.check_writeable()
         entry = self.find(path)
 
         if not entry:
@@ -1974,6 +2000,7 @@ class CompoundFileBinary(object):
         """
         Removes directory structure, similar to shutil.rmtree.
         """
+        self.check_writeable()
         for root, storage, streams in self.walk(path, topdown=False):
 
             for item in streams:
@@ -2171,6 +2198,7 @@ class CompoundFileBinary(object):
         """
         Moves ``DirEntry`` from src to dst
         """
+        self.check_writeable()
         src_entry = self.find(src)
         if src_entry is None:
             raise ValueError("src path does not exist: %s" % src)
@@ -2220,6 +2248,9 @@ class CompoundFileBinary(object):
     def open(self, path, mode='r'):
         """Open stream, returning ``Stream`` object"""
 
+        if mode != 'r':
+            self.check_writeable()
+
         entry = self.find(path)
         if entry is None:
             if mode == 'r':
-- 
2.43.0


From dd9faf9aac0bf873e0b62fd73c8adb0ed1ad5aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:15 +0000
Subject: [PATCH 41/65] fix: refuse changes to the objects of a file opened for
 reading before making them

---
 src/aaf2/core.py     | 8 ++++++++
 src/aaf2/metadict.py | 9 +++++++++
 src/aaf2/misc.py     | 3 +++
 src/aaf2/types.py    | 2 ++
 4 files changed, 22 insertions(+)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index 7e0f70e..eaa3795 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -168,7 +168,12 @@ class AAFObject(object):
                                   properties.WeakRefArrayProperty)):
                     p.write_index()
 
+    def check_writeable(self):
+        if self.dir and not self.root.writeable:
+            raise AAFPropertyError("file readonly")
+
     def detach(self, delete=False):
+        self.check_writeable()
         items = []
         for item, streams in self.walk_references(topdown=True):
             # store reference not sure if necessary
@@ -208,6 +213,9 @@ class AAFObject(object):
         if self.dir:
             raise AAFAttachError("cannot attached obj to %s already attached to %s" % (dir_entry.path(), self.dir.path()))
 
+        if not self.root.writeable:
+            raise AAFPropertyError("file readonly")
+
         self.dir = dir_entry
         self.dir.class_id = self.class_id
 
diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 8643ab7..51518be 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -236,6 +236,7 @@ class ClassDef(core.AAFObject):
                 return p
 
     def register_propertydef(self, name, property_auid, pid, typedef, optional, unique=False):
+        self.root.metadict.check_writeable()
 
         # check if PropertyDef is already defined
         property_auid = str2auid(property_auid)
@@ -356,6 +357,7 @@ class MetaDictionary(core.AAFObject):
         self.register_typedef_model(base_typedefs.__dict__)
 
     def register_typedef_model(self, typedef_model):
+        self.check_writeable()
 
         for cat, classobj in types.categories.items():
             for name, args in typedef_model.get(cat, {}).items():
@@ -389,6 +391,7 @@ class MetaDictionary(core.AAFObject):
                 self.typedefs_classes[t.auid] = t.__class__
 
     def register_extensions(self):
+        self.check_writeable()
         from .model.ext import classdefs as ext_classdefs
         from .model.ext import typedefs as ext_typedefs
 
@@ -401,6 +404,8 @@ class MetaDictionary(core.AAFObject):
         self.register_typedef_model(ext_typedefs.__dict__)
 
     def register_classdef(self, name, class_auid, parent, concrete, propertydefs=None):
+        self.check_writeable()
+
         if not isinstance(class_auid, AUID):
             class_auid = AUID(class_auid)
 
@@ -443,6 +448,8 @@ class MetaDictionary(core.AAFObject):
         return c
 
     def register_external_typedef(self, ext_typedef):
+        self.check_writeable()
+
         if not isinstance(ext_typedef, types.TypeDef):
             return None
 
@@ -492,6 +499,8 @@ class MetaDictionary(core.AAFObject):
         return typedef
 
     def register_external_classdef(self, ext_classdef):
+        self.check_writeable()
+
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
         for c in class_chain[1:]:
diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 2deec66..5e4e1d3 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -90,6 +90,7 @@ class TaggedValue(core.AAFObject):
         if value_typedef is None:
             self.value = value
             return
+        self.check_writeable()
         self['Value'].add_pid_entry()
         self['Value'].data = self['Value'].typedef.encode(value, value_typedef)
         self['Value'].mark_modified()
@@ -179,6 +180,7 @@ class ConstantValue(Parameter):
 
     @value.setter
     def value(self, value):
+        self.check_writeable()
         self['Value'].add_pid_entry()
         indirect_typedef = self['Value'].typedef
         parameter_typdef = self.typedef
@@ -225,6 +227,7 @@ class VaryingValue(Parameter):
         return self.parameterdef.typedef
 
     def add_keyframe(self, time, value, edit_hint=None):
+        self.check_writeable()
         cp = self.root.create.ControlPoint()
         cp.time = time
 
diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index a772bf8..172756e 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -261,6 +261,7 @@ class TypeDefEnum(TypeDef):
             return self.root.metadict.lookup_typedef(self.property_entries[PID_ENUM_TYPE].ref)
 
     def register_element(self, element_name, element_value):
+        self.root.metadict.check_writeable()
         names = []
         values = []
         for val, name in sorted(self.elements.items()):
@@ -807,6 +808,7 @@ class TypeDefExtEnum(TypeDef):
         return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
+        self.root.metadict.check_writeable()
 
         element_names = []
         element_values = []
-- 
2.43.0


From fc750d1496ea93e8d73ecc9c93431795e262a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 42/65] fix: copied type definitions lost their names, element
 types and target paths

---
 src/aaf2/types.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index 172756e..f7791ce 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -42,7 +42,7 @@ class TypeDef(core.AAFObject):
         return self
 
     def copy(self, root=None):
-        return self.__class__(root or self.root, self.name, self.auid)
+        return self.__class__(root or self.root, self.type_name, self.auid)
 
     @property
     def unique_key(self):
@@ -89,7 +89,7 @@ class TypeDefInt(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefInt(root or self.root, self.name, self.auid, self.size, self.signed)
+        return TypeDefInt(root or self.root, self.type_name, self.auid, self.size, self.signed)
 
     @property
     def signed(self):
@@ -147,7 +147,7 @@ class TypeDefStrongRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefStrongRef(root or self.root, self.name, self.auid, self.ref_classdef.auid)
+        return TypeDefStrongRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid)
 
     @property
     def store_format(self):
@@ -175,7 +175,7 @@ class TypeDefWeakRef(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefWeakRef(root or self.root, self.name, self.auid, self.ref_classdef.auid, self.path)
+        return TypeDefWeakRef(root or self.root, self.type_name, self.auid, self.ref_classdef.auid, self.target_set_path)
 
     @property
     def store_format(self):
@@ -240,7 +240,7 @@ class TypeDefEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefEnum(root or self.root, self.name, self.auid, self.element_typedef.auid, self.elements)
+        return TypeDefEnum(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.elements)
 
     @property
     def byte_size(self):
@@ -330,7 +330,7 @@ class TypeDefFixedArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefFixedArray(root or self.root, self.name, self.auid, self.element_typedef.auid, self.size)
+        return TypeDefFixedArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid, self.size)
 
     @property
     def element_typedef(self):
@@ -401,7 +401,7 @@ class TypeDefVarArray(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefVarArray(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefVarArray(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def store_format(self):
@@ -481,7 +481,7 @@ class TypeDefSet(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefSet(root or self.root, self.name, self.auid, self.element_typedef)
+        return TypeDefSet(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -543,7 +543,7 @@ class TypeDefString(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefString(root or self.root, self.name, self.auid, self.element_typedef.auid)
+        return TypeDefString(root or self.root, self.type_name, self.auid, self.element_typedef.auid)
 
     @property
     def element_typedef(self):
@@ -597,7 +597,7 @@ class TypeDefRecord(TypeDef):
     def copy(self, root=None):
         names = list(iter_utf16_array(self['MemberNames'].data))
         types = [typedef.auid for typedef in self['MemberTypes'].value]
-        return TypeDefRecord(root or self.root, self.name, self.auid, zip(names, types))
+        return TypeDefRecord(root or self.root, self.type_name, self.auid, zip(names, types))
 
     @property
     def member_names(self):
@@ -755,7 +755,7 @@ class TypeDefRename(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefRename(root or self.root, self.name, self.auid, self.renamed_typedef.auid)
+        return TypeDefRename(root or self.root, self.type_name, self.auid, self.renamed_typedef.auid)
 
     @property
     def renamed_typedef(self):
@@ -805,7 +805,7 @@ class TypeDefExtEnum(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefExtEnum(root or self.root, self.name, self.auid, self.elements)
+        return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
     def register_element(self, element_name, element_auid):
         self.root.metadict.check_writeable()
@@ -936,7 +936,7 @@ class TypeDefGenericCharacter(TypeDef):
         return self
 
     def copy(self, root=None):
-        return TypeDefGenericCharacter(root or self.root, self.name, self.auid, self.size)
+        return TypeDefGenericCharacter(root or self.root, self.type_name, self.auid, self.size)
 
     @property
     def size(self):
-- 
2.43.0


From 471f4538654eb93419e50cfe19c1024d7ebe396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:43 +0000
Subject: [PATCH 43/65] fix: copies to another file did not bring along every
 definition they refer to

---
 src/aaf2/core.py       |  2 +-
 src/aaf2/file.py       |  5 ++++-
 src/aaf2/properties.py | 49 ++++++++++++++++++++++++------------------
 3 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/aaf2/core.py b/src/aaf2/core.py
index eaa3795..cdf29c2 100644
--- a/src/aaf2/core.py
+++ b/src/aaf2/core.py
@@ -263,7 +263,7 @@ class AAFObject(object):
 
     def copy(self, new_dir=None, root=None, classdef_cache=None):
         new_obj = self.__class__.__new__(self.__class__)
-        classdef_cache = classdef_cache or set()
+        classdef_cache = set() if classdef_cache is None else classdef_cache
         root = root or self.root
         new_obj.root = root
 
diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index fb53843..871ba7f 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -297,7 +297,10 @@ class AAFFile(object):
             p = root.property_entries[pid]
             root = p.value
 
-        p = root.property_entries[path[-1]]
+        p = root.property_entries.get(path[-1], None)
+        if p is None:
+            # not set yet
+            p = root[root.classdef.get_propertydef_from_pid(path[-1]).property_name]
         return root, p
 
     def weakref_index(self, pid_path):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 2969d75..6a3d495 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1065,6 +1065,24 @@ def resolve_weakref(p, ref):
     else:
         return p.parent.root.resovle_weakref(p.weakref_index, p.key_pid, ref)
 
+def copy_weakref_target(p, new, ref, cache):
+    """make sure the object p refers to exists in the file of new, its copy"""
+    root = new.parent.root
+    ref_class_id = p.ref_classdef.auid
+    if ref_class_id == CLASSDEF_AUID:
+        if root.metadict.lookup_classdef(ref) is None:
+            root.metadict.register_external_classdef(resolve_weakref(p, ref))
+    elif ref_class_id == TYPEDEF_AUID:
+        if root.metadict.lookup_typedef(ref) is None:
+            root.metadict.register_external_typedef(resolve_weakref(p, ref))
+    else:
+        ref_parent, target_property = root.weakref_prop(root.weakref_index(new.pid_path))
+        # the cache has the ones being copied as well, they could refer to each other
+        if ref not in target_property and ref not in cache:
+            cache.add(ref)
+            c = resolve_weakref(p, ref).copy(root=root, classdef_cache=cache)
+            target_property.append(c)
+
 class WeakRefProperty(Property):
     __slots__ = ('weakref_index', 'key_pid', 'key_size', 'ref')
     def __init__(self, parent, pid, format, version=PROPERTY_VERSION):
@@ -1079,25 +1097,16 @@ class WeakRefProperty(Property):
 
         if parent.root is self.parent.root:
             p.weakref_index = self.weakref_index
-            p.key_pid = self.pid
+            p.key_pid = self.key_pid
             p.key_size = self.key_size
             p.ref = self.ref
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
-
-            # add property value if not present
-            if self.ref not in target_property:
-                v = self.value
-                if self.ref_classdef.auid == CLASSDEF_AUID:
-                    parent.root.metadict.register_external_classdef(v)
-                if self.ref_classdef.auid == TYPEDEF_AUID:
-                    parent.root.metadict.register_external_typedef(v)
-                else:
-                    c = v.copy(root=parent.root, classdef_cache=cache)
-                    target_property.append(c)
-
-            p.value = target_property[self.ref]
+            copy_weakref_target(self, p, self.ref, cache)
+            p.weakref_index = parent.root.weakref_index(p.pid_path)
+            p.key_pid = p.ref_classdef.unique_key_pid
+            p.key_size = p.ref_classdef.unique_key_size
+            p.ref = self.ref
+            p.data = p.encode()
 
         return p
 
@@ -1185,12 +1194,10 @@ class WeakRefArrayProperty(Property):
             p.key_pid = self.key_pid
             p.key_size = self.key_size
         else:
-            weakref_index = parent.root.weakref_index(p.pid_path)
-            ref_parent, target_property = parent.root.weakref_prop(weakref_index)
             for ref in self.references:
-                # copy property here if not present?
-                assert ref in target_property
-                p.append(target_property[ref])
+                copy_weakref_target(self, p, ref, cache)
+            p.extend([])
+            p.references = list(self.references)
 
         return p
 
-- 
2.43.0


From 9d7ee759367a04dcff94ae779218536abfb8d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 44/65] fix: copying a vector within a file mixed up indices
 and reference keys

---
 src/aaf2/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 6a3d495..71262df 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -455,13 +455,13 @@ class StrongRefVectorProperty(Property):
         if parent.root is self.parent.root:
             p.objects = {}
             p.references = list(self.references)
-            p.index_name = p.index_name
+            p.index_name = self.index_name
             p.next_free_key = self.next_free_key
             p.last_free_key = self.last_free_key
             p.data = self.data
 
             for i, value in enumerate(self):
-                ref = self.index_ref_name(self.references[i])
+                ref = self.index_ref_name(i)
                 dir_entry = None
                 if parent.dir:
                     dir_entry = parent.dir.get(ref)
-- 
2.43.0


From 7864e31bf04ca93ef5b6940b47f6682c8a8977f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 45/65] fix: a definition whose registration failed half way
 counted as registered

---
 src/aaf2/metadict.py   |  6 +++---
 src/aaf2/properties.py | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 51518be..5c73bfe 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -439,12 +439,12 @@ class MetaDictionary(core.AAFObject):
 
                 c.register_propertydef(prop_name, property_auid, pid, *prop_args[2:])
 
-        self.classdefs_by_name[name]   = c
-        self.classdefs_by_auid[c.auid] = c
-
         # Root is not include in the data model for some reason
         if c.class_name != "Root":
             properties.add2set(self, PID_CLASSDEFS, c.auid, c)
+
+        self.classdefs_by_name[name]   = c
+        self.classdefs_by_auid[c.auid] = c
         return c
 
     def register_external_typedef(self, ext_typedef):
diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index 71262df..a26afef 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -1492,19 +1492,26 @@ def add2set(self, pid, key, value):
     if current and current is not value:
         current.detach()
 
-    if current_local_key is None:
-        prop.references[key] = prop.next_free_key
-        prop.next_free_key += 1
-
-    prop.objects[key] = value
+    local_key = current_local_key
+    if local_key is None:
+        local_key = prop.next_free_key
 
+    # this can fail, only add what is attached
     if prop.parent.dir:
-        ref = prop.index_ref_name(key)
+        ref = "%s{%x}" % (prop.index_name, local_key)
         dir_entry = prop.parent.dir.get(ref)
         if dir_entry is None:
             dir_entry = prop.parent.dir.makedir(ref)
         if value.dir != dir_entry:
             value.attach(dir_entry)
+
+    if current_local_key is None:
+        prop.references[key] = local_key
+        prop.next_free_key += 1
+
+    prop.objects[key] = value
+
+    if prop.parent.dir:
         prop.mark_modified()
 
 def add_typedef_weakref_vector_property(parent, pid, property_name, values):
-- 
2.43.0


From d9a9661d9b4accc23ee46c02bb471d37aae221a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 46/65] fix: copies of empty vectors and sets were stored under
 the name they had in the other file

---
 src/aaf2/properties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index a26afef..d4e66ce 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -471,6 +471,8 @@ class StrongRefVectorProperty(Property):
                 c = value.copy(dir_entry)
                 p.objects[i] = c
         else:
+            # the name depends on the pid, set it even if there is nothing to add
+            p.extend([])
             for i, value in enumerate(self):
                 c = value.copy(root=parent.root, classdef_cache=cache)
                 p.append(c)
@@ -779,6 +781,8 @@ class StrongRefSetProperty(Property):
                         dir_entry = parent.dir.makedir(ref)
                 p.objects[key] = value.copy(dir_entry)
         else:
+            # the name depends on the pid, set it even if there is nothing to add
+            p.extend([])
             for value in self.values():
                 c = value.copy(root=parent.root, classdef_cache=cache)
                 p.append(c)
-- 
2.43.0


From c17b456f98e597b5fe3edb52c3d54a4f292ddcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:54 +0000
Subject: [PATCH 47/65] fix: definitions registered from another file missed
 nested enum elements and could refer to themselves without end

---
 src/aaf2/metadict.py | 63 ++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 5c73bfe..7b7e1f7 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -447,7 +447,7 @@ class MetaDictionary(core.AAFObject):
         self.classdefs_by_auid[c.auid] = c
         return c
 
-    def register_external_typedef(self, ext_typedef):
+    def register_external_typedef(self, ext_typedef, visited=None):
         self.check_writeable()
 
         if not isinstance(ext_typedef, types.TypeDef):
@@ -455,38 +455,38 @@ class MetaDictionary(core.AAFObject):
 
         typedef = self.lookup_typedef(ext_typedef.auid)
 
-        # create typedef if missing
-        if not typedef:
-            if isinstance(ext_typedef, (types.TypeDefStrongRef,
-                                        types.TypeDefWeakRef)):
-                # could this cause RecursionError?
-                classdef = ext_typedef.ref_classdef
-                self.register_external_classdef(classdef)
+        # definitions can refer to each other
+        visited = set() if visited is None else visited
+        if ext_typedef.auid in visited:
+            return typedef
+        visited.add(ext_typedef.auid)
 
-            elif isinstance(ext_typedef, (types.TypeDefFixedArray,
-                                          types.TypeDefVarArray,
-                                          types.TypeDefSet,
-                                          types.TypeDefString,
-                                          types.TypeDefEnum)):
+        if isinstance(ext_typedef, (types.TypeDefFixedArray,
+                                    types.TypeDefVarArray,
+                                    types.TypeDefSet,
+                                    types.TypeDefString,
+                                    types.TypeDefEnum)):
+            self.register_external_typedef(ext_typedef.element_typedef, visited)
 
-                self.register_external_typedef(ext_typedef.element_typedef)
+        elif isinstance(ext_typedef, types.TypeDefRecord):
+            for t in ext_typedef.member_types:
+                self.register_external_typedef(t, visited)
 
-            elif isinstance(ext_typedef, types.TypeDefRecord):
-                for t in ext_typedef.member_types:
-                    self.register_external_typedef(t)
-
-            elif isinstance(ext_typedef, types.TypeDefRename):
-                self.register_external_typedef(ext_typedef.renamed_typedef)
-
-            elif isinstance(ext_typedef, types.TypeDefEnum):
-                self.register_external_typedef(ext_typedef.element_typedef)
+        elif isinstance(ext_typedef, types.TypeDefRename):
+            self.register_external_typedef(ext_typedef.renamed_typedef, visited)
 
+        # create typedef if missing
+        if not typedef:
             typedef = ext_typedef.copy(self.root)
 
-            self['TypeDefinitions'].append(typedef)
+            properties.add2set(self, PID_TYPEDEFS, typedef.auid, typedef)
             self.typedefs_by_name[typedef.type_name] = typedef
             self.typedefs_by_auid[typedef.auid] = typedef
 
+            if isinstance(ext_typedef, (types.TypeDefStrongRef,
+                                        types.TypeDefWeakRef)):
+                self.register_external_classdef(ext_typedef.ref_classdef, visited)
+
         # make sure enum has all the values
         if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):
             ext_elements = ext_typedef.elements
@@ -498,21 +498,28 @@ class MetaDictionary(core.AAFObject):
 
         return typedef
 
-    def register_external_classdef(self, ext_classdef):
+    def register_external_classdef(self, ext_classdef, visited=None):
         self.check_writeable()
 
+        # definitions can refer to each other
+        visited = set() if visited is None else visited
+
         class_chain = list(ext_classdef.relatives())
         class_chain.reverse()
-        for c in class_chain[1:]:
+        for c in class_chain:
+            if c.auid in visited:
+                continue
+            visited.add(c.auid)
+
             classdef = self.lookup_classdef(c.auid)
             if not classdef:
                 classdef = self.register_classdef(c.class_name,
                                                   c.auid,
-                                                  c.parent.auid,
+                                                  c.parent.auid if c.parent else None,
                                                   c.concrete)
 
             for p in c.propertydefs:
-                typedef = self.register_external_typedef(p.typedef)
+                typedef = self.register_external_typedef(p.typedef, visited)
                 pid = p.pid
 
                 if pid >= 0x8000:
-- 
2.43.0


From 168da455abb73c627a588c088ff925b12cdcd188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 48/65] fix: Dictionary.update raised when an operation lacked
 a parameter

---
 src/aaf2/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index 2655eb5..aee151b 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -278,4 +278,4 @@ class Dictionary(core.AAFObject):
                     for p in other_def.parameters:
                         param = self.lookup_parameterdef(p.auid)
                         if param.unique_key not in opdef.parameters:
-                            opdef.append(param)
+                            opdef.parameters.append(param)
-- 
2.43.0


From 57331c0b0029927e2b9e8fba6c51e67e31ba43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 49/65] fix: a property could be registered under a pid its
 class already uses

---
 src/aaf2/metadict.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index 7b7e1f7..c14d57e 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -257,6 +257,8 @@ class ClassDef(core.AAFObject):
         if pid is None:
             pid = self.root.metadict.next_free_pid()
             # assert False
+        else:
+            self.check_pid(name, pid)
 
         p = PropertyDef(self.root, name, property_auid, pid, typedef_auid, optional, unique)
         # # this is done low level to avoid recursion errors
@@ -268,6 +270,16 @@ class ClassDef(core.AAFObject):
         self.propertydef_by_pid[pid] = p
         return p
 
+    def check_pid(self, name, pid):
+        """properties are stored by pid, the ones of an object must all differ"""
+        others = [self]
+        others.extend(self.root.metadict.classdefs_by_auid.values())
+        for other in others:
+            p = other.propertydef_by_pid.get(pid, None)
+            if p and (other.isinstance(self) or self.isinstance(other)):
+                raise ValueError("pid 0x%04X of %s is taken by %s of %s" % (
+                    pid, name, p.property_name, other.class_name))
+
     def relatives(self):
         root = self
         visited = set()
-- 
2.43.0


From 319cd3887109431dd1b29e12e0ee7ef9609c8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 50/65] fix: registering a class again used up pids or failed

---
 src/aaf2/metadict.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/metadict.py b/src/aaf2/metadict.py
index c14d57e..231bd34 100644
--- a/src/aaf2/metadict.py
+++ b/src/aaf2/metadict.py
@@ -434,7 +434,7 @@ class MetaDictionary(core.AAFObject):
         if name in self.classdefs_by_name:
             c = self.classdefs_by_name[name]
         elif class_auid in self.classdefs_by_auid:
-            c = self.classdefs_by_name[class_auid]
+            c = self.classdefs_by_auid[class_auid]
         else:
             c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
 
@@ -443,6 +443,10 @@ class MetaDictionary(core.AAFObject):
                 property_auid = prop_args[0]
                 pid = prop_args[1]
 
+                # registered before, keeps the pid it has
+                if str2auid(property_auid) in c.property_entries.get(PID_PROPERTIES, {}):
+                    continue
+
                 if pid is None:
                     pid = self.next_free_pid()
                 elif pid and pid >= 0x8000:
-- 
2.43.0


From 6fd36fe90d607daaf8306532594fc67ab7fd3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 51/65] fix: arrays, sets and records of renamed types and
 extendible enumerations could not be read

---
 src/aaf2/types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/types.py b/src/aaf2/types.py
index f7791ce..4204076 100644
--- a/src/aaf2/types.py
+++ b/src/aaf2/types.py
@@ -762,6 +762,10 @@ class TypeDefRename(TypeDef):
         if PID_RENAME_TYPE in self.property_entries:
             return self.root.metadict.lookup_typedef(self.property_entries[PID_RENAME_TYPE].ref)
 
+    @property
+    def byte_size(self):
+        return self.renamed_typedef.byte_size
+
     def decode(self, data):
         return self.renamed_typedef.decode(data)
 
@@ -807,6 +811,10 @@ class TypeDefExtEnum(TypeDef):
     def copy(self, root=None):
         return TypeDefExtEnum(root or self.root, self.type_name, self.auid, self.elements)
 
+    @property
+    def byte_size(self):
+        return 16
+
     def register_element(self, element_name, element_auid):
         self.root.metadict.check_writeable()
 
-- 
2.43.0


From 607b90d4a03a58bbb5c6b74065390c8abe05e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 52/65] fix: closing a file opened for reading failed when it
 holds a temporary folder

---
 src/aaf2/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/file.py b/src/aaf2/file.py
index 871ba7f..fae3acf 100644
--- a/src/aaf2/file.py
+++ b/src/aaf2/file.py
@@ -75,7 +75,7 @@ class AAFObjectManager(object):
         return self.root.cfb.makedirs("/tmp/" + str(uuid4()).replace('-', '/'))
 
     def remove_temp(self):
-        if self.root.cfb.exists("/tmp"):
+        if self.root.writeable and self.root.cfb.exists("/tmp"):
             self.root.cfb.rmtree("/tmp")
 
     def add_modified(self, obj):
-- 
2.43.0


From caf6ec34f52a7d3a55caf1577143267d63ea02f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 53/65] fix: looking up a definition by name failed when one is
 of a class defined in the file

---
 src/aaf2/dictionary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/dictionary.py b/src/aaf2/dictionary.py
index aee151b..70faec1 100644
--- a/src/aaf2/dictionary.py
+++ b/src/aaf2/dictionary.py
@@ -30,7 +30,8 @@ def lookup_def(dictionary, name, instance_type, key):
     name = short_name(name).lower()
 
     for key, value in dictionary[key].items():
-        value_name = value.short_name or ''
+        # the class of a definition can be one that is only defined in the file
+        value_name = short_name(value.getvalue('Name') or '')
         if name == value_name.lower():
             return value
 
-- 
2.43.0


From 2c0347eccf3befe8d33260293937cad297a68882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:34 +0000
Subject: [PATCH 54/65] fix: a class definition a copy refers to was copied
 without being registered

---
 src/aaf2/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/properties.py b/src/aaf2/properties.py
index d4e66ce..1c2defe 100644
--- a/src/aaf2/properties.py
+++ b/src/aaf2/properties.py
@@ -46,7 +46,7 @@ SF_OPAQUE_STREAM                          = 0x40
 SF_DATA_VECTOR                            = 0xD2
 SF_DATA_SET                               = 0xDA
 
-CLASSDEF_AUID          = AUID("0d010101-0101-0100-060e-2b3402060101")
+CLASSDEF_AUID          = AUID("0d010101-0201-0000-060e-2b3402060101")
 TYPEDEF_AUID           = AUID("0d010101-0203-0000-060e-2b3402060101")
 
 MOB_MOBID_AUID         = AUID("01011510-0000-0000-060e-2b3401010101")
-- 
2.43.0


From cdcacabdcfc427b80c5a55ce22b66a94d04f852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 55/65] fix: a DNxHD stream that ends inside a frame was stored
 as if the frame was complete

---
 src/aaf2/video.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/video.py b/src/aaf2/video.py
index 2e96183..3146bbb 100644
--- a/src/aaf2/video.py
+++ b/src/aaf2/video.py
@@ -237,4 +237,6 @@ def iter_dnx_stream(f):
         with BytesIO() as data:
             data.write(dnx_header)
             data.write(f.read(frame_size - 640))
+            if data.tell() != frame_size:
+                raise ValueError("Invalid DNxHD frame: incomplete")
             yield data.getvalue()
-- 
2.43.0


From 78d00570eb6d2f4081fdd41f50a409e4a95eca32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 56/65] fix: a raw video source that ends inside a frame was
 stored as if the frame was complete

---
 src/aaf2/mobs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index 646bfa9..a13c6ac 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -323,6 +323,8 @@ class SourceMob(Mob):
                 data = f.read(raw_frame_size)
                 if not data:
                     break
+                if len(data) != raw_frame_size:
+                    raise ValueError("Invalid raw video: last frame is incomplete")
                 stream.write(data)
                 if alignment_padding:
                     stream.write(alignment_padding)
-- 
2.43.0


From 212ca24e7100fb1786f3690aedd3b420d236beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 57/65] fix: a wave file shorter than its header says was
 imported with the length of the header

---
 src/aaf2/mobs.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aaf2/mobs.py b/src/aaf2/mobs.py
index a13c6ac..83ae6e3 100644
--- a/src/aaf2/mobs.py
+++ b/src/aaf2/mobs.py
@@ -429,6 +429,14 @@ class SourceMob(Mob):
                     break
                 stream.write(data)
 
+            # the file can have less than its header says
+            frame_size = channels * sample_width
+            if stream.tell() != frames * frame_size:
+                frames = stream.tell() // frame_size
+                stream.truncate(frames * frame_size)
+                descriptor.length = frames
+                slot.segment.length = length or int(rescale(frames, sample_rate, edit_rate))
+
         return slot
 
     def export_audio(self, path):
-- 
2.43.0


From ddc6e94d2a74c578d18e289f5ff88821b7b4d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 58/65] fix: an MXF file with an unknown (negative) duration or
 position could not be linked to

---
 src/aaf2/mxf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index ee57fbd..de56334 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -351,13 +351,13 @@ class MXFComponent(MXFObject):
             if tag == 0x1001:
                 self.data['Components'] = decode_strong_ref_array(f)
             elif tag == 0x1201:
-                self.data['StartTime'] = read_u64be(f)
+                self.data['StartTime'] = read_s64be(f)
             elif tag == 0x1102:
                 self.data['SourceMobSlotID'] = read_u32be(f)
             elif tag == 0x1101:
                 self.data['SourceID'] = decode_mob_id(data)
             elif tag == 0x0202:
-                self.data['Length'] = read_u64be(f)
+                self.data['Length'] = read_s64be(f)
             elif tag == 0x0201:
                 self.data['DataDef'] = decode_datadef(data)
             elif tag == 0x1503:
@@ -365,7 +365,7 @@ class MXFComponent(MXFObject):
             elif tag == 0x1502:
                 self.data['FPS'] = read_u16be(f)
             elif tag == 0x1501:
-                self.data['Start'] = read_u64be(f)
+                self.data['Start'] = read_s64be(f)
             elif tag == 0x0501:
                 self.data['Choices'] = decode_strong_ref_array(f)
             elif tag == 0x0502:
-- 
2.43.0


From 3718549143acdbf38f3a566235c75f41ad54d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 59/65] fix: linking to an MXF file with an MPEG-2 video
 descriptor always raised a NameError

---
 src/aaf2/mxf.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index de56334..e6efaef 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -687,13 +687,6 @@ class MXFMPEG2VideoDescriptor(MXFCDCIDescriptor):
         # 060e2b34.04010103.04010202.01040300
         self.data['ResolutionID'] = 4076 #XDCAM HD 50Mbit
 
-        d['Length'].value = self.data.get('Length', 0)
-
-        # optional
-        for key in ('LinkedSlotID', ):
-            if key in self.data:
-                d[key].value = self.data[key]
-
         return super(MXFMPEG2VideoDescriptor, self).link()
 
 @register_mxf_class
-- 
2.43.0


From 9dec077111524561c58327fc68b45e26807f19c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 60/65] fix: a damaged count in an MXF file was followed beyond
 the end of its data

---
 src/aaf2/mxf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index e6efaef..6a573f7 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -49,7 +49,10 @@ def decode_strong_ref_array(f):
     f.read(4)
     refs = MXFRefArray()
     for i in range(count):
-        refs.append(read_strongref(f))
+        ref = read_strongref(f)
+        if ref is None:
+            raise ValueError("strong reference array has %d references, not %d" % (i, count))
+        refs.append(ref)
     return refs
 
 
@@ -843,6 +846,8 @@ def iter_tags(f, length):
         tag = read_u16be(f)
         size = read_u16be(f)
         # print("   tag 0x%04x %d" % (tag, size))
+        if 4 + size > length:
+            raise ValueError("size of tag 0x%04x exceeds its set" % tag)
         if size:
             yield tag, f.read(size)
         length -= 4 + size
@@ -948,6 +953,8 @@ class MXFFile(object):
             return
         if item_num > 65536:
             return
+        if 8 + item_num * item_len > length:
+            return
 
         tags = {}
         for i in range(item_num):
-- 
2.43.0


From dbd17c79fd52b80bfa704efa5ec8c877ffddaefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 61/65] fix: MXF sets that are referenced more than once or in
 circles were followed again each time

---
 src/aaf2/mxf.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/aaf2/mxf.py b/src/aaf2/mxf.py
index 6a573f7..8d96a6f 100644
--- a/src/aaf2/mxf.py
+++ b/src/aaf2/mxf.py
@@ -183,15 +183,15 @@ class MXFObject(object):
     def resolve_ref(self, key):
         ref = self.data.get(key, None)
         if ref:
-            obj = self.root.resolve(ref)
+            obj = self.root.resolve_owned(ref, (self.instance_id, key, 0))
             if obj:
                 return obj
         raise Exception("unable to resolve: %s %s %s" % (key,auid_to_str_list(ref, sep=' '), str(ref)) )
 
     def iter_strong_refs(self, key):
-        for ref in self.data.get(key, []):
+        for i, ref in enumerate(self.data.get(key, [])):
             # print(ref, auid_to_str_list(ref, sep=' '))
-            yield self.root.resolve(ref)
+            yield self.root.resolve_owned(ref, (self.instance_id, key, i))
 
 
     def __repr__(self):
@@ -859,6 +859,7 @@ class MXFFile(object):
 
     def __init__(self, path):
         self.objects = {}
+        self.owners = {}
         self.local_tags = {}
         self.preface = None
         self.header_operation_pattern = None
@@ -895,6 +896,13 @@ class MXFFile(object):
         if isinstance(ref, MXFRef):
             return self.objects.get(ref)
 
+    def resolve_owned(self, ref, owner):
+        # a strong reference owns its object, so there can only be one
+        obj = self.resolve(ref)
+        if obj is not None and self.owners.setdefault(ref, owner) != owner:
+            raise ValueError("referenced more than once: %s" % str(ref))
+        return obj
+
     @property
     def content(self):
         return self.preface.resolve_ref("ContentStorage")
@@ -988,18 +996,23 @@ class MXFFile(object):
             for p, v in value.data.items():
                 print("  ",p, v)
 
-    def dump(self, obj=None, space=""):
+    def dump(self, obj=None, space="", seen=None):
         if obj is None:
             obj = self.preface
+        if seen is None:
+            seen = set()
 
         print (space, obj.__class__.__name__, obj.instance_id)
+        if obj.instance_id in seen:
+            return
+        seen.add(obj.instance_id)
 
         space += " "
         for key, value in sorted(obj.data.items()):
             if isinstance(value, MXFRef):
                 c = self.objects.get(value, None)
                 if c:
-                    self.dump(c, space)
+                    self.dump(c, space, seen)
                 else:
                     print(space, None)
 
@@ -1008,7 +1021,7 @@ class MXFFile(object):
                 for item in value:
                     c = self.objects.get(item, None)
                     if c:
-                        self.dump(c, space + " ")
+                        self.dump(c, space + " ", seen)
                     else:
                         print(space, None)
             else:
-- 
2.43.0


From dc78179bd08d9365dace9eba79d00d8ecb0c5fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 62/65] fix: linking to a WAVE or AIFF file without a format
 chunk made the AAF file impossible to save

---
 src/aaf2/ama.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aaf2/ama.py b/src/aaf2/ama.py
index 22a6e2f..497af49 100644
--- a/src/aaf2/ama.py
+++ b/src/aaf2/ama.py
@@ -176,7 +176,10 @@ class FormatInfo:
         d = f.create.WAVEDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_wave_fmt(path)
+        summary = get_wave_fmt(path)
+        if summary is None:
+            raise ValueError("not a WAVE file with a fmt chunk: %s" % path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
@@ -186,7 +189,10 @@ class FormatInfo:
         d = f.create.AIFCDescriptor()
         stream = self.first_sound_stream
         d['SampleRate'].value = stream.edit_rate
-        d['Summary'].value = get_aifc_fmt(path)
+        summary = get_aifc_fmt(path)
+        if summary is None:
+            raise ValueError("not an AIFF file with a COMM chunk: %s" % path)
+        d['Summary'].value = summary
         d['Length'].value = stream.length
         d['ContainerFormat'].value = f.dictionary.lookup_containerdef("AAF")
         d['Locator'].append(create_network_locator(f, path))
-- 
2.43.0


From 70ac114527fd6d13d46164544ef5fc0bed3acf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:14 +0000
Subject: [PATCH 63/65] fix: component_at_time returned the previous component
 at a cut

The first edit unit of a component belongs to that component and not to
the one that ends there.
---
 src/aaf2/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/components.py b/src/aaf2/components.py
index 4cf57c6..d6aa9d4 100644
--- a/src/aaf2/components.py
+++ b/src/aaf2/components.py
@@ -98,7 +98,7 @@ class Sequence(Segment):
                     return index
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index
 
             last_component = component
-- 
2.43.0


From 2dd05ea6a7e62d19c532fd655ef5563885a9bb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:14 +0000
Subject: [PATCH 64/65] fix: length of a slot with a NestedScope was always 0

---
 src/aaf2/mobslots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aaf2/mobslots.py b/src/aaf2/mobslots.py
index 4220f29..674ded8 100644
--- a/src/aaf2/mobslots.py
+++ b/src/aaf2/mobslots.py
@@ -135,7 +135,7 @@ class TimelineMobSlot(MobSlot):
         elif isinstance(segment, components.NestedScope):
             length = 0
             for slot in segment.slots:
-                max(length, slot.length)
+                length = max(length, slot.length)
             return length
         else:
             return segment.length
-- 
2.43.0


From d8ee8cb415499edfc720e9f9d7827c54a76861c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:14 +0000
Subject: [PATCH 65/65] fix: add_keyframe put a keyframe before the first one
 behind it

---
 src/aaf2/misc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aaf2/misc.py b/src/aaf2/misc.py
index 5e4e1d3..296cbfb 100644
--- a/src/aaf2/misc.py
+++ b/src/aaf2/misc.py
@@ -245,6 +245,8 @@ class VaryingValue(Parameter):
             nearest = pointlist[index]
             if float(nearest.time) == float(time):
                 pointlist[index] = cp
+            elif float(nearest.time) > float(time):
+                pointlist.insert(index, cp)
             else:
                 pointlist.insert(index+1, cp)
         else:
-- 
2.43.0

