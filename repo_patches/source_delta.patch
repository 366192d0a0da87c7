From 265cdfa7f13c53542a41cfb0fd5eb7b3c4c26477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 01/43] fix: only remap 59.94 to its pretty exp10 form, not
 5994 or 599.4

---
 src/avb/ioctx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index aa44c32..bcce309 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -142,7 +142,7 @@ class AVBIOContext(object):
             exponent -= 1
 
         # remap values pretty values to match seen files
-        if value in exp10_pretty:
+        if exponent == -2 and value in exp10_pretty:
             self.write_s32(f, exp10_pretty[value][0])
             self.write_s16(f, exp10_pretty[value][1])
         else:
-- 
2.43.0


From 11def853b279ee980b63e1f33da983f54e80deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 02/43] fix: big endian doubles are stored in big endian byte
 order

---
 src/avb/ioctx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index bcce309..23576af 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -450,11 +450,11 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_double_be(f):
-        return unpack(b"<d", f.read(8))[0]
+        return unpack(b">d", f.read(8))[0]
 
     @staticmethod
     def write_double_be(f, value):
-        f.write(pack(b"<d", value))
+        f.write(pack(b">d", value))
 
     @staticmethod
     def read_fourcc_be(f):
-- 
2.43.0


From 6682d1118d416f6e3fe0883351d56f6edee14514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 03/43] fix: reject strings whose size collides with the null
 string marker

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 23576af..6583f74 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -170,6 +170,9 @@ class AVBIOContext(object):
             data = b'\x00\x00' + data
 
         size = len(data)
+        # a size of 65535 marks a null string
+        if size >= 65535:
+            raise ValueError("string too long: %d bytes" % size)
         self.write_u16(f, size)
         f.write(data)
 
-- 
2.43.0


From e0b8f4e1d78320d304674aa3b641692e2718e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 04/43] fix: plain data descriptors end with the end of record
 marker

---
 src/avb/essence.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index d42b02a..f7bf0dd 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -1337,6 +1337,9 @@ class DataDescriptor(MediaFileDescriptor):
         self.min_sample_size = ctx.read_s32(f)
         self.max_sample_size = ctx.read_s32(f)
 
+        if self.class_id == b'DATD':
+            ctx.read_assert_tag(f, 0x03)
+
     def write(self, f):
         super(DataDescriptor, self).write(f)
         ctx = self.root.octx
@@ -1349,6 +1352,9 @@ class DataDescriptor(MediaFileDescriptor):
         ctx.write_s32(f, self.min_sample_size)
         ctx.write_s32(f, self.max_sample_size)
 
+        if self.class_id == b'DATD':
+            ctx.write_u8(f, 0x03)
+
 @utils.register_class
 class ANCDataDescriptor(DataDescriptor):
     class_id = b'ANCD'
-- 
2.43.0


From 001a630e778bdcbd68f19fcc332e1fb64d111a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 05/43] fix: sub_frame_alignment is unsigned when written as
 well as when read

---
 src/avb/essence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/essence.py b/src/avb/essence.py
index f7bf0dd..7d2679b 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -506,7 +506,7 @@ class MPGADescriptor(MediaFileDescriptor):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 77)
-            ctx.write_s64(f, self.sub_frame_alignment)
+            ctx.write_u64(f, self.sub_frame_alignment)
 
         if hasattr(self, 'origin'):
             ctx.write_u8(f, 0x01)
-- 
2.43.0


From 705fbd0b0e28a2dc32ad41f1a3c9172385c6cfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 06/43] fix: any mob id can be stored in an audio suite plugin
 effect

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 8a8b8d9..32b63af 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -572,9 +572,9 @@ class AudioSuitePluginEffect(TrackEffect):
             mob_lo = self.mob_id.material.time_low
             mob_hi = self.mob_id.material.time_mid + (self.mob_id.material.time_hi_version << 16)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_lo)
+            ctx.write_u32(f, mob_lo)
             ctx.write_u8(f, 71)
-            ctx.write_s32(f, mob_hi)
+            ctx.write_u32(f, mob_hi)
 
         # NOTE: out of order to match seen files
         if hasattr(self, 'mob_id'):
-- 
2.43.0


From 5ff23efe0bf3edc9c630035aa77e9f88116e4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 07/43] fix: bin references without a utf-8 name can be written

---
 src/avb/misc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/avb/misc.py b/src/avb/misc.py
index 3c35072..6723677 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -821,10 +821,11 @@ class BinRef(core.AVBObject):
         ctx.write_s32(f, self.uid_low)
         ctx.write_string(f, self.name)
 
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 0x01)
-        ctx.write_u8(f, 76)
-        ctx.write_string(f, self.name_utf8, 'utf-8')
+        if hasattr(self, 'name_utf8'):
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 0x01)
+            ctx.write_u8(f, 76)
+            ctx.write_string(f, self.name_utf8, 'utf-8')
 
         ctx.write_u8(f, 0x03)
 
-- 
2.43.0


From 1421260b9f7df89397ca900dee2e26f5abfbbd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 08/43] fix: clear, sort and reverse of object lists did
 nothing

---
 src/avb/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index a2f3fe6..5bbf60a 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -99,15 +99,16 @@ class AVBRefList(list):
         return result
 
     def clear(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).__delitem__(slice(None))
         self.mark_modified()
 
     def sort(self, key=None, reverse=False):
-        super(AVBRefList, self)
+        items = sorted(self, key=key, reverse=reverse)
+        super(AVBRefList, self).__setitem__(slice(None), items)
         self.mark_modified()
 
     def reverse(self):
-        super(AVBRefList, self)
+        super(AVBRefList, self).reverse()
         self.mark_modified()
 
     def deref(self, value):
-- 
2.43.0


From ef93d1bbe43d47d17b5a63be5047592ce8166ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 09/43] fix: slices and searches of object lists returned or
 compared unresolved references

---
 src/avb/core.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 5bbf60a..cda7af8 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -90,7 +90,7 @@ class AVBRefList(list):
         self.mark_modified()
 
     def remove(self, x):
-        super(AVBRefList, self).remove(x)
+        super(AVBRefList, self).__delitem__(self.index(x))
         self.mark_modified()
 
     def pop(self, i=-1):
@@ -120,7 +120,10 @@ class AVBRefList(list):
         return value
 
     def __getitem__(self, index):
-        return self.deref(super(AVBRefList, self).__getitem__(index))
+        value = super(AVBRefList, self).__getitem__(index)
+        if isinstance(index, slice):
+            return [self.deref(item) for item in value]
+        return self.deref(value)
 
     def __setitem__(self, index, value):
         super(AVBRefList, self).__setitem__(index, value)
@@ -134,6 +137,19 @@ class AVBRefList(list):
         for value in super(AVBRefList, self).__iter__():
             yield self.deref(value)
 
+    def __reversed__(self):
+        for value in super(AVBRefList, self).__reversed__():
+            yield self.deref(value)
+
+    def __contains__(self, x):
+        return x in list(self)
+
+    def index(self, x, *args):
+        return list(self).index(x, *args)
+
+    def count(self, x):
+        return list(self).count(x)
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From 171ccba4a36870f0934967bc439d2b785a5fcb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 10/43] fix: in-place concatenation of object lists was not
 recorded as an edit

---
 src/avb/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index cda7af8..49e945e 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -81,6 +81,10 @@ class AVBRefList(list):
         super(AVBRefList, self).extend(x)
         self.mark_modified()
 
+    def __iadd__(self, x):
+        self.extend(x)
+        return self
+
     def append(self, x):
         super(AVBRefList, self).append(x)
         self.mark_modified()
-- 
2.43.0


From fabb194b25a81987499352cd2d0470952396235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:18 +0000
Subject: [PATCH 11/43] fix: values, pop and popitem of attributes returned
 unresolved references

---
 src/avb/attributes.py | 7 ++++++-
 src/avb/core.py       | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 90af5be..721743f 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -46,10 +46,15 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
 
     def pop(self, *args, **kwargs):
-        result = super(Attributes, self).pop(*args, **kwargs)
+        result = self.deref(super(Attributes, self).pop(*args, **kwargs))
         self.mark_modified()
         return result
 
+    def popitem(self, *args, **kwargs):
+        key, value = super(Attributes, self).popitem(*args, **kwargs)
+        self.mark_modified()
+        return key, self.deref(value)
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index 49e945e..c69f76c 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -46,6 +46,10 @@ class AVBPropertyData(OrderedDict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for value in super(AVBPropertyData, self).values():
+            yield self.deref(value)
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-- 
2.43.0


From effc3bb87d2911605432e0d8c96c2be4e9af7997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:12 +0000
Subject: [PATCH 12/43] fix: the component found for the first frame of a clip
 was the one before it

---
 src/avb/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index a393c1b..83e4fea 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -211,7 +211,7 @@ class Sequence(Component):
                     return index, position
 
             # gone past return previous
-            if last_component and position >= edit_unit:
+            if last_component and position > edit_unit:
                 return last_index, last_pos
 
             last_component = component
-- 
2.43.0


From 362450e95207b6cf4eae1675aa0d17a7001139ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:12 +0000
Subject: [PATCH 13/43] fix: curves with two control points at one time could
 not be evaluated there

---
 src/avb/components.py    | 4 ++++
 src/avb/interpolation.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index 83e4fea..b0b482a 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -721,6 +721,10 @@ class ParamClip(Clip):
 
         p2 = self.control_points[index+1]
 
+        # points at the same time, there is nothing to interpolate
+        if p2.time <= p1.time:
+            return float(p1.value)
+
         if self.interp == 'LinearInterp':
             t_len = float(p2.time) - float(p1.time)
             t_diff = t - float(p1.time)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 26b93d7..49567a8 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -152,7 +152,7 @@ def bezier_interpolate(p0, p1, p2, p3, x):
     # degenerate cases 1
     # p0 is after p3
     if p0[0] >= p3[0]:
-        return p[1]
+        return p0[1]
 
     # degenerate cases 2
     # p1 after p3 or before p0
-- 
2.43.0


From 8cf6657f57f75a2a0a9aa3f79cbce6327dfa02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:12 +0000
Subject: [PATCH 14/43] fix: integrating a single frame or a range before the
 first control point failed

---
 src/avb/components.py    | 2 +-
 src/avb/interpolation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/components.py b/src/avb/components.py
index b0b482a..e5e35b0 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -805,7 +805,7 @@ class ParamClip(Clip):
         offset_index = None
 
         inter_start = min(start, center)
-        inter_end = max(center,  end+1)
+        inter_end = max(center, end) + 1
 
         for i, (t,v) in enumerate(integrate_iter(self.value_at, inter_start, inter_end)):
             time.append(t)
diff --git a/src/avb/interpolation.py b/src/avb/interpolation.py
index 49567a8..da53963 100644
--- a/src/avb/interpolation.py
+++ b/src/avb/interpolation.py
@@ -297,6 +297,6 @@ def integrate_iter(value_at_func, start, end):
         pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
         yield t, pos
 
-    t += 0.5
+    t = float(end-1)
     pos += mc_trapezoidal_integrate(value_at_func, t-0.5, t)
     yield t, pos
\ No newline at end of file
-- 
2.43.0


From fbd1eb4ff07a0801a430e730a3cc33321937badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 15/43] fix: audio suite plugins could not be created or copied

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 32b63af..acfa621 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -414,8 +414,8 @@ class ASPIPlugin(core.AVBObject):
     ]
     __slots__ = ()
 
-    def __init__(self, root):
-        super(ASPIPlugin, self).__init__(root)
+    def __init__(self):
+        super(ASPIPlugin, self).__init__()
         self.chunks = []
 
 @utils.register_helper_class
-- 
2.43.0


From 9253ac0bf7752b9ecfa6332814929e999673b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 16/43] fix: copies shared data with the original and failed on
 empty references

---
 src/avb/attributes.py |  2 ++
 src/avb/core.py       | 40 ++++++++++++++++++++++------------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 721743f..2318e56 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -66,6 +66,8 @@ class Attributes(AVBPropertyData):
                 obj[key] = value[:]
             elif isinstance(value, bytes):
                 raise ValueError("%s: bytes value type too ambiguous, use bytearray or unicode str" % key)
+            elif value is None:
+                obj[key] = value
             else:
                 obj[key] = value.copy(root)
         return obj
diff --git a/src/avb/core.py b/src/avb/core.py
index c69f76c..6586852 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -8,6 +8,7 @@ from __future__ import (
 import sys
 from collections import OrderedDict
 from . import utils
+from . import mobid
 
 sentinel = object()
 
@@ -78,7 +79,7 @@ class AVBRefList(list):
     def copy(self, root, parent=None):
         obj = root.create.from_name(self.__class__.__name__)
         for item in self:
-            obj.append(item.copy(root))
+            obj.append(copy_value(item, root))
         return obj
 
     def extend(self, x):
@@ -188,6 +189,20 @@ def walk_references(obj):
         yield obj
 
 
+def copy_value(value, root):
+    if isinstance(value, (AVBObject, AVBRefList, AVBPropertyData)):
+        return value.copy(root)
+    elif isinstance(value, list):
+        return [copy_value(item, root) for item in value]
+    elif isinstance(value, dict):
+        return dict((key, copy_value(item, root)) for key, item in value.items())
+    elif isinstance(value, bytearray):
+        return bytearray(value)
+    elif isinstance(value, mobid.MobID):
+        return mobid.MobID(bytes_le=value.bytes_le)
+    return value
+
+
 class AVBObject(object):
     propertydefs = []
     propertydefs_dict = None
@@ -245,24 +260,13 @@ class AVBObject(object):
 
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
+
+        # only the properties of the original, no defaults
+        obj.property_data.clear()
         for key, value in self.property_data.items():
-            if isinstance(value, AVBObject):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, AVBRefList):
-                obj.property_data[key] = value.copy(root)
-                if value.parent:
-                    obj.property_data[key].parent = obj
-            elif isinstance(value, AVBPropertyData):
-                obj.property_data[key] = value.copy(root)
-            elif isinstance(value, list):
-                obj.property_data[key] = []
-                for item in value:
-                    if isinstance(item, AVBObject):
-                        obj.property_data[key].append(item.copy(root))
-                    else:
-                        obj.property_data[key].append(item)
-            else:
-                obj.property_data[key] = value
+            obj.property_data[key] = copy_value(value, root)
+            if isinstance(value, AVBRefList) and value.parent:
+                obj.property_data[key].parent = obj
 
         return obj
 
-- 
2.43.0


From 78edc1bc00cc56fba0cefd29b8fb1864c4a1a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 17/43] fix: new objects shared their mutable default values

---
 src/avb/bin.py  | 2 +-
 src/avb/core.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index 5de8841..fb6567c 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -87,7 +87,7 @@ class BinViewSetting(Setting):
         self.attributes = self.root.create.Attributes()
         self.format_descriptors = []
         self.columns = []
-        self.columns.extend(default_bin_columns)
+        self.columns.extend(dict(d) for d in default_bin_columns)
 
     def read(self, f):
         super(BinViewSetting, self).read(f)
diff --git a/src/avb/core.py b/src/avb/core.py
index 6586852..ad8359d 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -219,7 +219,7 @@ class AVBObject(object):
         for pdef in self.propertydefs:
             if pdef.default is sentinel:
                 continue
-            self.__setattr__(pdef.name, pdef.default)
+            self.__setattr__(pdef.name, copy_value(pdef.default, self.root))
 
     def mark_modified(self):
         if not self.root.reading and hasattr(self, 'instance_id'):
-- 
2.43.0


From c1bbb0683d02781ea0bf25f0e588dc5d92a0f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 18/43] fix: a factory function created the kind that was asked
 for last

---
 src/avb/file.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 8030786..dca0074 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -58,11 +58,11 @@ class AVBFactory(object):
 
     def __init__(self, root):
         self.root = root
-        self.class_name = None
 
     def __getattr__(self, name):
-        self.class_name = name
-        return self.create_instance
+        def create_instance(*args, **kwargs):
+            return self.from_name(name, *args, **kwargs)
+        return create_instance
 
     def from_name(self, name, *args, **kwargs):
 
@@ -84,9 +84,6 @@ class AVBFactory(object):
 
         return obj
 
-    def create_instance(self, *args, **kwargs):
-        return self.from_name(self.class_name, *args, **kwargs)
-
 LE_BYTE_ORDER = b'\x06\x00'
 BE_BYTE_ORDER = b'\x00\x06'
 MAGIC=b'Domain'
-- 
2.43.0


From 4643452d4579ea3fe6bcfc76a331ee6a4b1deb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:06 +0000
Subject: [PATCH 19/43] fix: the name of a new mob was ignored and unknown mob
 types were accepted

---
 src/avb/trackgroups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index acfa621..7c8b39c 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -1038,7 +1038,7 @@ class Composition(TrackGroup):
     def __init__(self, name='Mob', mob_type="MasterMob"):
         super(Composition, self).__init__()
 
-        self.name = mob_type
+        self.name = name
         if mob_type == "CompositionMob":
             self.mob_type_id = 1
 
@@ -1048,7 +1048,7 @@ class Composition(TrackGroup):
         elif mob_type == "SourceMob":
             self.mob_type_id = 3
         else:
-            ValueError("Unknown mob type: %d" % mob_type)
+            raise ValueError("Unknown mob type: %s" % mob_type)
 
         self.mob_id = mobid.MobID.new()
         now = datetime.datetime.now()
-- 
2.43.0


From 00b4c114c890a942210256a986ded374c0012323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:12 +0000
Subject: [PATCH 20/43] fix: the name of a new mob could not be passed by
 keyword

---
 src/avb/file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index dca0074..67866a4 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -64,11 +64,11 @@ class AVBFactory(object):
             return self.from_name(name, *args, **kwargs)
         return create_instance
 
-    def from_name(self, name, *args, **kwargs):
+    def from_name(self, class_name, *args, **kwargs):
 
-        classobj = utils.AVBClassName_dict.get(name, None)
+        classobj = utils.AVBClassName_dict.get(class_name, None)
         if not classobj:
-            raise ValueError("could not find class for: " + name)
+            raise ValueError("could not find class for: " + class_name)
 
         # obj = classobj(None, *args, **kwargs)
         obj = classobj.__new__(classobj)
-- 
2.43.0


From dcf66db66f8f32224dfbd9421274e8d0ec4e8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:55 +0000
Subject: [PATCH 21/43] fix: the dependency search of mobs that refer to each
 other did not end and failed at the end for effects

---
 src/avb/trackgroups.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index 7c8b39c..d464342 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -231,25 +231,29 @@ class TrackGroup(Component):
         """
 
         visited = set()
+        entered = set()
         stack = [self]
 
         while stack:
             mob = stack[-1]
             children_processed = True
+            mob_id = getattr(mob, 'mob_id', None)
+            entered.add(mob_id)
 
             for obj in walk_references(mob):
                 if isinstance(obj, SourceClip):
                     ref_mob = obj.mob
                     if not ref_mob:
                         continue
-                    if ref_mob.mob_id not in visited:
+                    # mobs that are entered but not visited depend on this one
+                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in entered:
                         stack.append(ref_mob)
                         children_processed = False
 
             if children_processed:
                 stack.pop(-1)
-                if mob.mob_id not in visited:
-                    visited.add(mob.mob_id)
+                if mob_id not in visited:
+                    visited.add(mob_id)
                     if mob is not self:
                         yield mob
 
-- 
2.43.0


From 58d1c3ef7c7016c1e46bca3d998d1b56af1d45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:11 +0000
Subject: [PATCH 22/43] fix: mobs without id and tracks without number or
 component broke the lookup of others

---
 src/avb/bin.py        | 3 ++-
 src/avb/components.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index fb6567c..f72a1a3 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -374,7 +374,8 @@ class Bin(core.AVBObject):
         # build mob_id dictionary
         if not self._mob_dict:
             for mob in self.mobs:
-                self._mob_dict[mob.mob_id] = mob
+                if hasattr(mob, 'mob_id'):
+                    self._mob_dict[mob.mob_id] = mob
 
         return self._mob_dict.get(mob_id, None)
 
diff --git a/src/avb/components.py b/src/avb/components.py
index e5e35b0..a14c71b 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -323,7 +323,10 @@ class SourceClip(Clip):
         mob = self.mob
         if mob:
             for track in mob.tracks:
-                if track.index == self.track_id and track.component and self.media_kind == track.component.media_kind:
+                component = getattr(track, 'component', None)
+                if not component or not hasattr(track, 'index'):
+                    continue
+                if track.index == self.track_id and self.media_kind == component.media_kind:
                     return track
 
 @utils.register_class
-- 
2.43.0


From 6453f6373502e588e858a05c0a132c4bfddb5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:28 +0000
Subject: [PATCH 23/43] fix: reject negative counts and sizes when reading

---
 src/avb/attributes.py  | 2 ++
 src/avb/bin.py         | 1 +
 src/avb/components.py  | 1 +
 src/avb/essence.py     | 3 +++
 src/avb/misc.py        | 5 +++++
 src/avb/trackgroups.py | 1 +
 6 files changed, 13 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 2318e56..073e88a 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -146,6 +146,7 @@ class ParameterList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
@@ -174,6 +175,7 @@ class TimeCrumbList(AVBRefList):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
             self.append(ref)
diff --git a/src/avb/bin.py b/src/avb/bin.py
index f72a1a3..c1183da 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -283,6 +283,7 @@ class Bin(core.AVBObject):
             self.sifted_settings.append(s)
 
         sort_column_count = ctx.read_s16(f)
+        assert sort_column_count >= 0
         self.sort_columns = []
         for i in range(sort_column_count):
             direction = ctx.read_u8(f)
diff --git a/src/avb/components.py b/src/avb/components.py
index a14c71b..26beaa2 100644
--- a/src/avb/components.py
+++ b/src/avb/components.py
@@ -873,6 +873,7 @@ class ControlClip(Clip):
 
         self.interp_kind = ctx.read_s32(f)
         count = ctx.read_s32(f)
+        assert count >= 0
         self.control_points = []
         # print(self.interp_kind, count)
         #
diff --git a/src/avb/essence.py b/src/avb/essence.py
index 7d2679b..3259fcd 100644
--- a/src/avb/essence.py
+++ b/src/avb/essence.py
@@ -52,6 +52,7 @@ class MediaDescriptor(core.AVBObject):
                 # this is utf-16 string data
                 ctx.read_assert_tag(f, 65)
                 size = ctx.read_s32(f)
+                assert size >= 0
                 self.wchar = bytearray(f.read(size))
             elif tag == 0x03:
                 ctx.read_assert_tag(f, 72)
@@ -217,6 +218,7 @@ class MultiDescriptor(MediaFileDescriptor):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.descriptors = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -590,6 +592,7 @@ class DIDDescriptor(MediaFileDescriptor):
         self.aspect_ratio = [numerator, denominator]
 
         line_map_byte_size = ctx.read_s32(f)
+        assert line_map_byte_size >= 0
         self.line_map = []
         if line_map_byte_size:
             for i in range(line_map_byte_size // 4):
diff --git a/src/avb/misc.py b/src/avb/misc.py
index 6723677..7e573e4 100644
--- a/src/avb/misc.py
+++ b/src/avb/misc.py
@@ -259,6 +259,7 @@ class EffectParamList(core.AVBObject):
         self.window_offset = ctx.read_s32(f)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.keyframe_size = ctx.read_s32(f)
         self.parameters = []
 
@@ -751,6 +752,7 @@ class MPGPosition(DIDPosition):
 
         # NOTE: I think leading_discard_fields == 2 * leader_length
         leader_length = ctx.read_s16(f)
+        assert leader_length >= 0
         if leader_length > 0:
             leading_discard_fields = ctx.read_s16(f)
             for i in range(leader_length):
@@ -992,6 +994,7 @@ class TrackerDataSlot(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         count = ctx.read_s32(f)
+        assert count >= 0
         self.tracker_data = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
@@ -1092,10 +1095,12 @@ class TrackerData(core.AVBObject):
         ctx.read_assert_tag(f, 0x01)
 
         setting_size = ctx.read_s16(f)
+        assert setting_size >= 0
         self.settings = bytearray(f.read(setting_size))
         self.clip_version = ctx.read_u32(f)
 
         count = ctx.read_s16(f)
+        assert count >= 0
         self.clips = AVBRefList.__new__(AVBRefList, root=self.root, parent=self)
         for i in range(count):
             ref = ctx.read_object_ref(self.root, f)
diff --git a/src/avb/trackgroups.py b/src/avb/trackgroups.py
index d464342..544fa98 100644
--- a/src/avb/trackgroups.py
+++ b/src/avb/trackgroups.py
@@ -112,6 +112,7 @@ class TrackGroup(Component):
         self.num_scalars = ctx.read_s32(f)
 
         track_count = ctx.read_s32(f)
+        assert track_count >= 0
         self.tracks = []
         # print("tracks:", track_count)
         # really annoying, tracks can have variable lengths!!
-- 
2.43.0


From 124539a5e97ea164ed0d3bd72a1a0ab76ba97bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:50 +0000
Subject: [PATCH 24/43] fix: reject four-character codes cut short

---
 src/avb/ioctx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 6583f74..fe68228 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -390,7 +390,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_fourcc_le(f):
-        return f.read(4)[::-1]
+        data = f.read(4)
+        assert len(data) == 4
+        return data[::-1]
 
     @staticmethod
     def write_fourcc_le(f, value):
@@ -461,7 +463,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def read_fourcc_be(f):
-        return f.read(4)
+        data = f.read(4)
+        assert len(data) == 4
+        return data
 
     @staticmethod
     def write_fourcc_be(f, value):
-- 
2.43.0


From 79bbb6fb33c2418c42c81f7012c9ca55a0351df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:46 +0000
Subject: [PATCH 25/43] fix: accelerator accepted records cut short, with data
 after their end or with a wrong end mark

---
 src/avb/_ext.pyx      | 37 +++++++++++-----------
 src/avb/_ext_core.cpp | 71 ++++++++++++++++++++++++++++---------------
 2 files changed, 65 insertions(+), 43 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 76e3e38..a6c41ff 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -138,6 +138,7 @@ cdef extern from "_ext_core.cpp" nogil:
         vector[IntArrayData] arrays
         vector[BytesData] bytearrays
 
+    cdef bint read_failed(Buffer *f, int ret)
     cdef int read_attributes(Buffer *f, vector[AttrData] &d) except+
     cdef int read_comp(Buffer *f, Properties *p) except+
     cdef int read_sequence(Buffer *f, Properties *p) except+
@@ -149,8 +150,8 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef int read_trackeffect(Buffer *f, Properties *p) except+
     cdef int read_selector(Buffer *f, Properties *p) except+
     cdef int read_composition(Buffer *f, Properties *p) except+
-    cdef int read_media_descriptor(Buffer *f, Properties *p) except+
-    cdef int read_did_descriptor(Buffer *f, Properties *p) except+
+    cdef int read_media_descriptor_record(Buffer *f, Properties *p) except+
+    cdef int read_did_descriptor_record(Buffer *f, Properties *p) except+
     cdef int read_cdci_descriptor(Buffer *f, Properties *p) except+
     cdef int read_effectparamlist(Buffer *f, Properties *p) except+
 
@@ -407,7 +408,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_attributes(&buf, d)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading Attributes: %s" % buf.error_message.decode("utf-8"))
 
     for item in d:
@@ -465,7 +466,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_sequence(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -484,7 +485,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_sourceclip(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -505,7 +506,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(6)
         ret = read_paramclip(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -525,7 +526,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_paramitem(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -545,7 +546,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_trackref(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -564,7 +565,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_filler(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -583,7 +584,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     with nogil:
         ret = read_selector(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -605,7 +606,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         p.strings.reserve(2)
         ret = read_composition(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -623,9 +624,9 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_media_descriptor(&buf, &p)
+        ret = read_media_descriptor_record(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -643,9 +644,9 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
     cdef Properties p
     cdef int ret
     with nogil:
-        ret = read_did_descriptor(&buf, &p)
+        ret = read_did_descriptor_record(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -666,7 +667,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
     with nogil:
         ret = read_cdci_descriptor(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
@@ -688,7 +689,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
         p.ints.reserve(12)
         ret = read_trackeffect(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
@@ -708,7 +709,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     with nogil:
         ret = read_effectparamlist(&buf, &p)
 
-    if ret < 0:
+    if read_failed(&buf, ret):
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
 
     cdef dict result = process_poperties(root, &p)
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index d6c4fe5..b9b5d5f 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -169,9 +169,18 @@ static inline uint8_t read_u8(Buffer *f)
 {
     if (f->ptr <= f->end)
         return *f->ptr++;
+    f->error_message = "unexpected end of record";
     return 0;
 }
 
+// a record is only valid if it was read up to its last byte and no further
+static inline bool read_failed(Buffer *f, int ret)
+{
+    if (ret >= 0 && f->error_message[0] == 0 && f->ptr <= f->end)
+        f->error_message = "unread data at the end of record";
+    return ret < 0 || f->error_message[0] != 0;
+}
+
 #define S1(x) #x
 #define S2(x) S1(x)
 #define ASSERT_MESSAGE "Assert error: " __FILE__ " : " S2(__LINE__)
@@ -261,12 +270,11 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 }
 
 static inline bool iter_ext(Buffer *f) {
-     uint8_t tag = read_u8(f);
-     if (tag == 0x01)
-        return true;
+     if (f->ptr > f->end || *f->ptr != 0x01)
+        return false;
 
-     f->ptr--;
-     return false;
+     f->ptr++;
+     return true;
 }
 
 
@@ -458,7 +466,7 @@ static int read_comp(Buffer *f, Properties *p)
 
 static int read_sequence(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -477,7 +485,7 @@ static int read_sequence(Buffer *f, Properties *p)
 }
 static int read_clip(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
     add_uint(p, "length", read_u32le(f)); // should this be a int?
@@ -487,7 +495,7 @@ static int read_clip(Buffer *f, Properties *p)
 
 static int read_filler(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -497,7 +505,7 @@ static int read_filler(Buffer *f, Properties *p)
 
 static int read_sourceclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x03);
 
@@ -513,7 +521,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\n", tag);
@@ -529,7 +537,7 @@ static int read_sourceclip(Buffer *f, Properties *p)
 
 static int read_paramclip(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -658,7 +666,7 @@ static int read_paramitem(Buffer *f, Properties *p)
 
 static int read_trackref(Buffer *f, Properties *p)
 {
-    read_clip(f, p);
+    check(read_clip(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -671,7 +679,7 @@ static int read_trackref(Buffer *f, Properties *p)
 
 static int read_trackgroup(Buffer *f, Properties *p)
 {
-    read_comp(f, p);
+    check(read_comp(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x08);
 
@@ -751,7 +759,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
 
 static int read_trackeffect(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x06);
 
@@ -784,12 +792,14 @@ static int read_trackeffect(Buffer *f, Properties *p)
         }
     }
 
+    read_assert_tag(f, 0x03);
+
     return 0;
 }
 
 static int read_selector(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x01);
 
@@ -803,7 +813,7 @@ static int read_selector(Buffer *f, Properties *p)
 
 static int read_composition(Buffer *f, Properties *p)
 {
-    read_trackgroup(f, p);
+    check(read_trackgroup(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -825,7 +835,7 @@ static int read_composition(Buffer *f, Properties *p)
                 add_date(p, "creation_time", read_u32le(f));
                 break;
             case 0x02:
-                read_mob_id(p, f, "mob_id");
+                check(read_mob_id(p, f, "mob_id"));
                 break;
             default:
                 fprintf(stderr, "unknown ext tag: %d\b",tag);
@@ -878,6 +888,14 @@ static int read_media_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_media_descriptor_record(Buffer *f,  Properties *p)
+{
+    check(read_media_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_media_file_descriptor(Buffer *f,  Properties *p)
 {
     check(read_media_descriptor(f, p));
@@ -894,7 +912,7 @@ static int read_media_file_descriptor(Buffer *f,  Properties *p)
 
 static int read_did_descriptor(Buffer *f,  Properties *p)
 {
-    read_media_file_descriptor(f, p);
+    check(read_media_file_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1100,9 +1118,17 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     return 0;
 }
 
+static int read_did_descriptor_record(Buffer *f,  Properties *p)
+{
+    check(read_did_descriptor(f, p));
+    read_assert_tag(f, 0x03);
+
+    return 0;
+}
+
 static int read_cdci_descriptor(Buffer *f, Properties *p)
 {
-    read_did_descriptor(f, p);
+    check(read_did_descriptor(f, p));
     read_assert_tag(f, 0x02);
     read_assert_tag(f, 0x02);
 
@@ -1232,12 +1258,8 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     size_t attr_count = read_u32le(f);
     d.resize(attr_count);
 
-    if (attr_count == 0)
-        return 0;
-
-    AttrData *ptr = &d[0];
-
     for(size_t i =0; i < attr_count; i++) {
+        AttrData *ptr = &d[i];
         ptr->type = (AttrType)read_u32le(f);
         read_data16(f, ptr->name);
         switch (ptr->type) {
@@ -1258,7 +1280,6 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
                 f->error_message = ASSERT_MESSAGE;
                 return -1;
         }
-         ptr++;
     }
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From b195dacac14a3df70a59478da3916f0117058e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:06 +0000
Subject: [PATCH 26/43] fix: accelerator allocated memory for counts far beyond
 the record

---
 src/avb/_ext_core.cpp | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index b9b5d5f..a5019a2 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -196,6 +196,22 @@ static inline bool read_failed(Buffer *f, int ret)
         return -1; \
     } \
 
+// true if count items of at least item_size bytes each can be left in the record
+static inline bool has_items(Buffer *f, uint64_t count, size_t item_size)
+{
+    if (f->ptr <= f->end && count * item_size <= (uint64_t)(f->end - f->ptr) + 1)
+        return true;
+    if (count == 0)
+        return true;
+    f->error_message = "number of items exceeds the record";
+    return false;
+}
+
+#define check_count(f, count, item_size) \
+    if (!has_items(f, count, item_size)) { \
+        return -1; \
+    } \
+
 static inline bool read_bool(Buffer *f)
 {
     return read_u8(f) == 0x01;
@@ -241,6 +257,9 @@ static inline double read_exp10_encoded_float(Buffer *f)
 static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
 {
     size_t size = read_u32le(f);
+    if (!has_items(f, size, 1))
+        return;
+
     s.resize(size);
     for(size_t i =0; i < size; i++) {
         s[i] = read_u8(f);
@@ -250,7 +269,7 @@ static inline void read_data32(Buffer *f, std::vector<uint8_t> &s)
 static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
 {
     uint16_t size = read_u16le(f);
-    if (size < 65535) {
+    if (size < 65535 && has_items(f, size, 1)) {
         s.resize(size);
         for(int i =0; i < size; i++) {
             s[i] = read_u8(f);
@@ -471,6 +490,7 @@ static int read_sequence(Buffer *f, Properties *p)
     read_assert_tag(f, 0x03);
 
     uint32_t count = read_u32le(f);
+    check_count(f, count, 4);
     p->reflists.push_back(RefListData());
     RefListData &reflist = p->reflists[p->reflists.size()-1];
     reflist.name = "components";
@@ -547,6 +567,7 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
+    check_count(f, point_count, 18);
 
     p->control_points.resize(1);
     ControlPointData *cp_data = &p->control_points[0];
@@ -577,7 +598,8 @@ static int read_paramclip(Buffer *f, Properties *p)
                 return -1;
         }
 
-        uint16_t pp_count = read_u16le(f);
+        int16_t pp_count = (int16_t)read_u16le(f);
+        check_count(f, pp_count, 8);
         cp->pp.resize(pp_count);
         for(int j = 0; j < pp_count; j++) {
             ControlPointProperty *pp = &cp->pp[j];
@@ -687,7 +709,8 @@ static int read_trackgroup(Buffer *f, Properties *p)
     add_int(p, "length", (int32_t)read_u32le(f));
     add_int(p, "num_scalars", (int32_t)read_u32le(f));
 
-    int32_t track_count =  (int32_t)read_u32le(f);
+    uint32_t track_count = read_u32le(f);
+    check_count(f, track_count, 2);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -695,7 +718,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
     vector <Properties> &tracks = child.data;
     tracks.resize(track_count);
 
-    for (int i = 0; i < track_count; i++) {
+    for (uint32_t i = 0; i < track_count; i++) {
         Properties &track = tracks[i];
         track.type = TRACK;
         uint16_t flags = read_u16le(f);
@@ -742,7 +765,7 @@ static int read_trackgroup(Buffer *f, Properties *p)
         uint8_t tag = read_u8(f);
         switch (tag) {
             case 0x01:
-                for (int i = 0; i < track_count; i++) {
+                for (uint32_t i = 0; i < track_count; i++) {
                     read_assert_tag(f, 69);
                     add_int(&tracks[i], "lock_number", (int16_t)read_u16le(f));
                 }
@@ -940,6 +963,7 @@ static int read_did_descriptor(Buffer *f,  Properties *p)
     vector<int64_t> &line_map = add_int_array(p, "line_map");
 
     size_t line_map_byte_size = read_u32le(f);
+    check_count(f, line_map_byte_size, 1);
     for (size_t i = 0; i < line_map_byte_size/4; i++) {
         line_map.push_back((int32_t)read_u32le(f));
     }
@@ -1174,6 +1198,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
 
     uint32_t parameter_count = read_u32le(f);
     add_int(p, "keyframe_size",  (int32_t)read_u32le(f));
+    check_count(f, parameter_count, 102);
 
     p->children.push_back(Properties::ChildData());
     Properties::ChildData &child = p->children[ p->children.size()-1];
@@ -1226,6 +1251,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         add_int(&param, "enable_key_flags",   (int8_t)read_u8(f));
 
         uint32_t color_count =read_u32le(f);
+        check_count(f, color_count, 4);
         vector<int64_t> &colors = add_int_array(&param, "colors");
         colors.reserve(color_count);
 
@@ -1234,6 +1260,7 @@ static int read_effectparamlist(Buffer *f, Properties *p)
         }
 
         uint32_t param_size = read_u32le(f);
+        check_count(f, param_size, 1);
         vector<uint8_t> &user_param = add_bytearray(&param, "user_param");
         user_param.resize(param_size);
         for (size_t j=0; j < param_size; j++) {
@@ -1256,6 +1283,7 @@ static int read_attributes(Buffer *f, std::vector<AttrData> &d)
     read_assert_tag(f, 0x01);
 
     size_t attr_count = read_u32le(f);
+    check_count(f, attr_count, 6);
     d.resize(attr_count);
 
     for(size_t i =0; i < attr_count; i++) {
-- 
2.43.0


From 80493b74eb7c8ae33271d827d277510cc3590b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:02 +0000
Subject: [PATCH 27/43] fix: accelerator ignored references to objects that do
 not exist and other conversion errors

---
 src/avb/_ext.pyx | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index a6c41ff..42cabb5 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -172,21 +172,27 @@ cdef class AVBPropertyData(dict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
-cdef void refs2dict(object root, dict d, Properties* p):
+cdef object object_ref(object root, uint32_t index):
+    ref = AVBObjectRef(root, index)
+    if root.check_refs and not ref.valid:
+        raise ValueError("bad index: %d" % index)
+    return ref
+
+cdef void refs2dict(object root, dict d, Properties* p) except *:
     cdef IntData item
     for item in p.refs:
-        d[item.name.decode('utf-8')] = AVBObjectRef(root, item.data.u64)
+        d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p):
+cdef void reflist2dict(object root, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
         reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
-        reflist.extend(item.data)
+        reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
-cdef void controlpoints2dict(object root, dict d, Properties* p):
+cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
 
     cdef ControlPointData item
     cdef ControlPoint cp
@@ -221,7 +227,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
-                cpdata['value'] = utils.AVBObjectRef(root, cp.value)
+                cpdata['value'] = object_ref(root, cp.value)
 
             pp_list = []
             for pp in cp.pp:
@@ -245,7 +251,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p):
         d[item.name.decode("utf-8")] = control_point_list
 
 
-cdef void ints2dict(dict d, Properties* p):
+cdef void ints2dict(dict d, Properties* p) except *:
     cdef IntData item
     cdef int64_t signed_value
     for item in p.ints:
@@ -254,23 +260,23 @@ cdef void ints2dict(dict d, Properties* p):
         else:
             d[item.name.decode('utf-8')] = item.data.u64
 
-cdef void dates2dict(dict d, Properties* p):
+cdef void dates2dict(dict d, Properties* p) except *:
     cdef IntData item
     for item in p.dates:
         d[item.name.decode('utf-8')] = datetime.fromtimestamp(item.data.u64)
 
-cdef void doubles2dict(dict d, Properties *p):
+cdef void doubles2dict(dict d, Properties *p) except *:
     cdef DoubleData item
     for item in p.doubles:
         name = <bytes> item.name
         d[item.name.decode('utf-8')] = item.data
 
-cdef void bools2dict(dict d,  Properties *p):
+cdef void bools2dict(dict d,  Properties *p) except *:
     cdef BoolData item
     for item in p.bools:
         d[item.name.decode('utf-8')] = item.data
 
-cdef void uuid2dict(dict d, Properties *p):
+cdef void uuid2dict(dict d, Properties *p) except *:
     cdef bytes data
 
     cdef BytesData item
@@ -282,7 +288,7 @@ cdef void uuid2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = uuid.UUID(bytes_le=data)
 
-cdef void mob_id2dict(dict d, Properties *p):
+cdef void mob_id2dict(dict d, Properties *p) except *:
     cdef bytes data
     cdef BytesData item
     cdef uint8_t *ptr
@@ -293,7 +299,7 @@ cdef void mob_id2dict(dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p):
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef const char * ptr
 
     cdef StringData item
@@ -308,7 +314,7 @@ cdef void strings2dict(dict d, Properties *p):
         else:
             d[item.name.decode('utf-8')] = u""
 
-cdef void children2dict(object root, dict d, Properties *p):
+cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
     cdef Properties child_properties
 
@@ -332,7 +338,7 @@ cdef void children2dict(object root, dict d, Properties *p):
 
         d[item.name.decode('utf-8')] = plist
 
-cdef void int_array2dict(dict d, Properties *p):
+cdef void int_array2dict(dict d, Properties *p) except *:
     cdef IntArrayData item
     for item in p.arrays:
         name = item.name.decode('utf-8')
@@ -344,7 +350,7 @@ cdef void int_array2dict(dict d, Properties *p):
         else:
             d[name] = item.data
 
-cdef void bytearray2dict(dict d, Properties *p):
+cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef BytesData item
     cdef uint8_t *ptr
     cdef size_t size
@@ -427,7 +433,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
                 value = ""
 
         elif item.type == OBJ_ATTR:
-            value = utils.AVBObjectRef(root, item.value)
+            value = object_ref(root, item.value)
 
         elif item.type == BOB_ATTR:
             data_size = item.data.size()
-- 
2.43.0


From aed39edc0e93f8f535b353adcb4fe13c3e21d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 28/43] fix: accelerator read some signed numbers as unsigned

---
 src/avb/_ext.pyx      | 4 ++--
 src/avb/_ext_core.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 42cabb5..9d2b389 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -223,7 +223,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
-                cpdata['value'] = cp.value
+                cpdata['value'] = <int32_t>cp.value
             elif item.value_type == CP_TYPE_DOUBLE:
                 cpdata['value'] =cp.double_value
             elif item.value_type == CP_TYPE_REFERENCE:
@@ -237,7 +237,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
                 if pp.type == CP_TYPE_DOUBLE:
                     ppdata['value'] = pp.double_value
                 elif pp.type == CP_TYPE_INT:
-                    ppdata['value'] = pp.value
+                    ppdata['value'] = <int32_t>pp.value
 
                 py_pp = pp_obj_class.__new__(pp_obj_class, root=root)
                 py_pp.property_data = ppdata
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index a5019a2..4024fef 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -455,7 +455,7 @@ static int read_comp(Buffer *f, Properties *p)
     add_object_ref(p, "left_bob", read_u32le(f));
     add_object_ref(p, "right_bob", read_u32le(f));
 
-    add_uint(p, "media_kind_id", read_u16le(f));
+    add_int(p, "media_kind_id", (int16_t)read_u16le(f));
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
@@ -847,7 +847,7 @@ static int read_composition(Buffer *f, Properties *p)
 
     add_date(p, "last_modified", read_u32le(f));
     add_uint(p, "mob_type_id", read_u8(f));
-    add_int(p, "usage_code", read_u32le(f));
+    add_int(p, "usage_code", (int32_t)read_u32le(f));
     add_object_ref(p, "descriptor", read_u32le(f));
 
     while (iter_ext(f)) {
@@ -1158,7 +1158,7 @@ static int read_cdci_descriptor(Buffer *f, Properties *p)
 
     add_uint(p, "horizontal_subsampling", read_u32le(f));
     add_uint(p, "vertical_subsampling", read_u32le(f));
-    add_uint(p, "component_width", read_u32le(f));
+    add_int(p, "component_width", (int32_t)read_u32le(f));
 
     add_int(p, "color_sitting", (int16_t)read_u16le(f));
     add_uint(p, "black_ref_level", read_u32le(f));
-- 
2.43.0


From 80030d73614daf2d4147b364886450b71b1947c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 29/43] fix: accelerator kept NUL padding of strings and gave
 empty strings for None

---
 src/avb/_ext.pyx      | 34 ++++++++++++++++------------------
 src/avb/_ext_core.cpp |  9 ++++++---
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 9d2b389..87e432b 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -80,6 +80,7 @@ cdef extern from "_ext_core.cpp" nogil:
     cdef struct StringData:
         const char *name
         StringType type
+        bint optional
         vector[uint8_t] data
 
     cdef struct BytesData:
@@ -299,20 +300,24 @@ cdef void mob_id2dict(dict d, Properties *p) except *:
 
         d[item.name.decode('utf-8')] = MobID(bytes_le=data)
 
-cdef void strings2dict(dict d, Properties *p) except *:
+cdef object decode_string(const vector[uint8_t] &data):
     cdef const char * ptr
+    cdef size_t data_size = data.size()
+
+    if data_size == 0:
+        return u""
+
+    ptr = <const char *>&data[0]
+    return (<bytes> ptr[:data_size]).strip(b'\x00').decode('macroman')
 
+cdef void strings2dict(dict d, Properties *p) except *:
     cdef StringData item
-    cdef size_t data_size;
 
     for item in p.strings:
-        data_size = item.data.size()
-
-        if data_size > 0:
-            ptr = <const char *>&item.data[0]
-            d[item.name.decode('utf-8')] = ptr[:data_size].decode("macroman")
-        else:
-            d[item.name.decode('utf-8')] = u""
+        value = decode_string(item.data)
+        if item.optional and not value:
+            value = None
+        d[item.name.decode('utf-8')] = value
 
 cdef void children2dict(object root, dict d, Properties *p) except *:
     cdef ChildData item
@@ -425,12 +430,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             value = <int32_t>item.value
 
         elif item.type == STR_ATTR:
-            data_size = item.data.size()
-            if data_size > 0:
-                ptr =  <const char *>&item.data[0]
-                value = ptr[:data_size].decode('macroman')
-            else:
-                value = ""
+            value = decode_string(item.data)
 
         elif item.type == OBJ_ATTR:
             value = object_ref(root, item.value)
@@ -443,9 +443,7 @@ def read_attr_data(root, object_instance, const unsigned char[:] data):
             else:
                 value = bytearray()
 
-        data_size = item.name.size()
-        ptr =  <const char *>&item.name[0]
-        object_instance[ptr[:data_size].decode('macroman')] = value
+        object_instance[decode_string(item.name)] = value
 
 # cdef print_property_sizes(Properties *p):
 #     print("refs",           p.refs.size())
diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 4024fef..17b74e9 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -128,6 +128,7 @@ struct ControlPointData {
 struct StringData {
     const char *name;
     StringType type;
+    bool optional;
     vector<uint8_t> data;
 };
 
@@ -277,7 +278,8 @@ static inline void read_data16(Buffer *f, std::vector<uint8_t> &s)
     }
 }
 
-static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t)
+// an optional string is None when it is empty
+static inline void add_string(Properties *p, Buffer *f, const char* name, StringType t, bool optional=false)
 {
     size_t string_size = p->strings.size();
     p->strings.resize(string_size + 1);
@@ -285,6 +287,7 @@ static inline void add_string(Properties *p, Buffer *f, const char* name, String
 
     s.name = name;
     s.type = t;
+    s.optional = optional;
     read_data16(f, s.data);
 }
 
@@ -459,8 +462,8 @@ static int read_comp(Buffer *f, Properties *p)
 
     add_double(p, "edit_rate", read_exp10_encoded_float(f));
 
-    add_string(p, f, "name", MACROMAN);
-    add_string(p, f, "effect_id", MACROMAN);
+    add_string(p, f, "name", MACROMAN, true);
+    add_string(p, f, "effect_id", MACROMAN, true);
 
     add_object_ref(p, "attributes", read_u32le(f));
     add_object_ref(p, "session_attrs", read_u32le(f));
-- 
2.43.0


From ea4f7a4309a82aec417942ca2b974337c609bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 30/43] fix: accelerator gave other types than the pure reader
 for offsets, compress_method and property values

---
 src/avb/_ext.pyx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 87e432b..2f9f9ee 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -170,6 +170,10 @@ cdef class AVBPropertyData(dict):
         for key, value in super(AVBPropertyData, self).items():
             yield key, self.deref(value)
 
+    def values(self):
+        for value in super(AVBPropertyData, self).values():
+            yield self.deref(value)
+
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
@@ -220,7 +224,7 @@ cdef void controlpoints2dict(object root, dict d, Properties* p) except *:
         for cp in item.data:
 
             cpdata = AVBPropertyData()
-            cpdata['offset'] = (cp.offset_num, cp.offset_den)
+            cpdata['offset'] = [cp.offset_num, cp.offset_den]
             cpdata['timescale'] = cp.timescale
 
             if item.value_type == CP_TYPE_INT:
@@ -360,12 +364,16 @@ cdef void bytearray2dict(dict d, Properties *p) except *:
     cdef uint8_t *ptr
     cdef size_t size
     for item in p.bytearrays:
+        name = item.name.decode('utf-8')
         size = item.data.size()
         if size:
             ptr = &item.data[0]
-            d[item.name.decode('utf-8')] = <bytearray> ptr[:size]
+            d[name] = <bytearray> ptr[:size]
         else:
-            d[item.name.decode('utf-8')] = bytearray()
+            d[name] = bytearray()
+
+        if name == 'compress_method':
+            d[name] = bytes(d[name])
 
 cdef dict process_poperties(object root, Properties *p):
     cdef dict result = AVBPropertyData()
-- 
2.43.0


From 32574bef6a6454d38174a0b4da614a23a6d7a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 31/43] fix: edits of reference lists read by the accelerator
 were not saved

---
 src/avb/_ext.pyx | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/avb/_ext.pyx b/src/avb/_ext.pyx
index 2f9f9ee..b34854f 100644
--- a/src/avb/_ext.pyx
+++ b/src/avb/_ext.pyx
@@ -188,12 +188,12 @@ cdef void refs2dict(object root, dict d, Properties* p) except *:
     for item in p.refs:
         d[item.name.decode('utf-8')] = object_ref(root, item.data.u64)
 
-cdef void reflist2dict(object root, dict d, Properties* p) except *:
+cdef void reflist2dict(object root, object parent, dict d, Properties* p) except *:
     cdef RefListData item
     cdef uint32_t i
 
     for item in p.reflists:
-        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root)
+        reflist = core.AVBRefList.__new__(core.AVBRefList, root=root, parent=parent)
         reflist.extend([object_ref(root, i) for i in item.data])
         d[item.name.decode('utf-8')] = reflist
 
@@ -334,14 +334,13 @@ cdef void children2dict(object root, dict d, Properties *p) except *:
         plist = []
 
         for child_properties in item.data:
-            pdata = process_poperties(root, &child_properties)
-
             if child_properties.type == TRACK:
                 obj_class = utils.AVBClassName_dict['Track']
             elif child_properties.type == PARAM:
                 obj_class = utils.AVBClassName_dict['EffectParam']
 
             object_instance = obj_class.__new__(obj_class, root=root)
+            pdata = process_poperties(root, object_instance, &child_properties)
             object_instance.property_data = pdata
             plist.append(object_instance)
 
@@ -375,13 +374,13 @@ cdef void bytearray2dict(dict d, Properties *p) except *:
         if name == 'compress_method':
             d[name] = bytes(d[name])
 
-cdef dict process_poperties(object root, Properties *p):
+cdef dict process_poperties(object root, object parent, Properties *p):
     cdef dict result = AVBPropertyData()
 
     if p.refs.size():
         refs2dict(root, result, p)
     if p.reflists.size():
-        reflist2dict(root, result, p)
+        reflist2dict(root, parent, result, p)
     if p.ints.size():
         ints2dict(result, p)
     if p.doubles.size():
@@ -481,7 +480,7 @@ def read_sequence_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading SEQU: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -500,7 +499,7 @@ def read_sourceclip_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading SCLP: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -522,7 +521,7 @@ def read_paramclip_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRCL: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -542,7 +541,7 @@ def read_paramitem_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading PRIT: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -561,7 +560,7 @@ def read_trackref_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading TRKR: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -580,7 +579,7 @@ def read_filler_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading FILL: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -599,7 +598,7 @@ def reads_selector_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading SLCT: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -622,7 +621,7 @@ def read_composition_data(root, object_instance, const unsigned char[:] data):
         raise ValueError("Error reading CMPO: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -642,7 +641,7 @@ def read_media_descriptor_data(root, object_instance, const unsigned char[:] dat
         raise ValueError("Error reading MDES: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -662,7 +661,7 @@ def read_did_descriptor_data(root, object_instance, const unsigned char[:] data)
         raise ValueError("Error reading DIDD: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -683,7 +682,7 @@ def read_cdci_descriptor_data(root, object_instance, const unsigned char[:] data
         raise ValueError("Error reading CDCI: %s" % buf.error_message.decode("utf-8"))
 
     # print_property_sizes(&p)
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
@@ -704,7 +703,7 @@ def read_trackeffect_data(root, object_instance, const unsigned char[:] data):
     if read_failed(&buf, ret):
         raise ValueError("Error reading TKFX: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     # print_property_sizes(&p)
     object_instance.property_data = result
@@ -724,7 +723,7 @@ def read_effectparamlist_data(root, object_instance, const unsigned char[:] data
     if read_failed(&buf, ret):
         raise ValueError("Error reading FXPS: %s" % buf.error_message.decode("utf-8"))
 
-    cdef dict result = process_poperties(root, &p)
+    cdef dict result = process_poperties(root, object_instance, &p)
 
     object_instance.property_data = result
 
-- 
2.43.0


From f763b15a2bf19df47bedbabd4d5d158679fc94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:11 +0000
Subject: [PATCH 32/43] fix: accelerator accepted unknown ParamClip value types
 and Selector tracks out of range

---
 src/avb/_ext_core.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 17b74e9..015c70f 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -567,6 +567,11 @@ static int read_paramclip(Buffer *f, Properties *p)
     add_int(p, "interp_kind", (int32_t)read_u32le(f));
 
     ControlPointValueType value_type = (ControlPointValueType)read_u16le(f);
+    if (value_type != CP_TYPE_INT && value_type != CP_TYPE_DOUBLE && value_type != CP_TYPE_REFERENCE) {
+        fprintf(stderr, "unknown value_type: %d\n", value_type);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
     add_int(p, "value_type", value_type);
 
     uint32_t point_count = read_u32le(f);
@@ -830,7 +835,14 @@ static int read_selector(Buffer *f, Properties *p)
     read_assert_tag(f, 0x01);
 
     add_bool(p, "is_ganged", read_bool(f));
-    add_uint(p, "selected",  read_u16le(f));
+
+    uint16_t selected = read_u16le(f);
+    if (selected >= p->children[0].data.size()) {
+        fprintf(stderr, "selected track out of range: %d\n", selected);
+        f->error_message = ASSERT_MESSAGE;
+        return -1;
+    }
+    add_uint(p, "selected", selected);
 
     read_assert_tag(f, 0x03);
 
-- 
2.43.0


From 12b8bd655f7106fdf5b203c4ec16cccf52ea2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 33/43] fix: accelerator read infinite rates where the pure
 reader rejects the exponent

---
 src/avb/_ext_core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avb/_ext_core.cpp b/src/avb/_ext_core.cpp
index 015c70f..b32e606 100644
--- a/src/avb/_ext_core.cpp
+++ b/src/avb/_ext_core.cpp
@@ -252,6 +252,12 @@ static inline double read_exp10_encoded_float(Buffer *f)
     int32_t mantissa = (int32_t)read_u32le(f);
     int16_t exp10 = (int16_t)read_u16le(f);
 
+    // beyond the range of a double
+    if (exp10 > 308) {
+        f->error_message = "exponent too large";
+        return 0.0;
+    }
+
     return mantissa * pow(10.0, (int)exp10);
 }
 
-- 
2.43.0


From 96c6eb8d15a4925fe3c5acb740d29f512f2f0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:15 +0000
Subject: [PATCH 34/43] fix: reject strings cut short

---
 src/avb/ioctx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index fe68228..15aaf76 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -156,6 +156,8 @@ class AVBIOContext(object):
             return u""
 
         s = f.read(size)
+        if len(s) != size:
+            raise ValueError("string cut short: %d of %d bytes" % (len(s), size))
         s = s.strip(b'\x00')
         return s.decode(encoding)
 
-- 
2.43.0


From e138e273f35201223dc6bcd31f70430aef55bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:41 +0000
Subject: [PATCH 35/43] fix: repetition of object lists and reordering of
 attributes in place were not recorded as edits

---
 src/avb/attributes.py | 4 ++++
 src/avb/core.py       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/avb/attributes.py b/src/avb/attributes.py
index 073e88a..1e788a2 100644
--- a/src/avb/attributes.py
+++ b/src/avb/attributes.py
@@ -55,6 +55,10 @@ class Attributes(AVBPropertyData):
         self.mark_modified()
         return key, self.deref(value)
 
+    def move_to_end(self, *args, **kwargs):
+        super(Attributes, self).move_to_end(*args, **kwargs)
+        self.mark_modified()
+
     def copy(self, root):
         obj = root.create.from_name(self.__class__.__name__)
         for key, value in self.items():
diff --git a/src/avb/core.py b/src/avb/core.py
index ad8359d..d03c19b 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -90,6 +90,11 @@ class AVBRefList(list):
         self.extend(x)
         return self
 
+    def __imul__(self, n):
+        super(AVBRefList, self).__imul__(n)
+        self.mark_modified()
+        return self
+
     def append(self, x):
         super(AVBRefList, self).append(x)
         self.mark_modified()
-- 
2.43.0


From c14dd3c4884a384208a33ae3d1366d7cf0ac3e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:33 +0000
Subject: [PATCH 36/43] fix: concatenation, repetition and comparison of object
 lists and maps gave or compared unresolved references

---
 src/avb/core.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/avb/core.py b/src/avb/core.py
index d03c19b..7f2c199 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -54,6 +54,14 @@ class AVBPropertyData(OrderedDict):
     def get(self, *args, **kwargs):
         return self.deref(super(AVBPropertyData, self).get(*args, **kwargs))
 
+    def __eq__(self, other):
+        return OrderedDict(self.items()) == other
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
 @utils.register_helper_class
 class AVBRefList(list):
     propertydefs = []
@@ -164,6 +172,25 @@ class AVBRefList(list):
     def count(self, x):
         return list(self).count(x)
 
+    def __add__(self, x):
+        return list(self) + x
+
+    def __radd__(self, x):
+        return x + list(self)
+
+    def __mul__(self, n):
+        return list(self) * n
+
+    __rmul__ = __mul__
+
+    def __eq__(self, x):
+        return list(self) == x
+
+    def __ne__(self, x):
+        return not self == x
+
+    __hash__ = None
+
 def walk_references(obj):
 
     if isinstance(obj, list):
-- 
2.43.0


From 001fc7677f0ef584035c5b43d7bd07ffc27a8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 37/43] fix: MobID accepted signs, spaces and underscores in
 place of hex digits

---
 src/avb/mobid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/avb/mobid.py b/src/avb/mobid.py
index c7d0ec2..8ef1d3b 100644
--- a/src/avb/mobid.py
+++ b/src/avb/mobid.py
@@ -135,6 +135,7 @@ from __future__ import (
     division,
     )
 
+import binascii
 import uuid
 import struct
 from .utils import (int_from_bytes, bytes_from_int,
@@ -416,6 +417,7 @@ class MobID(object):
         for item in ("urn:smpte:umid:", ".", '-', '0x'):
             s = s.replace(item, '')
         assert len(s) == 64
+        binascii.unhexlify(s) # int() accepts more than hex digits
 
         SMPTELabel = [0 for i in range(12)]
         start = 0
-- 
2.43.0


From d2826adf188379de2baa88dee1d4831d812af6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 38/43] fix: a mob of an unknown type could not be printed

---
 src/avb/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/core.py b/src/avb/core.py
index 7f2c199..bd26eec 100644
--- a/src/avb/core.py
+++ b/src/avb/core.py
@@ -316,7 +316,7 @@ class AVBObject(object):
         if 'name' in self.property_data and self.name:
             s += " " + self.name
 
-        if self.class_id == b'CMPO' and self.mob_type:
+        if self.class_id == b'CMPO' and self.mob_type_id in (1, 2, 3):
             s += " " + self.mob_type
 
         if 'effect_id' in self.property_data and self.effect_id:
-- 
2.43.0


From 047a7d4686e0383c43af9108352dae8a566d8f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 39/43] fix: an object of another file was stored as the object
 with the same id

---
 src/avb/file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avb/file.py b/src/avb/file.py
index 67866a4..40167eb 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -351,6 +351,10 @@ class AVBFile(object):
             with io.open(path, 'wb') as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
+                    # ids are only unique within a file
+                    if obj.root is not self:
+                        raise ValueError("object is from different file: " + str(obj))
+
                     if obj.instance_id in self.ref_mapping:
                         continue
 
-- 
2.43.0


From 2554b42e7d969218b7cb4003d098b30721769709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 40/43] fix: a failed save, or a save over the open file,
 destroyed the file

---
 src/avb/file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/avb/file.py b/src/avb/file.py
index 40167eb..8ba1948 100644
--- a/src/avb/file.py
+++ b/src/avb/file.py
@@ -348,7 +348,9 @@ class AVBFile(object):
         ctx = AVBIOContext(byte_order)
         self.octx = ctx
         try:
-            with io.open(path, 'wb') as f:
+            # path is written last: objects may still have to be read from
+            # the file that is there, or turn out not to be storable
+            with io.BytesIO() as f:
                 count_pos = self.write_header(f)
                 for obj in walk_references(self.content):
                     # ids are only unique within a file
@@ -367,6 +369,9 @@ class AVBFile(object):
                 ctx.write_u32(f, self.next_chunk_id)
                 ctx.write_u32(f, self.next_chunk_id)
                 f.seek(pos)
+
+                with io.open(path, 'wb') as out:
+                    out.write(f.getvalue())
         finally:
             self.octx = None
 
-- 
2.43.0


From 52824072c8e420b9b041cb12707c1dd4c5dff841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:30 +0000
Subject: [PATCH 41/43] fix: times in the repeated hour when clocks go back
 were saved an hour early

---
 src/avb/ioctx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/ioctx.py b/src/avb/ioctx.py
index 15aaf76..dad14b6 100644
--- a/src/avb/ioctx.py
+++ b/src/avb/ioctx.py
@@ -92,6 +92,9 @@ class AVBIOContext(object):
 
     @staticmethod
     def datetime_to_timestamp(d):
+        # a time tuple does not tell apart the two hours when clocks go back
+        if hasattr(d, 'timestamp'):
+            return int(d.timestamp())
         return int(time.mktime(d.timetuple()))
 
     @staticmethod
-- 
2.43.0


From e04bfaac67670b07d1bea2e500324c279366142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:41 +0000
Subject: [PATCH 42/43] fix: more format descriptors than can be read back were
 written

---
 src/avb/bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index c1183da..fe8d3f7 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -152,7 +152,7 @@ class BinViewSetting(Setting):
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 0x01)
             ctx.write_u8(f, 69)
-            ctx.write_u16(f, len(self.format_descriptors))
+            ctx.write_s16(f, len(self.format_descriptors))
 
             for d in self.format_descriptors:
                 ctx.write_u8(f, 69)
-- 
2.43.0


From 111109f25131e1633179a5d24edc43260357f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:41 +0000
Subject: [PATCH 43/43] fix: sifted settings beyond the sixth were left out
 when saving

---
 src/avb/bin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/avb/bin.py b/src/avb/bin.py
index fe8d3f7..2cd38ac 100644
--- a/src/avb/bin.py
+++ b/src/avb/bin.py
@@ -341,6 +341,9 @@ class Bin(core.AVBObject):
         ctx.write_s16(f, self.display_mode)
         ctx.write_bool(f, self.sifted)
 
+        if len(self.sifted_settings) > 6:
+            raise ValueError("bin has more than 6 sifted settings: %d" % len(self.sifted_settings))
+
         for i in range(6):
             s = self.sifted_settings[i]
             ctx.write_s16(f, s.method)
-- 
2.43.0

