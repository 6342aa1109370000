From 6142d15baeed8a4e156608c21dfe1c26abce5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 01/80] fix: write_value preserves all bits outside of the
 written field

---
 flatdata-py/flatdata/lib/data_access.py | 26 +++++++++----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 359dfc6..454e52a 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -42,23 +42,15 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
             data[offset_bytes] &= ~(1 << offset_extra_bits)
         return
 
-    mask = (1 << num_bits) - 1
+    mask = ((1 << num_bits) - 1) << offset_extra_bits
     value <<= offset_extra_bits
-    value &= mask << offset_extra_bits
-    value_in_little_endian = value.to_bytes(total_bytes + 1, byteorder="little", signed=is_signed)
-    surrounding_bits = data[offset_bytes] & ((1 << offset_bits) - 1)
+    value &= mask
 
-    byte_idx = 0
-    data[offset_bytes] = value_in_little_endian[byte_idx]
-    data[offset_bytes] |= surrounding_bits
+    # Bytes (partially) covered by the field: bits outside of the field have to be preserved
+    total_bytes = (offset_extra_bits + num_bits + 7) // 8
+    mask_in_little_endian = mask.to_bytes(total_bytes, byteorder="little")
+    value_in_little_endian = value.to_bytes(total_bytes, byteorder="little")
 
-    byte_idx += 1
-    while byte_idx < total_bytes:
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx]
-        byte_idx += 1
-
-    bits_written = total_bytes * 8 - offset_extra_bits
-    if bits_written < num_bits:
-        surrounding_bits = data[offset_bytes + byte_idx] & ~((1 << offset_bits) - 1)
-        data[offset_bytes + byte_idx] = value_in_little_endian[byte_idx] & ((1 << (8 - (bits_written % 8))) - 1)
-        data[offset_bytes + byte_idx] |= surrounding_bits
+    for byte_idx in range(total_bytes):
+        surrounding_bits = data[offset_bytes + byte_idx] & ~mask_in_little_endian[byte_idx]
+        data[offset_bytes + byte_idx] = surrounding_bits | value_in_little_endian[byte_idx]
-- 
2.43.0


From e2918c116d7b64f15e5e436ad626acfd917bf488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 02/80] fix: read_value strips the bits following an unaligned
 64 bit field

---
 flatdata-py/flatdata/lib/data_access.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 454e52a..9d2ed6c 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -20,8 +20,7 @@ def read_value(data, offset_bits, num_bits, is_signed):
         remainder = data[offset_bytes + total_bytes]
         result |= remainder << (total_bytes * 8 - offset_extra_bits)
 
-    if num_bits < 64:
-        result = result & ((1 << num_bits) - 1)
+    result = result & ((1 << num_bits) - 1)
 
     if not is_signed:
         return result
-- 
2.43.0


From c9f6c55798abdd83ca72928725eac61b8d555518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 03/80] fix: data rejected by ArchiveBuilder.set leaves no
 partially written resource

---
 flatdata-py/flatdata/lib/archive_builder.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a4b1d2a..be65f57 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -4,6 +4,7 @@
 '''
 
 from collections import namedtuple
+from io import BytesIO
 import os
 
 from .errors import IndexWriterError, MissingFieldError, UnknownFieldError, \
@@ -260,24 +261,26 @@ class ArchiveBuilder:
         if name not in self._RESOURCES:
             raise UnknownResourceError(name)
 
-        if not self._resources_written.count(name):
-            self._write_schema(name)
-        else:
+        if self._resources_written.count(name):
             raise ResourceAlreadySetError()
 
-        storage = self._resource_storage.get(name, False)
+        # Serialize first: data that gets rejected must not leave an incomplete resource behind
+        data = BytesIO()
 
         if self._RESOURCES[name].container is Instance:
-            self.__set_instance(storage, name, value)
+            self.__set_instance(data, name, value)
         elif self._RESOURCES[name].container is Vector:
-            self.__set_vector(storage, name, value)
+            self.__set_vector(data, name, value)
         elif self._RESOURCES[name].container is Multivector:
-            self.__set_multivector(storage, name, value)
+            self.__set_multivector(data, name, value)
         elif self._RESOURCES[name].container is RawData:
-            storage.write(value)
+            data.write(value)
         else:
-            NotImplementedError
+            raise NotImplementedError
 
+        self._write_schema(name)
+        storage = self._resource_storage.get(name, False)
+        storage.write(data.getvalue())
         storage.add_size()
         storage.add_padding()
         storage.close()
-- 
2.43.0


From 1cbdfa109e2f1924b9a99af70f6544f5b0d01766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 04/80] fix: ArchiveBuilder rejects multivector data its index
 cannot address

---
 flatdata-py/flatdata/lib/archive_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index be65f57..7eae005 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -237,6 +237,9 @@ class ArchiveBuilder:
 
         index_data_points.append(data_point)
 
+        if data_point >= 1 << initializer_list[0]._FIELDS["value"].width:
+            raise IndexWriterError(f'Data of "{name}" is too large for its index')
+
         index_writer = IndexWriter(
             name, initializer_list[0]._SIZE_IN_BYTES, self._resource_storage)
 
-- 
2.43.0


From 522a2128a427af448c1af71c5db05a484c429cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/80] fix: empty resources of a Python archive are not
 treated as missing

---
 flatdata-py/flatdata/lib/archive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index 34e27aa..fb7ee28 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -56,8 +56,8 @@ class Archive:
         for name, signature in self._RESOURCES.items():
             resource = self.__getattr__(name)
             result.append([name, signature.container.__name__, signature.is_optional,
-                           resource.size_in_bytes() if resource else None,
-                           len(resource) if resource else None])
+                           resource.size_in_bytes() if resource is not None else None,
+                           len(resource) if resource is not None else None])
         return pd.DataFrame(data=result,
                             columns=["Name", "Type", "Optional", "SizeInBytes", "Size"])
 
@@ -84,7 +84,7 @@ class Archive:
     def size_in_bytes(self):
         return sum(resource_value.size_in_bytes() for resource_value in
                    (self.__getattr__(resource) for resource in self._RESOURCES.keys())
-                   if resource_value)
+                   if resource_value is not None)
 
     def __len__(self):
         return len(self._RESOURCES)
@@ -110,7 +110,7 @@ class Archive:
                                                          name=name,
                                                          initializer=resource_signature.initializer,
                                                          is_optional=resource_signature.is_optional)
-            if resource:
+            if resource is not None:
                 resource.__doc__ = resource_signature.doc
                 return resource
         return None
-- 
2.43.0


From 7d84796669bd0700152d129838d258079a76ed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 06/80] fix: optional Python resources without data are missing
 instead of raising TypeError

---
 flatdata-py/flatdata/lib/resources.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f371a7d..08a8087 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -51,7 +51,10 @@ class ResourceBase:
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name, is_optional), initializer)
+        mem = storage.get(name, is_optional)
+        if mem is None:
+            return None
+        return cls(mem, initializer)
 
 
 class _VectorSlice:
@@ -138,9 +141,11 @@ class Multivector(ResourceBase):
 
     @classmethod
     def open(cls, storage, name, initializer, is_optional=False):
-        return cls(storage.get(name + "_index", is_optional),
-                   storage.get(name, is_optional),
-                   *initializer)
+        index_mem = storage.get(name + "_index", is_optional)
+        mem = storage.get(name, is_optional)
+        if index_mem is None or mem is None:
+            return None
+        return cls(index_mem, mem, *initializer)
 
     def __len__(self):
         # The last entry is just a sentinel
-- 
2.43.0


From 3c8cf56c10c7e1cdbc317198837ef35a3ef5c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 07/80] fix: truncated multivector data is reported as corrupt
 on opening

---
 flatdata-py/flatdata/lib/resources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 08a8087..42dc521 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -135,6 +135,8 @@ class _MultivectorSlice:
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
         self._index = Vector(index_mem, index_type)
+        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
+            raise CorruptResourceError()
         self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
-- 
2.43.0


From de591d9b8f5e4f0b849b69db72e91b03a4506004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 08/80] fix: empty files of an archive are reported as
 mismatching schema or corrupt resource

---
 flatdata-py/flatdata/lib/archive.py               | 2 +-
 flatdata-py/flatdata/lib/file_resource_storage.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive.py b/flatdata-py/flatdata/lib/archive.py
index fb7ee28..87df13c 100644
--- a/flatdata-py/flatdata/lib/archive.py
+++ b/flatdata-py/flatdata/lib/archive.py
@@ -95,7 +95,7 @@ class Archive:
         # when it is initialized.
         if not _is_archive_signature(resource_signature):
             storage = self._resource_storage.get(name + _SCHEMA_EXT, resource_signature.is_optional)
-            if storage:
+            if storage is not None:
                 Archive._check_non_subarchive_schema(name, resource_signature, storage)
             elif not resource_signature.is_optional:
                 raise MissingResourceError(name)
diff --git a/flatdata-py/flatdata/lib/file_resource_storage.py b/flatdata-py/flatdata/lib/file_resource_storage.py
index 674b6fb..738cc49 100644
--- a/flatdata-py/flatdata/lib/file_resource_storage.py
+++ b/flatdata-py/flatdata/lib/file_resource_storage.py
@@ -36,6 +36,8 @@ class FileResourceStorage:
                 return None
 
         if os.path.isfile(filename):
+            if os.path.getsize(filename) == 0:
+                return b""  # Empty files cannot be memory mapped
             return self.memory_map(filename)
 
         return FileResourceStorage(filename)
-- 
2.43.0


From cbb9507646cc88903888cce8c801fd4dd9f88bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 09/80] fix: structures iterate their fields in declaration
 order

---
 flatdata-py/flatdata/lib/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/structure.py b/flatdata-py/flatdata/lib/structure.py
index fec73c0..2251e90 100644
--- a/flatdata-py/flatdata/lib/structure.py
+++ b/flatdata-py/flatdata/lib/structure.py
@@ -27,7 +27,7 @@ class Structure:
         return self._FIELD_KEYS
 
     def __iter__(self):
-        for name in self._FIELD_KEYS:
+        for name in self._FIELDS:
             yield getattr(self, name)
 
     def as_dict(self):
-- 
2.43.0


From a840404ca08f38fafc83a90a074d47550c1d536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 10/80] fix: conversion of vector slices to numpy respects the
 limit

---
 flatdata-py/flatdata/lib/resources.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 42dc521..3a7f880 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -63,14 +63,15 @@ class _VectorSlice:
         self._sequence = sequence
 
     def to_numpy(self, limit=None):
-        indices = self._slice.indices(len(self._sequence))
-        num_items = len(range(*indices)) if not limit else limit
+        indices = range(*self._slice.indices(len(self._sequence)))
+        if limit:
+            indices = indices[:limit]
         result = np.empty(
-            shape=num_items,
+            shape=len(indices),
             dtype=self._sequence._element_type.dtype()
         )
-        for index, item in enumerate(self):
-            result[index] = item.as_tuple()
+        for row, index in enumerate(indices):
+            result[row] = self._sequence[index].as_tuple()
         return result
 
     def to_data_frame(self, limit=None):
-- 
2.43.0


From eb097b207b658db1dc2cfdd45a6432f5a95dfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 11/80] fix: negative and out of range indices of multivectors

---
 flatdata-py/flatdata/lib/resources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 3a7f880..932b885 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -161,6 +161,10 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        if index < 0:
+            index += len(self)
+        if index >= len(self) or index < 0:
+            raise IndexError("Multivector access out of bounds: " + str(index))
         offset = self._bucket_offset(index)
         next_offset = self._bucket_offset(index + 1)
         elements = []
-- 
2.43.0


From c816982cdd3a656e36e30fde10516fcd1f5a4509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 12/80] fix: indices and slices of raw data are relative to the
 data and end with it

---
 flatdata-py/flatdata/lib/resources.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 932b885..f098e3a 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -192,26 +192,32 @@ class RawData(ResourceBase):
         return read_value(self._mem, 0, SIZE_OFFSET_IN_BITS, False)
 
     def __getitem__(self, item):
+        data = self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)]
         if isinstance(item, slice):
-            return self._mem[
-                slice(item.start + SIZE_OFFSET_IN_BYTES,
-                      (item.stop + SIZE_OFFSET_IN_BYTES) if item.stop is not None else None,
-                      item.step)
-            ]
-        return self._mem[item + SIZE_OFFSET_IN_BYTES:item + SIZE_OFFSET_IN_BYTES + 1]
+            return data[item]
+        if item < 0:
+            item += len(self)
+        if item >= len(self) or item < 0:
+            raise IndexError("Raw data access out of bounds: " + str(item))
+        return data[item:item + 1]
+
+    def _has_separator(self, index, separator):
+        # A separator is allowed to extend into the padding following the data
+        offset = index + SIZE_OFFSET_IN_BYTES
+        return self._mem[offset:offset + len(separator)] == separator
 
     def sub_str(self, index, separator = b'\0'):
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if self._has_separator(i, separator):
                 return bytes(self[index:i]).decode("utf-8")
         return bytes(self[index]).decode("utf-8")
 
     def sub_str_list(self, index, separator = b'\0', list_separator = b'\0\0'):
         result = []
         for i in range(index, len(self)):
-            if index == i and self[i:i + len(list_separator)] == list_separator:
+            if index == i and self._has_separator(i, list_separator):
                 break
-            if self[i:i + len(separator)] == separator:
+            if self._has_separator(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
                 index = i + 1
         return result
@@ -219,7 +225,7 @@ class RawData(ResourceBase):
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
-            if self[i:i + len(separator)] == separator:
+            if self._has_separator(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
                 index = i + 1
                 if len(result) == size:
-- 
2.43.0


From 3675a999205ce47972722412b843728ac03b619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 13/80] fix: sparse tar members in pax format are rejected
 instead of serving wrong data

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index cb5dd55..6b2cdb1 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -31,7 +31,7 @@ class TarArchiveResourceStorage:
                 name = file.name
                 if name.startswith("./"):
                     name = name[2:]
-                if file.type == tarfile.GNUTYPE_SPARSE:
+                if file.issparse():
                     raise CorruptResourceError("Sparse files are not supported")
                 if file.isreg():
                     file_entries[name] = (file.offset_data, file.size)
-- 
2.43.0


From ff391d8d708a964ce0cf3bf2dfb4088e6f70a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 14/80] fix: directories of a tar file without own entry are
 available in Python

---
 flatdata-py/flatdata/lib/tar_archive_resource_storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
index 6b2cdb1..1a807eb 100644
--- a/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
+++ b/flatdata-py/flatdata/lib/tar_archive_resource_storage.py
@@ -37,6 +37,11 @@ class TarArchiveResourceStorage:
                     file_entries[name] = (file.offset_data, file.size)
                 if file.isdir() and name != ".":
                     dir_entries.add(name)
+        # Directories are not necessarily listed on their own
+        for name in list(file_entries) + list(dir_entries):
+            while "/" in name:
+                name = name.rsplit("/", 1)[0]
+                dir_entries.add(name)
 
         return cls(tar_map, file_entries, dir_entries, sub_path)
 
-- 
2.43.0


From 0a22c02fa7f44bc0e433d5f643dd1df42ef94b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 15/80] fix: fields and enumerations without any bits are
 rejected by the generator

---
 flatdata-generator/flatdata/generator/tree/builder.py           | 2 +-
 flatdata-generator/flatdata/generator/tree/helpers/basictype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index bc53a9d..ac1129d 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -142,7 +142,7 @@ def _update_field_type_references(root):
         if isinstance(reference, EnumerationReference):
             field.type = EnumType(name=reference.name, basic_type=BasicType(
                 name=reference.node.type.name, width=reference.node.type.width))
-            if reference.width and reference.width != reference.node.type.width:
+            if reference.width is not None and reference.width != reference.node.type.width:
                 raise InvalidEnumWidthError(enumeration_name=reference.name,
                                             width=reference.node.type.width, provided_width=reference.width)
 
diff --git a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
index 6a166f1..1ae7d18 100644
--- a/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
+++ b/flatdata-generator/flatdata/generator/tree/helpers/basictype.py
@@ -26,7 +26,7 @@ class BasicType:
         self._width = width
         if width is None:
             self._width = self._WIDTH[self._name]
-        if self._width > self._WIDTH[self.name]:
+        if not 0 < self._width <= self._WIDTH[self.name]:
             raise InvalidWidthError(self._width, self._name)
 
     @property
-- 
2.43.0


From 2ae8a6a7053bbc6ee483e5b3b85324a8f56fcc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 16/80] fix: literals with leading zeros are reported as syntax
 errors

---
 flatdata-generator/flatdata/generator/grammar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 034c509..05114b6 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -21,7 +21,8 @@ basic_type = Or([Keyword(t) for t in BASIC_TYPES])
 
 bit_width = Word(nums)
 
-dec_literal = Word(nums)
+# leading zeros are ambiguous (octal or decimal)
+dec_literal = Word(nums[1:], nums) | Word("0")
 hex_literal = Combine("0x" + Word(hexnums))
 signed_literal = Combine(Optional('-') + (dec_literal ^ hex_literal))
 
-- 
2.43.0


From 69c12eb4c76225ceb4a75240dc5f7d3802437a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 17/80] fix: malformed namespaces and ones clashing with other
 definitions are reported as syntax errors

---
 flatdata-generator/flatdata/generator/grammar.py      |  3 ++-
 flatdata-generator/flatdata/generator/tree/builder.py | 10 ++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index 05114b6..efa3250 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -15,6 +15,7 @@ ParseException = pyparsingParseException
 
 identifier = Word(alphas + "_", alphas + alphanums + "_")
 qualified_identifier = Word(alphas + "_.", alphas + alphanums + "_.")
+namespace_identifier = Combine(identifier + ZeroOrMore("." + identifier))
 
 BASIC_TYPES = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
 basic_type = Or([Keyword(t) for t in BASIC_TYPES])
@@ -198,7 +199,7 @@ free_comments = Optional(OneOrMore(comment)("comment"))
 
 namespace = Group(
     Keyword("namespace") +
-    qualified_identifier("name") +
+    namespace_identifier("name") +
     "{" +
     ZeroOrMore(flatdata_entry) + "}" +
     Optional(comment)
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index ac1129d..e8f7658 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -20,7 +20,7 @@ from flatdata.generator.tree.nodes.references import (
     BuiltinStructureReference, ConstantReference, ConstantValueReference,
     EnumerationReference, StructureReference, InvalidValueReference)
 from flatdata.generator.tree.nodes.root import Root
-from flatdata.generator.tree.errors import ParsingError
+from flatdata.generator.tree.errors import ParsingError, SymbolRedefinition
 from flatdata.generator.tree.traversal import DfsTraversal
 from flatdata.generator.tree.helpers.basictype import BasicType
 from flatdata.generator.tree.helpers.enumtype import EnumType
@@ -47,11 +47,13 @@ def _ensure_namespace(root, path):
         Node.PATH_SEPARATOR), "This method only works with root-level paths"
 
     found = root.get(path)
-    if found is not None:
-        assert isinstance(found, nodes.Namespace)
+    if isinstance(found, nodes.Namespace):
         return found
 
-    last_common_parent = root.find_last(path)
+    last_common_parent = found or root.find_last(path)
+    if not isinstance(last_common_parent, (Root, nodes.Namespace)):
+        raise SymbolRedefinition(duplicate=nodes.Namespace(last_common_parent.name),
+                                 existing=last_common_parent)
     first, last = _create_nested_namespaces(
         path[len(last_common_parent.path) + 1:])
     last_common_parent.insert(first)
-- 
2.43.0


From e886061b0a92fa4637a665f27a5e21e952b7c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 18/80] fix: two ranges with the same name in one structure are
 rejected

---
 flatdata-generator/flatdata/generator/tree/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index e8f7658..99f959f 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -180,6 +180,8 @@ def _check_ranges(root):
         name = field.range
         if not name:
             continue
+        if [sibling.range for sibling in field.parent.fields].count(name) > 1:
+            raise InvalidRangeName(name)
         for sibling in field.parent.fields:
             if sibling.name == name:
                 raise InvalidRangeName(name)
-- 
2.43.0


From 8c715369b3818cbe87cea2738315f19ee533e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 19/80] fix: different explicit references of a resource never
 clash by name

---
 .../generator/tree/nodes/explicit_reference.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
index 7f21d23..8789b79 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/explicit_reference.py
@@ -10,10 +10,14 @@ class ExplicitReference(Node):
     def create(properties):
         destination = properties.destination
         field = Node.jointwo(properties.source_type, properties.source_field)
+
+        def _escape(path):
+            # names of different references have to differ, even if identifiers contain underscores
+            return path.replace('_', '@').replace(Node.PATH_SEPARATOR, '_')
+
         result = ExplicitReference(
-            name="er_{field}_{destination}".format(field=field.replace(Node.PATH_SEPARATOR, '_'),
-                                                   destination=destination.replace(
-                                                       Node.PATH_SEPARATOR, '_')),
+            name="er_{field}_{destination}".format(field=_escape(field),
+                                                   destination=_escape(destination)),
             properties=properties)
         result.insert(ResourceReference(name=destination))
         result.insert(FieldReference(name=field))
-- 
2.43.0


From aac770fe87272ae49b522dd91711a8e8c109f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 20/80] fix: references to the same symbol in different
 notations are reported as redefinition

---
 flatdata-generator/flatdata/generator/tree/builder.py    | 7 +++++++
 flatdata-generator/flatdata/generator/tree/nodes/node.py | 3 +--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index 99f959f..d448c8a 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -209,6 +209,13 @@ def _check_const_refs(root):
             raise DuplicateInvalidValueReference(field.name, [x.target for x in invalid_values])
 
 def _check_explicit_references(root):
+    for resource in root.iterate(ResourceBase):
+        existing = {}
+        for reference in resource.explicit_references:
+            key = (reference.field.target, reference.destination.target)
+            if key in existing:
+                raise SymbolRedefinition(duplicate=reference, existing=existing[key])
+            existing[key] = reference
     for reference in root.iterate(ExplicitReference):
         for ref in reference.children_like(StructureReference):
             if not ref.target in [x.target for x in reference.parent.children_like(StructureReference)]:
diff --git a/flatdata-generator/flatdata/generator/tree/nodes/node.py b/flatdata-generator/flatdata/generator/tree/nodes/node.py
index f324d8a..e85a110 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/node.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/node.py
@@ -108,8 +108,7 @@ class Node:
             return
 
         if self.parent is not None and value in self._parent._children:
-            raise RuntimeError(
-                "Cannot rename the node, name {value} is already in use".format(value=value))
+            raise SymbolRedefinition(duplicate=self, existing=self._parent._children[value])
 
         self._name = value
         if self.parent is not None:
-- 
2.43.0


From 1cf72b2635974dec5df223cd495d5a0ef37bc391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 21/80] fix: archives in nested or several root namespaces are
 found by render_python_module

---
 .../flatdata/generator/engine.py              | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/engine.py b/flatdata-generator/flatdata/generator/engine.py
index d568f03..7e14071 100644
--- a/flatdata-generator/flatdata/generator/engine.py
+++ b/flatdata-generator/flatdata/generator/engine.py
@@ -6,7 +6,9 @@
 import types
 
 from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.nodes.trivial.namespace import Namespace
+from flatdata.generator.tree.syntax_tree import SyntaxTree
 
 from .generators.cpp import CppGenerator
 from .generators.dot import DotGenerator
@@ -68,7 +70,11 @@ class Engine:
         :param archive_name: Archive name to lookup,
             if specified, archive type is returned along with the model
         """
-        root_namespace = self._find_root_namespace(self.tree)
+        archive = self._find_archive(archive_name) if archive_name else None
+        if archive is None:
+            root_namespace = self._find_root_namespace(self.tree)
+        else:
+            root_namespace = next(iter(SyntaxTree.namespaces(archive)))
         module_code = self.render("py")
         module = types.ModuleType(module_name if module_name is not None else root_namespace.name)
         #pylint: disable=exec-used
@@ -76,10 +82,25 @@ class Engine:
         if archive_name is None:
             return module
 
-        name = root_namespace.name + "_" + archive_name
-        archive_type = getattr(module, name) if archive_name else None
+        archive_type = None
+        if archive is not None:
+            archive_type = getattr(module, SyntaxTree.namespace_path(archive, "_") + "_" + archive_name)
         return module, archive_type
 
+    def _find_archive(self, name):
+        """
+        Finds the archive for the name of an archive or archive builder
+        """
+        archives = [a for a in self.tree.root.iterate(Archive) if name in (a.name, a.name + "Builder")]
+        if len(archives) > 1:
+            # schemas stored along with an archive are the normalized schema of this archive
+            archives = [a for a in archives if SyntaxTree.schema(a) == self.schema] or archives
+        if not archives:
+            raise RuntimeError("Archive %s not found in schema." % name)
+        if len(archives) > 1:
+            raise RuntimeError("Ambiguous archive name %s." % name)
+        return archives[0]
+
     @classmethod
     def _create_generator(cls, name):
         generator_type = cls._GENERATORS.get(name, None)
-- 
2.43.0


From 5b324a2a1e5554eba6ae054ebf2bb7b4ee7c56a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 22/80] fix: inspector opens archives in tar files

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 5bfdfdc..8ffc6ca 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -72,7 +72,7 @@ def open_archive(path, archive=None, module_name=None):
 
     try:
         module, archive_type = \
-            Engine(schema.read().decode()).render_python_module(module_name=module_name,
+            Engine(bytes(schema).decode()).render_python_module(module_name=module_name,
                                                                 archive_name=archive_name)
     except FlatdataSyntaxError as err:
         raise RuntimeError("Error reading schema: %s " % err)
-- 
2.43.0


From 685ff622f36358b8014461f9b37ca727ca00b74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 23/80] fix: writer determines the archive of a schema by
 parsing it

---
 flatdata-py/flatdata/lib/flatdata_writer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/flatdata_writer.py b/flatdata-py/flatdata/lib/flatdata_writer.py
index c7e6beb..e76c8f0 100644
--- a/flatdata-py/flatdata/lib/flatdata_writer.py
+++ b/flatdata-py/flatdata/lib/flatdata_writer.py
@@ -4,6 +4,8 @@
 '''
 
 from flatdata.generator.engine import Engine
+from flatdata.generator.tree.builder import build_ast
+from flatdata.generator.tree.nodes.archive import Archive
 from flatdata.generator.tree.errors import FlatdataSyntaxError
 
 from .resource_storage import ResourceStorage
@@ -64,9 +66,10 @@ class Writer:
         if not archive_schema:
             raise RuntimeError("Archive schema is required")
 
-        archive_keyword = "archive"
-        index = archive_schema.find(archive_keyword) + len(archive_keyword)
-        if archive_schema[index:].find(archive_keyword) >= 0:
+        archives = list(build_ast(archive_schema).root.iterate(Archive))
+        if not archives:
+            raise RuntimeError("Schema contains no archive")
+        if len(archives) > 1:
             raise RuntimeError(
                 "Schema contains multiple archives, please specify archive name explicitly")
-        return archive_schema[index:index+archive_schema[index:].find("{")].strip()
+        return archives[0].name
-- 
2.43.0


From 92a6ba92442eac99b8b5a98cb8877be73e4c3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 24/80] fix: writer accepts --output-dir as documented

---
 flatdata-py/flatdata/lib/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/writer.py b/flatdata-py/flatdata/lib/writer.py
index e438fe0..db3f2f0 100644
--- a/flatdata-py/flatdata/lib/writer.py
+++ b/flatdata-py/flatdata/lib/writer.py
@@ -11,7 +11,7 @@ from .flatdata_writer import Writer
 
 def main():
     parser = argparse.ArgumentParser()
-    parser.add_argument("-p", "--output-path", type=str, dest="path", required=True,
+    parser.add_argument("-p", "--output-path", "--output-dir", type=str, dest="path", required=True,
                         help="Path to archive")
     parser.add_argument("-s", "--schema", type=str, dest="schema", required=True,
                         help="Archive's schema file")
-- 
2.43.0


From 1e52886d92cd2076ce727de1ab1253672f6a769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 25/80] fix: multivectors with an index of zero bits are
 rejected

---
 .../flatdata/generator/tree/nodes/trivial/field.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
index 2b23c85..ff737f1 100644
--- a/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
+++ b/flatdata-generator/flatdata/generator/tree/nodes/trivial/field.py
@@ -29,7 +29,7 @@ class Field(Node):
     @staticmethod
     def create(properties, offset=None):
         width = None
-        if properties.width:
+        if properties.width not in (None, ''):
             width = int(properties.width)
         return Field(name=properties.name,
                      properties=properties,
-- 
2.43.0


From 9de6e9b15e5777c4770cd6d302ad5edb7023bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 26/80] fix: nested namespaces as in stored schemas are
 accepted

---
 flatdata-generator/flatdata/generator/grammar.py     |  7 ++++---
 .../flatdata/generator/tree/builder.py               | 12 +++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index efa3250..ec6ae35 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -8,7 +8,7 @@
 from pyparsing import (
     Word, alphas, alphanums, nums, cppStyleComment,
     Keyword, Group, Optional, Or, OneOrMore, delimitedList, ZeroOrMore,
-    hexnums, Combine, FollowedBy, ParseException as pyparsingParseException
+    hexnums, Combine, FollowedBy, Forward, ParseException as pyparsingParseException
 )
 
 ParseException = pyparsingParseException
@@ -197,11 +197,12 @@ flatdata_entry = (
 
 free_comments = Optional(OneOrMore(comment)("comment"))
 
-namespace = Group(
+namespace = Forward()
+namespace <<= Group(
     Keyword("namespace") +
     namespace_identifier("name") +
     "{" +
-    ZeroOrMore(flatdata_entry) + "}" +
+    ZeroOrMore(flatdata_entry | namespace.setResultsName("namespaces", listAllMatches=True)) + "}" +
     Optional(comment)
 )
 
diff --git a/flatdata-generator/flatdata/generator/tree/builder.py b/flatdata-generator/flatdata/generator/tree/builder.py
index d448c8a..d175f67 100644
--- a/flatdata-generator/flatdata/generator/tree/builder.py
+++ b/flatdata-generator/flatdata/generator/tree/builder.py
@@ -81,6 +81,13 @@ def _merge_roots(roots):
     return result
 
 
+def _nested_namespaces(namespaces, parent=None):
+    for namespace in namespaces:
+        path = namespace.name if parent is None else parent + Node.PATH_SEPARATOR + namespace.name
+        yield path, namespace
+        yield from _nested_namespaces(namespace.namespaces, path)
+
+
 def _build_node_tree(definition):
     if not definition:
         return Root()
@@ -93,9 +100,8 @@ def _build_node_tree(definition):
 
     roots = []
 
-    for namespace in parsed.namespace:
-        root_namespace, target_namespace = _create_nested_namespaces(
-            namespace.name)
+    for path, namespace in _nested_namespaces(parsed.namespace):
+        root_namespace, target_namespace = _create_nested_namespaces(path)
 
         parsed_items = [
             (namespace.constants, nodes.Constant),
-- 
2.43.0


From 0a491ca104685e25405fe5b93678e6d65558b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 27/80] fix: schemas of resources whose names differ in case
 only are not mixed up in Python

---
 .../flatdata/generator/generators/python.py      |  6 ++++++
 .../generator/templates/py/python.jinja2         | 16 ++++++++--------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/python.py b/flatdata-generator/flatdata/generator/generators/python.py
index 93b69f4..0066e84 100644
--- a/flatdata-generator/flatdata/generator/generators/python.py
+++ b/flatdata-generator/flatdata/generator/generators/python.py
@@ -78,6 +78,12 @@ class PythonGenerator(BaseGenerator):
         def _safe_py_string_line(value):
             return value.replace('\\', '\\\\').replace('"', r'\"')
 
+        def _attribute_name(resource):
+            names = [r.name.upper() for r in resource.parent.resources]
+            # resource names may differ in case only
+            return resource.name if names.count(resource.name.upper()) > 1 else resource.name.upper()
+
+        env.filters["attribute_name"] = _attribute_name
         env.filters["safe_py_string_line"] = _safe_py_string_line
         env.filters['to_python_doc'] = to_python_doc
         env.filters['to_container'] = to_container
diff --git a/flatdata-generator/flatdata/generator/templates/py/python.jinja2 b/flatdata-generator/flatdata/generator/templates/py/python.jinja2
index 4465597..b9cbda1 100644
--- a/flatdata-generator/flatdata/generator/templates/py/python.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/py/python.jinja2
@@ -33,8 +33,8 @@ class {{ tree.namespace_path(struct, "_") }}_{{ struct.name }}(flatdata.structur
 class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archive.Archive):
     _SCHEMA = """{{ tree.schema(archive)|safe_py_string_line }}"""
     {% for resource in archive.resources if not resource|is_bound_resource %}
-    _{{ resource.name|upper }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
-    _{{ resource.name|upper }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
+    _{{ resource|attribute_name }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
+    _{{ resource|attribute_name }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
     {% endfor %}
     _NAME = "{{ archive.name }}"
     _RESOURCES = {
@@ -47,9 +47,9 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archiv
     {% for resource in archive.resources if not resource|is_bound_resource %}
         "{{ resource.name }}": flatdata.archive.ResourceSignature(container={{ resource|to_container}},
             initializer={{ resource|to_initializer(tree) }},
-            schema=_{{  resource.name|upper }}_SCHEMA,
+            schema=_{{ resource|attribute_name }}_SCHEMA,
             is_optional={{ resource.optional }},
-            doc=_{{ resource.name|upper }}_DOC),
+            doc=_{{ resource|attribute_name }}_DOC),
     {% endfor %}
     }
 
@@ -62,8 +62,8 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}(flatdata.archiv
 class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}Builder(flatdata.archive_builder.ArchiveBuilder):
     _SCHEMA = """{{ tree.schema(archive)|safe_py_string_line }}"""
     {% for resource in archive.resources if not resource|is_bound_resource %}
-    _{{ resource.name|upper }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
-    _{{ resource.name|upper }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
+    _{{ resource|attribute_name }}_SCHEMA = """{{ tree.schema(resource)|safe_py_string_line }}"""
+    _{{ resource|attribute_name }}_DOC = """{{ resource.doc|safe_py_string_line }}"""
     {% endfor %}
     _NAME = "{{ archive.name }}"
     _RESOURCES = {
@@ -76,9 +76,9 @@ class {{ tree.namespace_path(archive, "_") }}_{{ archive.name }}Builder(flatdata
     {% for resource in archive.resources if not resource|is_bound_resource %}
         "{{ resource.name }}": flatdata.archive_builder.ResourceSignature(container={{ resource|to_container}},
             initializer={{ resource|to_initializer(tree) }},
-            schema=_{{  resource.name|upper }}_SCHEMA,
+            schema=_{{ resource|attribute_name }}_SCHEMA,
             is_optional={{ resource.optional }},
-            doc=_{{ resource.name|upper }}_DOC),
+            doc=_{{ resource|attribute_name }}_DOC),
     {% endfor %}
     }
 
-- 
2.43.0


From 378718a29e13fa861e6fcb4a158b117e983447e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 28/80] fix: signed enumerations keep neighbouring bits and
 compile with their full width in C++

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 12 +++++++++---
 flatdata-cpp/include/flatdata/internal/Writer.h |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 74c3514..ab18b71 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -39,16 +39,22 @@ struct Reader
     {
         bit_width = num_bits
     };
+    enum : bool
+    {
+        // enumerations count as unsigned, unless their limits would not fit the underlying type
+        is_signed = std::is_signed< T >::value
+                    || ( IsSigned< T >::value && bit_width == sizeof( T ) * 8 )
+    };
     enum : typename UnderlyingType< T >::type
     {
         max = bit_width == 0 ? 0
-                             : ( bit_width - std::is_signed< T >::value
+                             : ( bit_width - is_signed
                                          == sizeof( typename BitsToUnsigned< num_bits >::type ) * 8
                                      ? typename BitsToUnsigned< num_bits >::type( -1 )
                                      : ( typename BitsToUnsigned< num_bits >::type( 1 )
-                                         << ( bit_width - std::is_signed< T >::value ) )
+                                         << ( bit_width - is_signed ) )
                                            - 1 ),
-        min = bit_width == 0 || !std::is_signed< T >::value
+        min = bit_width == 0 || !is_signed
                   ? static_cast< typename UnderlyingType< T >::type >( 0 )
                   : static_cast< typename UnderlyingType< T >::type >( -max - 1 )
     };
diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 230e861..0f54578 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -53,7 +53,7 @@ struct Writer
         static const int BIT_OFFSET = offset % 8;
 
         auto value_to_store = static_cast< UnsignedType >( t );
-        if ( std::is_signed< T >::value )
+        if ( IsSigned< T >::value )
         {
             // negative numbers are stored as 2-complement, and we need to remove upper bits
             value_to_store = masked< num_bits >( value_to_store );
-- 
2.43.0


From 82f773d24bfe422596e6146a988112bfd6aaf264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 29/80] fix: signed fields of one bit are read back as written

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 4 +++-
 flatdata-py/flatdata/lib/data_access.py         | 6 ++++--
 flatdata-rs/lib/src/bytereader.rs               | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index ab18b71..3b66c44 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -89,7 +89,9 @@ struct Reader
 
         if ( num_bits == 1 )
         {
-            return static_cast< T >( ( data[ BYTE_OFFSET ] & ( 1 << BIT_OFFSET ) ) != 0 );
+            // the only bit of a signed type is its sign
+            const bool is_set = ( data[ BYTE_OFFSET ] & ( 1 << BIT_OFFSET ) ) != 0;
+            return static_cast< T >( IsSigned< T >::value ? -int( is_set ) : int( is_set ) );
         }
 
         UnsignedType result;
diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index 9d2ed6c..cab7578 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -12,7 +12,9 @@ def read_value(data, offset_bits, num_bits, is_signed):
     total_bytes = (num_bits + 7) // 8
 
     if num_bits == 1:
-        return int((data[offset_bytes] & (1 << offset_extra_bits)) != 0)
+        is_set = int((data[offset_bytes] & (1 << offset_extra_bits)) != 0)
+        # the only bit of a signed type is its sign
+        return -is_set if is_signed else is_set
 
     result = int.from_bytes(data[offset_bytes: offset_bytes + total_bytes], byteorder="little")
     result >>= offset_extra_bits
@@ -35,7 +37,7 @@ def write_value(data, offset_bits, num_bits, is_signed, value):
     total_bytes = (num_bits + 7) // 8
 
     if num_bits == 1:
-        if value == 1:
+        if value & 1:
             data[offset_bytes] |= 1 << offset_extra_bits
         else:
             data[offset_bytes] &= ~(1 << offset_extra_bits)
diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 99376c5..1eb7400 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -53,7 +53,8 @@ macro_rules! flatdata_read_bytes {
         let data: *const u8 = unsafe { bytes.add(byte_offset) };
 
         if $num_bits == 1 {
-            (unsafe { *data } & (1 << bit_offset) != 0) as $T
+            let bit = u64::from(unsafe { *data } >> bit_offset & 1);
+            flatdata_read_bytes!(@extend, $T, bit, $num_bits)
         } else {
             let num_bytes: usize = std::cmp::min( 8, ($num_bits + bit_offset + 7) / 8);
             let mut result: u64 = 0;
-- 
2.43.0


From 812839bd807ca221da55c972c4ae37b9476a7bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 30/80] fix: Rust accesses the ninth byte of an unaligned field
 relative to the field

---
 flatdata-rs/lib/src/bytereader.rs | 2 +-
 flatdata-rs/lib/src/bytewriter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 1eb7400..51a61b6 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -64,7 +64,7 @@ macro_rules! flatdata_read_bytes {
 
             let read_bits = num_bytes * 8 - bit_offset;
             if read_bits < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << read_bits % (num_bytes * 8);
             }
             result = flatdata_read_bytes!(@mask, result, $num_bits);
diff --git a/flatdata-rs/lib/src/bytewriter.rs b/flatdata-rs/lib/src/bytewriter.rs
index 2275e14..c931880 100644
--- a/flatdata-rs/lib/src/bytewriter.rs
+++ b/flatdata-rs/lib/src/bytewriter.rs
@@ -65,7 +65,7 @@ macro_rules! flatdata_write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes * 8);
             value_mask >>= batched_bits_written % (num_bytes * 8);
             unsafe {
-- 
2.43.0


From aa812f0e73797bc13a2a24cc6ccd302a45d7a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 31/80] fix: bool constants and enumerations of type bool
 compile in Rust

---
 flatdata-generator/flatdata/generator/generators/rust.py    | 6 ++++++
 .../flatdata/generator/templates/rust/constant.jinja2       | 2 +-
 .../flatdata/generator/templates/rust/enumeration.jinja2    | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 7751fee..dcf4d40 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -111,6 +111,12 @@ class RustGenerator(BaseGenerator):
             x for x in l if not isinstance(x, BoundResource)]
 
         env.filters["format_numeric_literal"] = RustGenerator._format_numeric_literal
+        env.filters["constant_literal"] = lambda constant: (
+            str(bool(constant.value)).lower() if constant.type.name == "bool"
+            else RustGenerator._format_numeric_literal(constant.value))
+        # bool is no valid representation of an enumeration
+        env.filters["enum_repr"] = lambda enum: (
+            "u8" if enum.type.name == "bool" else enum.type.name)
 
         env.filters["has_range"] = lambda struct: any(
             field.range for field in struct.fields)
diff --git a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
index 614c6fa..ea00254 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/constant.jinja2
@@ -3,5 +3,5 @@
 {% if node.doc %}
     {{ node.doc | rust_doc }}
 {% endif %}
-pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {{ node.value | format_numeric_literal }};
+pub const {{ node.name | camel_to_snake_case | upper }}: {{ node.type.name }} = {{ node | constant_literal }};
 {%- endmacro %}
diff --git a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
index 784ce67..217473f 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/enumeration.jinja2
@@ -4,7 +4,7 @@
 {{ enum.doc | rust_doc }}
 {% endif %}
 #[derive(Debug, PartialEq, Eq)]
-#[repr({{ enum.type.name }})]
+#[repr({{ enum | enum_repr }})]
 pub enum {{ enum.name }} {
     {% for value in enum.values %}
     {% if value.doc %}
-- 
2.43.0


From 672a95b38a148c8337d66bd2134939909d428fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 32/80] fix: optional fields can be assigned from
 boost::optional

---
 flatdata-cpp/include/flatdata/internal/Writer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 0f54578..7ed7c3c 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -137,12 +137,13 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
     {
         if ( t )
         {
-            Writer< T, offset, num_bits >{ data } = t;
+            Writer< T, offset, num_bits >{ data } = *t;
         }
         else
         {
             Writer< T, offset, num_bits >{ data } = INVALID_VALUE;
         }
+        return *this;
     }
 };
 
-- 
2.43.0


From 7b1324e107ddd171b863b11ce79118153d41a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 33/80] fix: Go extends the sign of unaligned fields within one
 byte

---
 flatdata-go/flatdata/reader.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatdata-go/flatdata/reader.go b/flatdata-go/flatdata/reader.go
index a48d20e..7f6d6a1 100644
--- a/flatdata-go/flatdata/reader.go
+++ b/flatdata-go/flatdata/reader.go
@@ -28,11 +28,12 @@ func Read(descriptor MemoryDescriptor, offset, size uint, signed bool) int {
 		result = currentByte >> localOffset
 		if bitsLeft <= (8 - localOffset) {
 			result &= (1 << bitsLeft) - 1
-			return int(result)
+			bitsLeft = 0
+		} else {
+			bitsLeft -= 8 - localOffset
+			currentIndex++
+			currentByte = uint(descriptor.At(int(currentIndex)))
 		}
-		bitsLeft -= 8 - localOffset
-		currentIndex++
-		currentByte = uint(descriptor.At(int(currentIndex)))
 	}
 
 	for bitsLeft >= 8 {
-- 
2.43.0


From 48cdadc091f36a2bc83ff96c074c53b8adfd829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 34/80] fix: C++ rejects single structs whose resource is
 shorter than the struct

---
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0520da2..5b1ca27 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -27,7 +27,7 @@ struct ValueCreator
     operator( )( const char* resource, const char* schema, Loader&& loader )
     {
         auto data = loader( resource, schema );
-        if ( !data )
+        if ( !data || data.size_in_bytes( ) < T::size_in_bytes( ) )
         {
             return boost::none;
         }
-- 
2.43.0


From 7f6d9d8ea9e9d777d6d0825ae47e44bb606def59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 35/80] fix: context of schema differences is computed within
 bounds

---
 flatdata-cpp/src/Archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 4fb7a83..a98cfd2 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -99,7 +99,7 @@ create_context( const std::vector< std::string >& diff )
             lines_to_go = context_lines;
         }
 
-        result_mask[ i ] = lines_to_go >= 0;
+        result_mask[ i - 1 ] = lines_to_go >= 0;
     }
     lines_to_go = -1;
     for ( size_t i = 0; i < diff.size( ); i++, lines_to_go-- )
-- 
2.43.0


From b32d154e37f1420f18729217a620915db359f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 36/80] fix: describing a schema mismatch does not read past
 the stored schema

---
 flatdata-cpp/src/Archive.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index a98cfd2..004f9f9 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -61,23 +61,21 @@ Archive::storage( ) const
 namespace
 {
 std::vector< std::string >
-to_lines( const char* string )
+to_lines( const std::string& string )
 {
     std::vector< std::string > result;
-    if ( string )
+    auto it = string.begin( );
+    while ( it != string.end( ) )
     {
-        while ( *string )
+        auto begin = it;
+        while ( it != string.end( ) && *it != '\n' )
         {
-            auto begin = string;
-            while ( *string && *string != '\n' )
-            {
-                string++;
-            }
-            result.emplace_back( begin, string );
-            if ( *string )
-            {
-                string++;
-            }
+            it++;
+        }
+        result.emplace_back( begin, it );
+        if ( it != string.end( ) )
+        {
+            it++;
         }
     }
 
@@ -129,14 +127,16 @@ create_context( const std::vector< std::string >& diff )
 }
 
 std::string
-compute_diff( const char* expected, const char* found )
+compute_diff( const char* expected, const MemoryDescriptor& found )
 {
     if ( !found )
     {
         return { };
     }
     std::vector< std::string > lines_expected = to_lines( expected );
-    std::vector< std::string > lines_found = to_lines( found );
+    // stored schemas are not necessarily null-terminated
+    std::vector< std::string > lines_found
+        = to_lines( std::string( found.char_ptr( ), found.size_in_bytes( ) ) );
     size_t expected_length = lines_expected.size( ) + 1;
     size_t found_length = lines_found.size( ) + 1;
 
@@ -259,7 +259,7 @@ Archive::describe( size_t nest_level ) const
                << ( is_root_node ? newl : empty ) << hline;
         result << compute_diff(
             schema( ),
-            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ).char_ptr( ) );
+            m_storage->read_schema( internal::signature_name( name( ) ).c_str( ) ) );
         return result.str( );
     }
 
-- 
2.43.0


From 95dba0c624404affbbecf909126e250bc7953023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 37/80] fix: an external vector that was not closed is never
 read as an empty one

---
 flatdata-cpp/include/flatdata/internal/ResourceHandle.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
index e77f196..54e6780 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
+++ b/flatdata-cpp/include/flatdata/internal/ResourceHandle.h
@@ -14,6 +14,7 @@
 #include <exception>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <memory>
 
 namespace flatdata
@@ -58,7 +59,9 @@ ResourceHandle::create( std::shared_ptr< std::ostream > stream,
 
     result->m_resource_reader = std::move( resource_reader );
 
-    resource_storage::write_to_stream< resource_storage::size_type >( *result->m_stream, 0 );
+    // the real size is written on close, until then the resource must not look like a complete one
+    resource_storage::write_to_stream< resource_storage::size_type >(
+        *result->m_stream, std::numeric_limits< resource_storage::size_type >::max( ) );
     return result;
 }
 
-- 
2.43.0


From ad4750edc7ff15dd9408ad7919f6ddc6e3b6f729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 38/80] fix: C++ reports resources whose output stream cannot
 be created instead of crashing

---
 flatdata-cpp/include/flatdata/ExternalVector.h             | 7 +++++--
 flatdata-cpp/include/flatdata/MultiVector.h                | 7 +++++--
 flatdata-cpp/include/flatdata/internal/ResourceStorage.inl | 4 ++++
 flatdata-cpp/src/ResourceStorage.cpp                       | 4 ++++
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ExternalVector.h b/flatdata-cpp/include/flatdata/ExternalVector.h
index 6dd7c14..fe0febb 100644
--- a/flatdata-cpp/include/flatdata/ExternalVector.h
+++ b/flatdata-cpp/include/flatdata/ExternalVector.h
@@ -97,7 +97,10 @@ template < typename T >
 void
 ExternalVector< T >::flush( )
 {
-    m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_array )
+    {
+        m_array->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
 }
@@ -107,7 +110,7 @@ ArrayView< T >
 ExternalVector< T >::close( )
 {
     flush( );
-    MemoryDescriptor data = m_array->close( );
+    MemoryDescriptor data = m_array ? m_array->close( ) : MemoryDescriptor( );
     return data ? ArrayView< T >{ data.data( ), data.data( ) + data.size_in_bytes( ) }
                 : ArrayView< T >{ };
 }
diff --git a/flatdata-cpp/include/flatdata/MultiVector.h b/flatdata-cpp/include/flatdata/MultiVector.h
index 62ae109..3d1ded1 100644
--- a/flatdata-cpp/include/flatdata/MultiVector.h
+++ b/flatdata-cpp/include/flatdata/MultiVector.h
@@ -142,7 +142,7 @@ MultiVector< IndexType, Args... >::close( )
     add_to_index( );  // sentinel for last item
     flush( );
 
-    MemoryDescriptor data = m_handle->close( );
+    MemoryDescriptor data = m_handle ? m_handle->close( ) : MemoryDescriptor( );
     ArrayView< IndexType > index_view = m_index.close( );
     if ( !data || !index_view )
     {
@@ -163,7 +163,10 @@ template < typename IndexType, typename... Args >
 void
 MultiVector< IndexType, Args... >::flush( )
 {
-    m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    if ( m_handle )
+    {
+        m_handle->write( m_data.data( ), m_data.size( ) - PADDING_SIZE );
+    }
     m_size_flushed += m_data.size( ) - PADDING_SIZE;
     m_data.resize( 0 );
     m_data.resize( PADDING_SIZE );
diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 5b1ca27..0957b38 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -134,6 +134,10 @@ ResourceStorage::write_schema( const char* resource_name, const char* schema )
 {
     auto schema_stream
         = create_output_stream( ( std::string( resource_name ) + ".schema" ).c_str( ) );
+    if ( !schema_stream )
+    {
+        return false;
+    }
     *schema_stream << schema;
     schema_stream->flush( );
     return static_cast< bool >( *schema_stream );
diff --git a/flatdata-cpp/src/ResourceStorage.cpp b/flatdata-cpp/src/ResourceStorage.cpp
index d14192e..631a750 100644
--- a/flatdata-cpp/src/ResourceStorage.cpp
+++ b/flatdata-cpp/src/ResourceStorage.cpp
@@ -17,6 +17,10 @@ ResourceStorage::write_to_stream( const char* resource_name,
                                   size_t size_in_bytes )
 {
     auto stream = create_output_stream( resource_name );
+    if ( !stream )
+    {
+        return false;
+    }
     resource_storage::write_to_stream( *stream, size_in_bytes );
     stream->write( reinterpret_cast< const char* >( data ), size_in_bytes );
     resource_storage::write_padding( *stream );
-- 
2.43.0


From ec0605931e5f64bc3e1f9ffe274248348703c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:21 +0000
Subject: [PATCH 39/80] fix: opening a C++ archive builder without storage
 fails instead of crashing

---
 flatdata-cpp/src/ArchiveBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-cpp/src/ArchiveBuilder.cpp b/flatdata-cpp/src/ArchiveBuilder.cpp
index 4333b5d..4d5e48d 100644
--- a/flatdata-cpp/src/ArchiveBuilder.cpp
+++ b/flatdata-cpp/src/ArchiveBuilder.cpp
@@ -55,6 +55,11 @@ ArchiveBuilder::check_created( ) const
 bool
 ArchiveBuilder::initialize( )
 {
+    if ( !m_storage )
+    {
+        return false;
+    }
+
     const auto signature_name = internal::signature_name( name( ) );
     if ( !storage( ).exists( signature_name.c_str( ) ) )
     {
-- 
2.43.0


From 0a8265e6273cbbb8bece7c7ae2837692213f7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:35 +0000
Subject: [PATCH 40/80] fix: elements added to a C++ vector after removing
 others are zero-initialized

---
 flatdata-cpp/include/flatdata/Vector.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/Vector.h b/flatdata-cpp/include/flatdata/Vector.h
index 20579bd..95344ff 100644
--- a/flatdata-cpp/include/flatdata/Vector.h
+++ b/flatdata-cpp/include/flatdata/Vector.h
@@ -8,6 +8,7 @@
 #include "ArrayView.h"
 #include "internal/Constants.h"
 
+#include <algorithm>
 #include <type_traits>
 #include <vector>
 
@@ -135,6 +136,8 @@ void
 Vector< T >::resize( size_t size )
 {
     m_data.resize( size * T::size_in_bytes( ) + PADDING_SIZE );
+    // removed elements must not leave data in the padding, it becomes part of new elements
+    std::fill( m_data.end( ) - PADDING_SIZE, m_data.end( ), 0 );
 }
 
 template < typename T >
@@ -157,7 +160,7 @@ template < typename T >
 void
 Vector< T >::pop_back( )
 {
-    m_data.resize( m_data.size( ) - T::size_in_bytes( ) );
+    resize( size( ) - 1 );
 }
 
 template < typename T >
-- 
2.43.0


From 107ab85b2d8f4334d054c89ce713fe3e4a118370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 41/80] fix: empty C++ array views of structs with ranges have
 no bytes

---
 flatdata-cpp/include/flatdata/ArrayView.h     |  3 ++-
 .../include/flatdata/internal/ArrayView.inl   | 24 +++++++++++--------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/ArrayView.h b/flatdata-cpp/include/flatdata/ArrayView.h
index f24d2f7..62a271c 100644
--- a/flatdata-cpp/include/flatdata/ArrayView.h
+++ b/flatdata-cpp/include/flatdata/ArrayView.h
@@ -50,9 +50,10 @@ public:
 
 private:
     ArrayView( ConstStreamType data, size_t size );
+    size_t sentinel_size( ) const;
 
     ConstStreamType m_data;
-    size_t m_size;
+    size_t m_size;  // including the sentinel of overlapping structures
 };
 
 }  // namespace flatdata
diff --git a/flatdata-cpp/include/flatdata/internal/ArrayView.inl b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
index 76c5a8f..7c50452 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayView.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayView.inl
@@ -12,10 +12,6 @@ ArrayView< T >::ArrayView( ConstStreamType data_begin, ConstStreamType data_end
     : m_data( data_begin )
     , m_size( ( data_end - data_begin ) / T::size_in_bytes( ) )
 {
-    if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )
-    {
-        m_size--;
-    }
 }
 
 template < typename T >
@@ -50,7 +46,14 @@ template < typename T >
 size_t
 ArrayView< T >::size_in_bytes( ) const
 {
-    return ( m_size + ( T::IS_OVERLAPPING_WITH_NEXT ? 1 : 0 ) ) * T::size_in_bytes( );
+    return m_size * T::size_in_bytes( );
+}
+
+template < typename T >
+size_t
+ArrayView< T >::sentinel_size( ) const
+{
+    return T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 ? 1 : 0;
 }
 
 template < typename T >
@@ -64,35 +67,36 @@ template < typename T >
 size_t
 ArrayView< T >::size( ) const
 {
-    return m_size;
+    return m_size - sentinel_size( );
 }
 
 template < typename T >
 bool
 ArrayView< T >::empty( ) const
 {
-    return m_size == 0;
+    return size( ) == 0;
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( size_t pos, size_t length ) const
 {
-    return ArrayView( m_data + pos * T::size_in_bytes( ), length );
+    return ArrayView( m_data + pos * T::size_in_bytes( ), length + sentinel_size( ) );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice( std::pair< size_t /*start*/, size_t /*end*/ > range ) const
 {
-    return ArrayView( m_data + range.first * T::size_in_bytes( ), range.second - range.first );
+    return ArrayView( m_data + range.first * T::size_in_bytes( ),
+                      range.second - range.first + sentinel_size( ) );
 }
 
 template < typename T >
 ArrayView< T >
 ArrayView< T >::slice_before( size_t pos ) const
 {
-    return ArrayView( m_data, pos );
+    return ArrayView( m_data, pos + sentinel_size( ) );
 }
 
 template < typename T >
-- 
2.43.0


From 7fc1de56a76a606aeaf2e7aed9d78ada0f33d6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 42/80] fix: distances and offsets of C++ array iterators can
 be negative

---
 .../include/flatdata/internal/ArrayViewIterator.inl       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
index 7862702..766ec9b 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.inl
@@ -64,7 +64,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator+=( difference_type offset )
 {
-    m_ptr += T::size_in_bytes( ) * offset;
+    m_ptr += static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -72,7 +72,7 @@ template < typename T >
 ArrayViewIterator< T >&
 ArrayViewIterator< T >::operator-=( difference_type offset )
 {
-    m_ptr -= T::size_in_bytes( ) * offset;
+    m_ptr -= static_cast< difference_type >( T::size_in_bytes( ) ) * offset;
     return *this;
 }
 
@@ -98,7 +98,7 @@ template < typename T >
 typename ArrayViewIterator< T >::difference_type
 ArrayViewIterator< T >::operator-( const ArrayViewIterator& other ) const
 {
-    return ( m_ptr - other.m_ptr ) / T::size_in_bytes( );
+    return ( m_ptr - other.m_ptr ) / static_cast< difference_type >( T::size_in_bytes( ) );
 }
 
 template < typename T >
@@ -154,7 +154,7 @@ template < typename T >
 typename ArrayViewIterator< T >::ConstValueType
 ArrayViewIterator< T >::operator[]( difference_type index ) const
 {
-    return ConstValueType{ m_ptr + T::size_in_bytes( ) * index };
+    return *( *this + index );
 }
 
 template < typename T >
-- 
2.43.0


From 1e931259bc119492972133dd369d22c6133ee41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:06 +0000
Subject: [PATCH 43/80] fix: reversed C++ array iterators do not refer to
 temporaries

---
 flatdata-cpp/include/flatdata/internal/ArrayViewIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.h b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.h
index da5855f..fa03909 100644
--- a/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.h
+++ b/flatdata-cpp/include/flatdata/internal/ArrayViewIterator.h
@@ -22,7 +22,7 @@ public:
     using value_type = ConstValueType;
     using difference_type = ptrdiff_t;
     using pointer = const ConstValueType*;
-    using reference = const ConstValueType&;
+    using reference = ConstValueType;
 
     class PointerWrapper
     {
-- 
2.43.0


From 78aaa465bf94d6a5e95753c22cd69b5aabe20522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 44/80] fix: schema differences show the same context as
 before, within bounds

---
 flatdata-cpp/src/Archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/Archive.cpp b/flatdata-cpp/src/Archive.cpp
index 004f9f9..c27dba3 100644
--- a/flatdata-cpp/src/Archive.cpp
+++ b/flatdata-cpp/src/Archive.cpp
@@ -97,7 +97,10 @@ create_context( const std::vector< std::string >& diff )
             lines_to_go = context_lines;
         }
 
-        result_mask[ i - 1 ] = lines_to_go >= 0;
+        if ( i < diff.size( ) )
+        {
+            result_mask[ i ] = lines_to_go >= 0;
+        }
     }
     lines_to_go = -1;
     for ( size_t i = 0; i < diff.size( ); i++, lines_to_go-- )
-- 
2.43.0


From 2f2b8f6f48a04b492c5446b9fc4e9f6e4e315ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 45/80] fix: long names of directories in tar files do not
 become names of files

---
 flatdata-cpp/src/TarReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 6a35034..2cae93c 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -157,6 +157,7 @@ read_tar_file_entries( MemoryDescriptor data )
         else if ( header.typeflag == DIRTYPE )
         {
             // Skip directories
+            long_name.clear( );
         }
         else if ( header.typeflag == GNUTYPE_LONGNAME )
         {
-- 
2.43.0


From 4062ea9c3d356d3dda96b8c5af78822e35faaa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 46/80] fix: file sizes in tar headers cannot move the reader
 backwards

---
 flatdata-cpp/src/TarReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 2cae93c..0bee1b5 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -151,6 +151,12 @@ read_tar_file_entries( MemoryDescriptor data )
             file.size = file_size;
             file_entries.emplace_back( file );
 
+            if ( file_size > data.size( ) - offset )
+            {
+                // TAR file ends within the contents of this file
+                break;
+            }
+
             const size_t padding = ( BLOCK_SIZE - ( file_size % BLOCK_SIZE ) ) % BLOCK_SIZE;
             offset += file_size + padding;
         }
-- 
2.43.0


From 1d8ab31a2a9955a7acbd4df2db5beef6f23c514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 47/80] fix: paths split into prefix and name in tar files are
 read completely

---
 flatdata-cpp/src/TarReader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index 0bee1b5..e4d9958 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -137,6 +137,14 @@ read_tar_file_entries( MemoryDescriptor data )
         if ( header.typeflag == REGTYPE || header.typeflag == AREGTYPE )
         {
             std::string file_name( header.name, strnlen( header.name, sizeof( header.name ) ) );
+            // POSIX headers contain the beginning of long paths separately
+            if ( std::memcmp( header.magic, "ustar", sizeof( header.magic ) ) == 0
+                 && header.prefix[ 0 ] != '\0' )
+            {
+                file_name
+                    = std::string( header.prefix, strnlen( header.prefix, sizeof( header.prefix ) ) )
+                      + "/" + file_name;
+            }
             if ( !long_name.empty( ) )
             {
                 file_name = std::move( long_name );
-- 
2.43.0


From f2c6b1dacd034415a01d845e079b6fe4892b7c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 48/80] fix: numbers padded with spaces are accepted in tar
 headers

---
 flatdata-cpp/src/TarReader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/src/TarReader.cpp b/flatdata-cpp/src/TarReader.cpp
index e4d9958..3643183 100644
--- a/flatdata-cpp/src/TarReader.cpp
+++ b/flatdata-cpp/src/TarReader.cpp
@@ -69,7 +69,13 @@ decode_numeric_field( const char* data, size_t size )
 
     // Decode octal number
     uint64_t value = 0;
-    for ( size_t idx = 0; idx < size && data[ idx ] != '\0'; ++idx )
+    size_t idx = 0;
+    while ( idx < size && data[ idx ] == ' ' )
+    {
+        ++idx;
+    }
+    // Numbers are terminated by null or space
+    for ( ; idx < size && data[ idx ] != '\0' && data[ idx ] != ' '; ++idx )
     {
         if ( value > MAX_VALUE / 8 )
         {
-- 
2.43.0


From e16c1e82e49aa748ae78a90d42ffffb0089843cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:39 +0000
Subject: [PATCH 49/80] fix: C++ reads the last version of files updated in a
 tar file

---
 .../include/flatdata/MemoryMappedTarFileStorage.h        | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
index cb2da3b..e2df91b 100644
--- a/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryMappedTarFileStorage.h
@@ -62,11 +62,10 @@ inline MemoryMappedTarFileStorage::MemoryMappedTarFileStorage( const char* tar_p
     for ( const auto& file : file_entries )
     {
         std::string path = file.name.substr( 0, 2 ) == "./" ? file.name.substr( 2 ) : file.name;
-        m_files.emplace(
-            std::move( path ),
-            MemoryDescriptor(
-                static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
-                std::min( file.size, m_region.get_size( ) - file.offset ) ) );
+        // files appended later replace earlier ones of the same name
+        m_files[ path ] = MemoryDescriptor(
+            static_cast< const unsigned char* >( m_region.get_address( ) ) + file.offset,
+            std::min( file.size, m_region.get_size( ) - file.offset ) );
     }
 }
 
-- 
2.43.0


From 2924adc813d9581eae375c86c8c865f09493cd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 50/80] fix: memory storages of sub-directories are protected
 by the same mutex

---
 .../include/flatdata/MemoryResourceStorage.h   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
index f8dbf72..fdc5853 100644
--- a/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
+++ b/flatdata-cpp/include/flatdata/MemoryResourceStorage.h
@@ -25,6 +25,7 @@ class MemoryResourceStorage : public ResourceStorage
         std::map< std::string, std::shared_ptr< std::stringstream > > streams;
         std::map< std::string, std::shared_ptr< std::string > > resources;
         std::set< std::string > created_directories;
+        std::mutex mutex;  // shared with storages of sub-directories
 
         ~Storage( );
     };
@@ -55,7 +56,6 @@ private:
 
 private:
     std::shared_ptr< Storage > m_storage;
-    mutable std::mutex m_storage_mutex;
     std::string m_path;
 };
 
@@ -73,7 +73,7 @@ MemoryResourceStorage::create_output_stream( const char* key )
     std::shared_ptr< std::stringstream > result(
         new std::stringstream( std::ofstream::out | std::ofstream::binary ) );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->streams[ get_path( key ) ] = result;
 
     return result;
@@ -110,7 +110,7 @@ MemoryResourceStorage::read_resource( const char* key )
 {
     const auto path = get_path( key );
 
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->resources.count( path ) == 0 )
     {
         auto found = m_storage->streams.find( path );
@@ -136,7 +136,7 @@ MemoryResourceStorage::read_resource( const char* key )
 inline void
 MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert( std::make_pair(
         std::string( key ),
         std::make_shared< std::string >( value.char_ptr( ), value.size_in_bytes( ) ) ) );
@@ -151,7 +151,7 @@ MemoryResourceStorage::assign_value( const char* key, MemoryDescriptor value )
 inline void
 MemoryResourceStorage::assign_value( const char* key, const char* value )
 {
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->resources.insert(
         std::make_pair( std::string( key ), std::make_shared< std::string >( value ) ) );
 #ifdef DEBUG_DATA_ACCESS_STATISTICS
@@ -166,7 +166,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::create_directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     m_storage->created_directories.insert( new_path );
     return std::unique_ptr< MemoryResourceStorage >(
         new MemoryResourceStorage( m_storage, new_path ) );
@@ -176,7 +176,7 @@ inline std::unique_ptr< ResourceStorage >
 MemoryResourceStorage::directory( const char* key )
 {
     const auto new_path = get_path( key ) + "/";
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     if ( m_storage->created_directories.find( new_path ) == m_storage->created_directories.end( ) )
     {
         return nullptr;
@@ -253,7 +253,7 @@ inline bool
 MemoryResourceStorage::exists( const char* key )
 {
     auto path = get_path( key );
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     return m_storage->resources.count( path ) != 0 || m_storage->streams.count( path ) != 0
            || helpers::prefix_exists( m_storage->resources, path + "/" )
            || helpers::prefix_exists( m_storage->streams, path + "/" );
@@ -268,7 +268,7 @@ MemoryResourceStorage::dump_resources( bool dump_schemas, ResourceSerializer&& f
     };
 
     std::ostringstream ss;
-    std::lock_guard< std::mutex > lock( m_storage_mutex );
+    std::lock_guard< std::mutex > lock( m_storage->mutex );
     for ( auto& resource : m_storage->resources )
     {
         if ( !is_schema( resource.first ) || dump_schemas )
-- 
2.43.0


From 1a22418d1eeb0a363ff609a6e5f1b0157fe86d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 51/80] fix: errors while writing the schema of external
 vectors are reported on close

---
 .../include/flatdata/internal/ResourceStorage.inl   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
index 0957b38..7e3b64d 100644
--- a/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
+++ b/flatdata-cpp/include/flatdata/internal/ResourceStorage.inl
@@ -188,7 +188,10 @@ template < typename T >
 ExternalVector< T >
 ResourceStorage::create_external_vector( const char* resource_name, const char* schema )
 {
-    write_schema( resource_name, schema );
+    if ( !write_schema( resource_name, schema ) )
+    {
+        return ExternalVector< T >( std::unique_ptr< ResourceHandle >( ) );
+    }
     auto data_stream = create_output_stream( resource_name );
     return ExternalVector< T >( ResourceHandle::create(
         std::move( data_stream ), internal::ResourceReader( this, resource_name, schema ) ) );
@@ -202,9 +205,11 @@ ResourceStorage::create_multi_vector( const char* resource_name, const char* sch
     auto index = create_external_vector< IndexType >(
         index_name.c_str( ), internal::multivector_index_schema( schema ).c_str( ) );
 
-    write_schema( resource_name, schema );
-
-    auto data_stream = create_output_stream( resource_name );
+    std::shared_ptr< std::ostream > data_stream;
+    if ( write_schema( resource_name, schema ) )
+    {
+        data_stream = create_output_stream( resource_name );
+    }
     return MultiVector< IndexType, Args... >(
         std::move( index ),
         ResourceHandle::create( std::move( data_stream ),
-- 
2.43.0


From 2a48cfaa6f076e5d6249b1cc9b71b11494ad310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 52/80] fix: for_each of a multivector visits the requested
 types only

---
 flatdata-cpp/include/flatdata/MultiArrayView.h |  5 ++++-
 .../flatdata/internal/MultiArrayViewImpl.h     | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/MultiArrayView.h b/flatdata-cpp/include/flatdata/MultiArrayView.h
index be43699..9aea08c 100644
--- a/flatdata-cpp/include/flatdata/MultiArrayView.h
+++ b/flatdata-cpp/include/flatdata/MultiArrayView.h
@@ -87,7 +87,10 @@ public:
     void
     for_each( uint64_t index, F&& callback ) const
     {
-        for_each_impl( index, std::forward< F >( callback ) );
+        using AcceptedTypes =
+            typename static_list::map< internal::get_accessor_type,
+                                       AcceptedArgsList< AcceptedArgs... > >::type;
+        for_each_impl( index, internal::TypeFilter< F&, AcceptedTypes >{ callback } );
     }
 
     /** Show static assert of failed explicit check */
diff --git a/flatdata-cpp/include/flatdata/internal/MultiArrayViewImpl.h b/flatdata-cpp/include/flatdata/internal/MultiArrayViewImpl.h
index af57db0..f2a7ae8 100644
--- a/flatdata-cpp/include/flatdata/internal/MultiArrayViewImpl.h
+++ b/flatdata-cpp/include/flatdata/internal/MultiArrayViewImpl.h
@@ -9,6 +9,8 @@
 #include "functional/StaticList.h"
 #include "functional/Utility.h"
 
+#include <type_traits>
+
 namespace flatdata
 {
 namespace internal
@@ -85,5 +87,21 @@ struct ImplicitForEachAssert
                        "the container." );
     }
 };
+
+/** Callback which accepts only objects of the listed types, and forwards those to F */
+template < typename F, typename AcceptedTypes >
+struct TypeFilter
+{
+    F callback;
+
+    template < typename T,
+               typename
+               = typename std::enable_if< static_list::contains< AcceptedTypes, T >::value >::type >
+    void
+    operator( )( T object )
+    {
+        callback( object );
+    }
+};
 }  // namespace internal
 }  // namespace flatdata
-- 
2.43.0


From f888abafb5608e6342edadd4bf973e81336ee81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 53/80] fix: Rust: a damaged size of a resource is an error
 instead of an overflow

---
 flatdata-rs/lib/src/storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index d3c4eab..6d843ee 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -111,8 +111,10 @@ pub trait ResourceStorage: std::fmt::Debug {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-        let size = flatdata_read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        // the stored size might be arbitrarily wrong, nothing may be added to it
+        let size = flatdata_read_bytes!(SizeType, data.as_ptr());
+        let expected_size = data.len() - mem::size_of::<SizeType>() - PADDING_SIZE;
+        if size != expected_size as SizeType {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
@@ -126,7 +128,7 @@ pub trait ResourceStorage: std::fmt::Debug {
             });
         }
 
-        Ok(&data[mem::size_of::<SizeType>()..][..size])
+        Ok(&data[mem::size_of::<SizeType>()..][..expected_size])
     }
 }
 
-- 
2.43.0


From b42b8a3872cb73f3eae7672836724f7a4685eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 54/80] fix: Rust: a resource written again to memory is
 replaced

---
 flatdata-rs/lib/src/memstorage.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 04fdee2..3477d6b 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -18,6 +18,8 @@ struct MemoryStorage {
     streams: Arc<Mutex<BTreeMap<PathBuf, MemoryStorageStream>>>,
     // Data of resources that were opened for reading.
     resources: Arc<Mutex<BTreeMap<PathBuf, Arc<Vec<u8>>>>>,
+    // Data that was opened for reading and written again since, there may still be slices of it.
+    outdated: Arc<Mutex<Vec<Arc<Vec<u8>>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -143,14 +145,15 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Box<dyn Stream>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // a resource that is written again is replaced
+        let stream = MemoryStorageStream::default();
+        self.storage
             .streams
             .lock()
             .unwrap()
-            .entry(resource_path)
-            .or_insert_with(|| Arc::new(Mutex::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path.clone(), stream.clone());
+        let outdated = self.storage.resources.lock().unwrap().remove(&resource_path);
+        self.storage.outdated.lock().unwrap().extend(outdated);
         Ok(Box::new(StreamWrapper { stream }))
     }
 }
-- 
2.43.0


From 4917d94339cdc78e8ad4614c9a5a52faef5ecc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 55/80] fix: Rust: a file written again is mapped again

---
 flatdata-rs/lib/src/filestorage.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index 8e1e14d..c67952b 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -15,6 +15,8 @@ use std::{
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: Mutex<BTreeMap<String, Mmap>>,
+    // Mappings of files that were written again since, there may still be slices of them.
+    outdated: Mutex<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
@@ -30,6 +32,12 @@ impl MemoryMappedFileStorage {
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
         Ok(extended_lifetime_data)
     }
+
+    /// The file is written again: the next read has to map it again.
+    pub fn retire(&self, path: &str) {
+        let outdated = self.maps.lock().unwrap().remove(path);
+        self.outdated.lock().unwrap().extend(outdated);
+    }
 }
 
 /// Resource storage on disk using memory mapped files.
@@ -100,7 +108,10 @@ impl ResourceStorage for FileResourceStorage {
             fs::create_dir_all(self.path.clone())?;
         }
         let resource_path = self.path.join(resource_name);
-        let file = File::create(resource_path)?;
+        let file = File::create(&resource_path)?;
+        if let Some(p) = resource_path.to_str() {
+            self.storage.retire(p);
+        }
         Ok(Box::new(file))
     }
 }
-- 
2.43.0


From 3425b6c1631dabd368463f6fa9fbbeae1d9d806f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 56/80] fix: Rust: opening a truncated tar is an error instead
 of reading it panicking

---
 flatdata-rs/lib/src/tarstorage.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-rs/lib/src/tarstorage.rs b/flatdata-rs/lib/src/tarstorage.rs
index 6809fc8..d73a2a1 100644
--- a/flatdata-rs/lib/src/tarstorage.rs
+++ b/flatdata-rs/lib/src/tarstorage.rs
@@ -43,6 +43,12 @@ impl MemoryMappedTarArchiveStorage {
                         "Sparse files are not supported",
                     ));
                 }
+                if size > archive_map.len().saturating_sub(offset) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "The tar archive is truncated",
+                    ));
+                }
 
                 Ok((path, offset..offset + size))
             })
-- 
2.43.0


From 18931a624f519653e2aeadb2f16cb286601c88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 57/80] fix: Rust: threads that open the same resource do not
 invalidate each other's data

---
 flatdata-rs/lib/src/filestorage.rs |  8 +++++---
 flatdata-rs/lib/src/memstorage.rs  | 21 +++++++++------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/flatdata-rs/lib/src/filestorage.rs b/flatdata-rs/lib/src/filestorage.rs
index c67952b..971cc1f 100644
--- a/flatdata-rs/lib/src/filestorage.rs
+++ b/flatdata-rs/lib/src/filestorage.rs
@@ -21,12 +21,14 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.lock().unwrap().contains_key(path) {
+        // locked all along: a mapping that was handed out must not be replaced
+        let mut maps = self.maps.lock().unwrap();
+        if !maps.contains_key(path) {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.lock().unwrap().insert(path.into(), file_mmap);
+            maps.insert(path.into(), file_mmap);
         }
-        let data = &self.maps.lock().unwrap()[path];
+        let data = &maps[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
diff --git a/flatdata-rs/lib/src/memstorage.rs b/flatdata-rs/lib/src/memstorage.rs
index 3477d6b..226e742 100644
--- a/flatdata-rs/lib/src/memstorage.rs
+++ b/flatdata-rs/lib/src/memstorage.rs
@@ -108,25 +108,22 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self
+        let stream = self
             .storage
-            .resources
+            .streams
             .lock()
             .unwrap()
-            .contains_key(&resource_path)
-        {
-            let streams = self.storage.streams.lock().unwrap();
-            let stream = streams.get(&resource_path);
+            .get(&resource_path)
+            .cloned();
+        // locked all along: data that was handed out must not be replaced
+        let mut resources = self.storage.resources.lock().unwrap();
+        if !resources.contains_key(&resource_path) {
             match stream {
                 Some(stream) => {
                     // Resource is not yet opened, but there is a stream it was written to
                     // => copy the stream as resource data.
                     let data = Arc::new(stream.lock().unwrap().get_ref().clone());
-                    self.storage
-                        .resources
-                        .lock()
-                        .unwrap()
-                        .insert(resource_path.clone(), data);
+                    resources.insert(resource_path.clone(), data);
                 }
                 None => {
                     return Err(io::Error::new(
@@ -136,7 +133,7 @@ impl ResourceStorage for MemoryResourceStorage {
                 }
             }
         }
-        let data = &self.storage.resources.lock().unwrap()[&resource_path];
+        let data = &resources[&resource_path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
-- 
2.43.0


From cf94c2f63117773ff7180e2edf0800f2ac5d1427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:57 +0000
Subject: [PATCH 58/80] fix: Rust: a field of one bit reads 0 or 1 again, as
 the unit test of the reader demands

---
 flatdata-rs/lib/src/bytereader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/bytereader.rs b/flatdata-rs/lib/src/bytereader.rs
index 51a61b6..5c39332 100644
--- a/flatdata-rs/lib/src/bytereader.rs
+++ b/flatdata-rs/lib/src/bytereader.rs
@@ -53,8 +53,7 @@ macro_rules! flatdata_read_bytes {
         let data: *const u8 = unsafe { bytes.add(byte_offset) };
 
         if $num_bits == 1 {
-            let bit = u64::from(unsafe { *data } >> bit_offset & 1);
-            flatdata_read_bytes!(@extend, $T, bit, $num_bits)
+            (unsafe { *data } & (1 << bit_offset) != 0) as $T
         } else {
             let num_bytes: usize = std::cmp::min( 8, ($num_bits + bit_offset + 7) / 8);
             let mut result: u64 = 0;
-- 
2.43.0


From 7fccc3a7f45231e5b677b0c9611327389bc37207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:09 +0000
Subject: [PATCH 59/80] fix: inspector opens a file of the archive given
 relative to its directory

---
 flatdata-py/flatdata/lib/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/inspector.py b/flatdata-py/flatdata/lib/inspector.py
index 8ffc6ca..0d66ebe 100755
--- a/flatdata-py/flatdata/lib/inspector.py
+++ b/flatdata-py/flatdata/lib/inspector.py
@@ -44,7 +44,7 @@ def open_archive(path, archive=None, module_name=None):
         raise RuntimeError("Specified non-existent path %s" % path)
 
     is_tar = path.endswith(".tar") and not os.path.isdir(path)
-    archive_path = path if is_tar or os.path.isdir(path) else os.path.dirname(path)
+    archive_path = path if is_tar or os.path.isdir(path) else os.path.dirname(path) or os.curdir
     if is_tar:
         storage = TarArchiveResourceStorage.create(archive_path)
     else:
-- 
2.43.0


From 194d4a4dbdebb7b8ab726fdc43d329dff2ba2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:28 +0000
Subject: [PATCH 60/80] fix: Rust: comments with lines that do not start with
 an asterisk, and //! comments, stay comments

---
 .../flatdata/generator/generators/rust.py            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index dcf4d40..dcbcb78 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -52,12 +52,22 @@ class RustGenerator(BaseGenerator):
 
         env.filters["snake_to_upper_camel_case"] = _snake_to_upper_camel_case
 
+        def _rust_doc_line(line):
+            if line.startswith("//!"):
+                # documentation of the enclosing item in Rust
+                return "///" + line[3:]
+            if line.startswith("//") or not line:
+                return line
+            # line of a block comment without leading asterisk
+            return ("/// " + re.sub(r'\s*\*/$', '', line)).strip()
+
         def _rust_doc(expr):
             lines = [
                 re.sub(r'^[ \t]*(/\*\*\s?|/\*\s?|\*/|\*\s?)(.*?)\s*(\*/)?$',
                        r"/// \2", line).strip()
-                for line in expr.split('\n')
+                for line in re.split(r'\r\n?|\n', expr)
             ]
+            lines = [_rust_doc_line(line) for line in lines]
             start = 0
             end = len(lines)
             if lines[0] == "///":
-- 
2.43.0


From 395044c373e2e2c49075ac4ab6bdd28957198ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 61/80] fix: Rust: a range over a field of an enumeration type
 compiles

---
 .../flatdata/generator/templates/rust/structure.jinja2    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2 b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
index bfdce59..22a0fcc 100644
--- a/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/rust/structure.jinja2
@@ -110,8 +110,12 @@ impl {{ struct.name }} {
     {% endif %}
     #[inline]
     pub fn {{ field.range | escape_rust_keywords }}(&self) -> std::ops::Range<{% if field.invalid_value %}Option<{{ field | field_type }}>{% else %}{{ field | field_type }}{% endif %}> {
-        let start = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
-        let end = flatdata_read_bytes!({{ field.type.name }}, self.data.as_ptr(), {{ field.offset }} + {{ struct.size_in_bytes }} * 8, {{ field.type.width }});
+        let start = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }}, {{ field.type.width }});
+        let end = flatdata_read_bytes!({{ field | primitive_type }}, self.data.as_ptr(), {{ field.offset }} + {{ struct.size_in_bytes }} * 8, {{ field.type.width }});
+        {% if field.type_reference %}
+        let start = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(start) };
+        let end = unsafe { std::mem::transmute::<{{ field | primitive_type }}, {{ field | field_type }}>(end) };
+        {% endif %}
         {% if field.invalid_value %}
         let check = |x| {% if field.invalid_value %}Some(x).filter(|&x| x != {{ fully_qualified_name(struct, field.invalid_value.node) }}{% else %}x{% endif %};
         check(start)..check(end)
-- 
2.43.0


From 81f0f7dc68161bd7b499f8251f9be085e4e6ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 62/80] fix: Rust: optional fields refer to their constant by
 the name it is declared with

---
 flatdata-generator/flatdata/generator/generators/rust.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index dcbcb78..41bc8f4 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -95,7 +95,11 @@ class RustGenerator(BaseGenerator):
             return "{}".format(field.type.name)
 
         def _fully_qualified_name(current, node):
-            return "::".join((current.path_depth() - 1) * ["super"]) + node.path_with("::")
+            path = node.path_with("::")
+            if isinstance(node, Constant):
+                # constants are declared in upper case
+                path = path[:-len(node.name)] + _camel_to_snake_case(node.name).upper()
+            return "::".join((current.path_depth() - 1) * ["super"]) + path
 
         env.globals["fully_qualified_name"] = _fully_qualified_name
         env.filters["escape_rust_keywords"] = _escape_rust_keywords
-- 
2.43.0


From 45abac3d75959152cb8f126a14332bbc3c5d5684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 63/80] fix: Rust: fields named like the keywords of later
 editions are escaped, too

---
 flatdata-generator/flatdata/generator/generators/rust.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/generators/rust.py b/flatdata-generator/flatdata/generator/generators/rust.py
index 41bc8f4..05b8f3e 100644
--- a/flatdata-generator/flatdata/generator/generators/rust.py
+++ b/flatdata-generator/flatdata/generator/generators/rust.py
@@ -17,11 +17,12 @@ class RustGenerator(BaseGenerator):
     """Flatdata to Rust generator"""
 
     RESERVED_KEYWORDS = [
-        "abstract", "alignof", "as", "become", "box", "break", "const", "continue", "crate", "do",
+        "Self", "abstract", "alignof", "as", "async", "await", "become", "box", "break", "const",
+        "continue", "crate", "do", "dyn",
         "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in", "let", "loop",
         "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub",
         "pure", "ref", "return", "self", "sizeof", "static", "struct", "super", "trait", "true",
-        "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"]
+        "try", "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield"]
 
     def __init__(self):
         BaseGenerator.__init__(self, "rust/rust.jinja2")
-- 
2.43.0


From aa993fa761084818e3d91dd0431753894c78b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 64/80] fix: C++: enumeration values of the smallest 64 bit
 number compile with clang

---
 flatdata-generator/flatdata/generator/generators/cpp.py       | 4 ++++
 .../flatdata/generator/templates/cpp/enumeration.jinja2       | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/cpp.py b/flatdata-generator/flatdata/generator/generators/cpp.py
index 3d9cc58..475a497 100644
--- a/flatdata-generator/flatdata/generator/generators/cpp.py
+++ b/flatdata-generator/flatdata/generator/generators/cpp.py
@@ -45,6 +45,10 @@ class CppGenerator(BaseGenerator):
 
         env.filters["cpp_base_type"] = _cpp_base_type
 
+        # C++ has no negative literals, and the positive one does not fit any signed type
+        env.filters["cpp_literal"] = lambda value: (
+            "-9223372036854775807 - 1" if int(value) == -2 ** 63 else value)
+
         def _to_type_params(refs):
             return ', '.join([ref.node.path_with("::") for ref in refs])
 
diff --git a/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2 b/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
index 6150fba..97d94fb 100644
--- a/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
+++ b/flatdata-generator/flatdata/generator/templates/cpp/enumeration.jinja2
@@ -9,7 +9,7 @@ enum class {{ enum.name }} : {{ enum.type|cpp_base_type }}
     {% if value.doc %}
     {{ value.doc|cpp_doc }}
     {% endif %}
-    {{ value.name }} = {{ value.value }}{{ "," if not loop.last }}
+    {{ value.name }} = {{ value.value|cpp_literal }}{{ "," if not loop.last }}
     {% endfor %}
 };
 
-- 
2.43.0


From 615c5d0ec9139c5c2447bc73faa15646a0cc697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:31 +0000
Subject: [PATCH 65/80] fix: C++: operator< of structures with optional fields
 compiles

---
 flatdata-cpp/include/flatdata/internal/Reader.h | 6 ++++++
 flatdata-cpp/include/flatdata/internal/Writer.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/flatdata-cpp/include/flatdata/internal/Reader.h b/flatdata-cpp/include/flatdata/internal/Reader.h
index 3b66c44..cb3d403 100644
--- a/flatdata-cpp/include/flatdata/internal/Reader.h
+++ b/flatdata-cpp/include/flatdata/internal/Reader.h
@@ -144,6 +144,12 @@ struct Reader< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
         return Reader< T, offset, num_bits >{ data } != INVALID_VALUE;
     }
 
+    bool
+    operator<( const Reader& other ) const
+    {
+        return boost::optional< T >( *this ) < boost::optional< T >( other );
+    }
+
     T
     operator*( ) const
     {
diff --git a/flatdata-cpp/include/flatdata/internal/Writer.h b/flatdata-cpp/include/flatdata/internal/Writer.h
index 7ed7c3c..49269fb 100644
--- a/flatdata-cpp/include/flatdata/internal/Writer.h
+++ b/flatdata-cpp/include/flatdata/internal/Writer.h
@@ -114,6 +114,12 @@ struct Writer< Tagged< T, INVALID_VALUE >, offset, num_bits, struct_size_bytes >
             Reader< Tagged< T, INVALID_VALUE >, offset, num_bits >{ data } );
     }
 
+    bool
+    operator<( const Writer& other ) const
+    {
+        return boost::optional< T >( *this ) < boost::optional< T >( other );
+    }
+
     T
     operator*( ) const
     {
-- 
2.43.0


From e537a4ae8a8050e53bc83ec3ab8ef6080b3f9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 66/80] fix: numpy integers as indices of Python containers
 overflowed

---
 flatdata-py/flatdata/lib/resources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index f098e3a..520f25e 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -4,6 +4,7 @@
 '''
 
 import json
+import operator
 
 import pandas as pd
 import numpy as np
@@ -103,6 +104,7 @@ class Vector(ResourceBase):
         if isinstance(index, slice):
             return _VectorSlice(index, self)
 
+        index = operator.index(index)
         if index < 0:
             index += len(self)
         if index >= self._size or index < 0:
@@ -161,6 +163,7 @@ class Multivector(ResourceBase):
         if isinstance(index, slice):
             return _MultivectorSlice(index, self)
 
+        index = operator.index(index)
         if index < 0:
             index += len(self)
         if index >= len(self) or index < 0:
@@ -195,6 +198,7 @@ class RawData(ResourceBase):
         data = self._mem[SIZE_OFFSET_IN_BYTES:SIZE_OFFSET_IN_BYTES + len(self)]
         if isinstance(item, slice):
             return data[item]
+        item = operator.index(item)
         if item < 0:
             item += len(self)
         if item >= len(self) or item < 0:
@@ -238,6 +242,7 @@ class Instance(ResourceBase):
         if isinstance(index, slice):
             raise IndexError("Instance has only one item")
 
+        index = operator.index(index)
         if index < 0:
             index += 1
         if index >= 1 or index < 0:
-- 
2.43.0


From 9ca97dc6329ddd5db3895a61caaebd97463da50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 67/80] fix: numpy values could not be written to structures

---
 flatdata-py/flatdata/lib/data_access.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flatdata-py/flatdata/lib/data_access.py b/flatdata-py/flatdata/lib/data_access.py
index cab7578..738e9bc 100644
--- a/flatdata-py/flatdata/lib/data_access.py
+++ b/flatdata-py/flatdata/lib/data_access.py
@@ -3,6 +3,8 @@
  See the LICENSE file in the root of this project for license details.
 '''
 
+import numpy as np
+
 # Sign bits cache for the value reading.
 _SIGN_BITS = [0] + [(1 << (bits - 1)) for bits in range(1, 65)]
 
@@ -33,6 +35,10 @@ def read_value(data, offset_bits, num_bits, is_signed):
 def write_value(data, offset_bits, num_bits, is_signed, value):
     assert num_bits <= 64, f'Number of bits to write is greater than 64'
 
+    if isinstance(value, np.generic):
+        # numpy integers overflow when shifted
+        value = value.item()
+
     offset_bytes, offset_extra_bits = divmod(offset_bits, 8)
     total_bytes = (num_bits + 7) // 8
 
-- 
2.43.0


From d7dab4eafaf0b831c8422e8a01dd23fc8eba83d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 68/80] fix: vectors and multivectors set from iterators were
 written empty

---
 flatdata-py/flatdata/lib/archive_builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index 7eae005..a6452c2 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -173,7 +173,6 @@ class ArchiveBuilder:
         for value in vector:
             ArchiveBuilder.__validate_structure_fields(
                 name, value, initializer)
-        for value in vector:
             bout = bytearray(initializer._SIZE_IN_BYTES)
             for (key, field) in initializer._FIELDS.items():
                 write_value(bout, field.offset, field.width,
@@ -205,6 +204,8 @@ class ArchiveBuilder:
                 ArchiveBuilder.__validate_structure_fields(
                     name, _obj['attributes'], matched_obj_list[0])
 
+        # Iterated twice below, which iterators would not allow
+        value = [list(sub_list) for sub_list in value]
         for sub_list in value:
             for obj in sub_list:
                 if not valid_structure_name(obj):
-- 
2.43.0


From 67dcf19053b2eae805d973c5d4b0ca52cb79ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:35 +0000
Subject: [PATCH 69/80] fix: size hint of the Rust iterator over the items of a
 multivector

MultiArrayViewIter implements ExactSizeIterator, which demands that
size_hint() is exact, but had the default hint of (0, None).
---
 flatdata-rs/lib/src/multiarrayview.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatdata-rs/lib/src/multiarrayview.rs b/flatdata-rs/lib/src/multiarrayview.rs
index 848a8a0..9d1ee86 100644
--- a/flatdata-rs/lib/src/multiarrayview.rs
+++ b/flatdata-rs/lib/src/multiarrayview.rs
@@ -217,6 +217,11 @@ where
             None
         }
     }
+
+    // the implementation of ExactSizeIterator demands an exact hint
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.view.len(), Some(self.view.len()))
+    }
 }
 
 impl<'a, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Ts>
-- 
2.43.0


From ab3b1ffdd820e89d23e6340e290fa65b82fd3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:31 +0000
Subject: [PATCH 70/80] fix: an unfinished resource written in Rust is never
 read as an empty one

---
 flatdata-rs/lib/src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-rs/lib/src/storage.rs b/flatdata-rs/lib/src/storage.rs
index 6d843ee..7ff19f8 100644
--- a/flatdata-rs/lib/src/storage.rs
+++ b/flatdata-rs/lib/src/storage.rs
@@ -309,9 +309,9 @@ impl<'a> ResourceHandle<'a> {
         mut stream: Box<dyn Stream>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then the resource must not look like a complete one.
         {
-            write_size(0u64, &mut stream)?;
+            write_size(u64::MAX, &mut stream)?;
         }
         Ok(Self {
             stream,
-- 
2.43.0


From a0b9d4fb18a3fea96b29cfe6f213afcce557735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:31 +0000
Subject: [PATCH 71/80] fix: setting a multivector can be repeated after an
 input or output error

---
 flatdata-py/flatdata/lib/archive_builder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/flatdata-py/flatdata/lib/archive_builder.py b/flatdata-py/flatdata/lib/archive_builder.py
index a6452c2..d03ef46 100644
--- a/flatdata-py/flatdata/lib/archive_builder.py
+++ b/flatdata-py/flatdata/lib/archive_builder.py
@@ -250,7 +250,6 @@ class ArchiveBuilder:
         # Write index schema
         self._write_index_schema(
             name, f'index({self._RESOURCES[name].schema})')
-        self._resources_written.append(name)
         self._resources_written.append(f'{name}_index')
 
     def set(self, name, value):
-- 
2.43.0


From 34e7a6327c1ba1cdc44da14398771204cbc590d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:31 +0000
Subject: [PATCH 72/80] fix: truncated resources were opened in Python

---
 flatdata-py/flatdata/lib/resources.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 520f25e..1530687 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -17,10 +17,18 @@ SIZE_OFFSET_IN_BYTES = SIZE_OFFSET_IN_BITS // 8
 SIZE_PADDING_IN_BYTES = 8
 
 
+def _check_size(mem):
+    """Raises CorruptResourceError if the memory of a resource ends before its data and padding"""
+    frame_size = SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES
+    if len(mem) < frame_size:
+        raise CorruptResourceError()
+    if len(mem) < frame_size + read_value(mem, 0, SIZE_OFFSET_IN_BITS, False):
+        raise CorruptResourceError()
+
+
 class ResourceBase:
     def __init__(self, mem, element_type):
-        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
-            raise CorruptResourceError()
+        _check_size(mem)
         self._mem = memoryview(mem)
         self._element_type = element_type
         self._element_types = [element_type]
@@ -138,8 +146,7 @@ class _MultivectorSlice:
 class Multivector(ResourceBase):
     def __init__(self, index_mem, mem, index_type, *element_types):
         self._index = Vector(index_mem, index_type)
-        if len(mem) < (SIZE_OFFSET_IN_BYTES + SIZE_PADDING_IN_BYTES):
-            raise CorruptResourceError()
+        _check_size(mem)
         self._mem = mem
         self._element_types = element_types
         self._index_type = index_type
-- 
2.43.0


From 5fca28c1707947a59c0af9619dc334be5b744101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:30 +0000
Subject: [PATCH 73/80] fix: dot: types of other namespaces were shortened
 wrongly

---
 flatdata-generator/flatdata/generator/generators/dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/generators/dot.py b/flatdata-generator/flatdata/generator/generators/dot.py
index 02e97d5..4a461de 100644
--- a/flatdata-generator/flatdata/generator/generators/dot.py
+++ b/flatdata-generator/flatdata/generator/generators/dot.py
@@ -22,7 +22,7 @@ class DotGenerator(BaseGenerator):
         def _field_value_type(field):
             type_name = field.type.name.replace("@@", ".").replace("@", ".")
             namespace_name = field.parent.parent.path
-            if type_name.startswith(namespace_name):
+            if type_name.startswith(namespace_name + "."):
                 type_name = type_name[len(namespace_name):]
             if type_name.startswith("."):
                 type_name = type_name[1:]
-- 
2.43.0


From 30c86bff8c00177719214a4b121692bd453ff9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 74/80] fix: words apart were read as one name in references to
 fields

---
 flatdata-generator/flatdata/generator/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-generator/flatdata/generator/grammar.py b/flatdata-generator/flatdata/generator/grammar.py
index ec6ae35..833016a 100644
--- a/flatdata-generator/flatdata/generator/grammar.py
+++ b/flatdata-generator/flatdata/generator/grammar.py
@@ -128,7 +128,7 @@ def _combine_list(t):
     return "".join(t[0].asList())
 
 explicit_field_reference_prefix = Group(
-    OneOrMore((Optional(".") + identifier + ~FollowedBy(',')))
+    Optional(".") + identifier + ZeroOrMore("." + identifier + ~FollowedBy(','))
 ).setParseAction(_combine_list)
 
 explicit_reference = Group(
-- 
2.43.0


From c130e48aaeb3d744a8421bcd6e24a7c2afce6248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:30 +0000
Subject: [PATCH 75/80] fix: generate() took directories named *.flatdata for
 schemas

---
 flatdata-rs/lib/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-rs/lib/src/generator.rs b/flatdata-rs/lib/src/generator.rs
index 7e75053..1fb505b 100644
--- a/flatdata-rs/lib/src/generator.rs
+++ b/flatdata-rs/lib/src/generator.rs
@@ -110,7 +110,7 @@ pub fn generate(
 
     for entry in walkdir::WalkDir::new(schemas_path) {
         let entry = entry?;
-        if entry.path().extension().map_or(true, |x| x != "flatdata") {
+        if entry.path().is_dir() || entry.path().extension().map_or(true, |x| x != "flatdata") {
             continue;
         }
 
-- 
2.43.0


From 9b66cd7072a7a910c038e48a0cfdfb1ee82f2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:02 +0000
Subject: [PATCH 76/80] fix: long separators of strings were read as parts of
 strings, no strings as all

---
 flatdata-py/flatdata/lib/resources.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/flatdata-py/flatdata/lib/resources.py b/flatdata-py/flatdata/lib/resources.py
index 1530687..8280436 100644
--- a/flatdata-py/flatdata/lib/resources.py
+++ b/flatdata-py/flatdata/lib/resources.py
@@ -228,19 +228,19 @@ class RawData(ResourceBase):
         for i in range(index, len(self)):
             if index == i and self._has_separator(i, list_separator):
                 break
-            if self._has_separator(i, separator):
+            if i >= index and self._has_separator(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
+                index = i + len(separator)
         return result
 
     def sub_str_array(self, index, size, separator = b'\0'):
         result = []
         for i in range(index, len(self)):
-            if self._has_separator(i, separator):
+            if len(result) == size:
+                break
+            if i >= index and self._has_separator(i, separator):
                 result.append(bytes(self[index:i]).decode("utf-8"))
-                index = i + 1
-                if len(result) == size:
-                    break
+                index = i + len(separator)
         return result
 
 
-- 
2.43.0


From ef54af126b152833de254fe5e89456fb063e3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:28 +0000
Subject: [PATCH 77/80] fix: debug statistics counted more pages read than
 there are

The last page of a resource, which is rarely full, was not counted: a
resource of 31 bytes was reported as "pages [count]: 1 out of 0".
---
 flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
index 9114d6d..1dd7a02 100644
--- a/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
+++ b/flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h
@@ -220,7 +220,7 @@ struct DebugDataAccessStatistics
             std::cerr << "        bytes [accessed]: "
                       << ( x->num_bytes_accessed * 100.0 / x->data.size( ) ) << "%" << std::endl;
             std::cerr << "        pages [count]: " << x->pages.size( ) << " out of "
-                      << x->data.size( ) / PAGE_SIZE << std::endl;
+                      << ( x->data.size( ) + PAGE_SIZE - 1 ) / PAGE_SIZE << std::endl;
             std::cerr << "        pages [data access]: "
                       << x->num_bytes_accessed * 100.0 / x->pages.size( ) / PAGE_SIZE << "%"
                       << std::endl;
-- 
2.43.0


From 0c781cb21236b4546b3dc768c7bd0f360f9a5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:40 +0000
Subject: [PATCH 78/80] fix: generator could not read schemas beyond ASCII in
 some locales

Schemas are read and code is written as UTF-8 whatever the locale is. In
an ASCII locale without UTF-8 mode documentation with an umlaut ended with
a UnicodeDecodeError.
---
 flatdata-generator/flatdata/generator/app.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-generator/flatdata/generator/app.py b/flatdata-generator/flatdata/generator/app.py
index 1dc2601..fe37c48 100755
--- a/flatdata-generator/flatdata/generator/app.py
+++ b/flatdata-generator/flatdata/generator/app.py
@@ -62,7 +62,7 @@ def _run(args):
     _setup_logging(args)
     _check_args(args)
 
-    with open(args.schema, 'r') as input_file:
+    with open(args.schema, 'r', encoding="utf-8") as input_file:
         schema = input_file.read()
         try:
             engine = Engine(schema)
@@ -81,7 +81,7 @@ def _run(args):
     dirname = os.path.dirname(os.path.abspath(args.output_file))
     if not os.path.exists(dirname):
         os.makedirs(dirname)
-    with open(args.output_file, "w") as output:
+    with open(args.output_file, "w", encoding="utf-8") as output:
         output.write(output_content)
         logging.info("Code for %s is written to %s", args.gen, args.output_file)
 
-- 
2.43.0


From 850cee2a36a004789644b425eaba5d0f3919b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:36 +0000
Subject: [PATCH 79/80] fix: writer could not read schemas beyond ASCII in some
 locales

---
 flatdata-py/flatdata/lib/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/writer.py b/flatdata-py/flatdata/lib/writer.py
index db3f2f0..492f23b 100644
--- a/flatdata-py/flatdata/lib/writer.py
+++ b/flatdata-py/flatdata/lib/writer.py
@@ -31,10 +31,10 @@ def main():
         raise RuntimeError(
             "Specified json file %s doesn't exists" % args.json_file)
 
-    with open(args.schema, 'r') as schema_file:
+    with open(args.schema, 'r', encoding='utf-8') as schema_file:
         schema = schema_file.read()
 
-    with open(args.json_file, 'r') as json_file:
+    with open(args.json_file, 'r', encoding='utf-8') as json_file:
         data = json.load(json_file)
 
     archive_writer = Writer(schema, args.path, args.archive_name)
-- 
2.43.0


From 143b79534c8506eda8b5ff674ef245826a45fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:18:35 +0000
Subject: [PATCH 80/80] Revert "fix: writer could not read schemas beyond ASCII
 in some locales"

This reverts commit 850cee2a36a004789644b425eaba5d0f3919b2ed.
---
 flatdata-py/flatdata/lib/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatdata-py/flatdata/lib/writer.py b/flatdata-py/flatdata/lib/writer.py
index 492f23b..db3f2f0 100644
--- a/flatdata-py/flatdata/lib/writer.py
+++ b/flatdata-py/flatdata/lib/writer.py
@@ -31,10 +31,10 @@ def main():
         raise RuntimeError(
             "Specified json file %s doesn't exists" % args.json_file)
 
-    with open(args.schema, 'r', encoding='utf-8') as schema_file:
+    with open(args.schema, 'r') as schema_file:
         schema = schema_file.read()
 
-    with open(args.json_file, 'r', encoding='utf-8') as json_file:
+    with open(args.json_file, 'r') as json_file:
         data = json.load(json_file)
 
     archive_writer = Writer(schema, args.path, args.archive_name)
-- 
2.43.0

