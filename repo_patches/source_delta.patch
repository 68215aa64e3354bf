From 8033ad61e82e37a97df9e12071c86175e1dbe2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:36 +0000
Subject: [PATCH 01/23] fix: keep whole tens of seconds when serializing a
 duration

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..4b9af19 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From e8dbbf4ca2683f67442f394e730693236ae8ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:43 +0000
Subject: [PATCH 02/23] fix: zero pad the year when serializing a datetime

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b9af19..46225b9 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -518,7 +518,8 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # strftime does not guarantee that %Y is zero padded to 4 digits.
+    dt_str = f"{value.year:04d}" + value.strftime(f"-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From 8a32b40202a77c24344d99618da9843a884deb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:51 +0000
Subject: [PATCH 03/23] fix: escape every lone surrogate and XML noncharacter
 when serializing a string

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 46225b9..06d0bdf 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -71,7 +71,7 @@ log = logging.getLogger(__name__)
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
 # Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From d7ff73d9e4283d9cddefd15b5ca7a69bb42d2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 04/23] fix: only unescape string sequences on character
 boundaries

---
 src/psrpcore/types/_serializer.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 06d0bdf..2eaa2eb 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -73,9 +73,9 @@ _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 # Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
 _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the escaped UTF-16 code units, this must be done on whole characters and not the UTF-16 bytes of the string as
+# bytes that look like the escape sequence can also straddle the boundary of 2 characters.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -467,23 +467,13 @@ def _deserialize_string(
 
     # test '_xD83C_'
 
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    def rplcr(matchobj: typing.Any) -> str:
+        return chr(int(matchobj.group(1), 16))
+
+    escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, value)
+
+    # A surrogate pair is escaped as 2 separate code units, going through the UTF-16 bytes joins them back together.
+    return escaped.encode("utf-16-be", errors="surrogatepass").decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From 1f29e86745f3653844e023e0175aed668b0d08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:28 +0000
Subject: [PATCH 05/23] fix: serialize ints below the Int32 minimum as an Int64

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 2eaa2eb..d33c8b0 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -729,7 +729,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From cf32c95dde57f3439bbcc8262722157add0e3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:35 +0000
Subject: [PATCH 06/23] fix: escape the ToString value when serializing an
 object

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d33c8b0..faa3df8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -931,7 +931,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
-- 
2.43.0


From 17cc6bf7770a36963dd7bbe59c0ed9b3223e4cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 07/23] fix: do not empty the queue that is being serialized

---
 src/psrpcore/types/_serializer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index faa3df8..471720c 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -900,13 +900,18 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
+            # Getting an entry removes it from the queue, make sure the caller's queue is restored afterwards.
+            original_entries = list(value.queue)
+            que_entries = []
             while True:
                 try:
-                    que_entry = self.serialize(value.get(block=False))
+                    que_entries.append(value.get(block=False))
                 except queue.Empty:
                     break
-                else:
-                    que_element.append(que_entry)
+            value.queue.extend(original_entries)
+
+            for que_entry in que_entries:
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 90342cae6da337e53d36049b145dc31af8ca3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:33 +0000
Subject: [PATCH 08/23] fix: only reuse an object reference for the same object

---
 src/psrpcore/types/_serializer.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 471720c..4b8f683 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -14,7 +14,6 @@ import queue
 import re
 import typing
 import uuid
-import weakref
 from xml.etree import ElementTree
 
 from psrpcore.types._base import (
@@ -644,8 +643,8 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
-        self._obj_ref_enum: typing.Dict[int, int] = {}
+        # The key is the id() of the object, the object is kept in the value so the id is not reused.
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[str] = []
 
@@ -1177,15 +1176,11 @@ class _Serializer:
         """Determine the object reference id for serialization."""
         next_ref_id = self._obj_ref_id
 
-        try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
-        except TypeError as e:
-            # Some objects cannot have a weakref, try id() only when dealing with known workable types.
-            if isinstance(value, enum.Enum):
-                ref_id = self._obj_ref_enum.setdefault(id(value), next_ref_id)
-
-            else:
-                ref_id = next_ref_id
+        # A reference is for the exact same object, 2 objects that are equal can still have different properties.
+        # Unhashable objects, like lists and dicts, are never referenced.
+        ref_id = next_ref_id
+        if type(value).__hash__ is not None:
+            ref_id = self._obj_ref.setdefault(id(value), (next_ref_id, value))[0]
 
         existing_ref = True
         if next_ref_id == ref_id:
-- 
2.43.0


From 2021e42d213494b6ac608fa15f3a7e339d5f98b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:41 +0000
Subject: [PATCH 09/23] fix: only reuse a type name reference for the same type
 names

---
 src/psrpcore/types/_serializer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b8f683..c76f52e 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -646,7 +646,7 @@ class _Serializer:
         # The key is the id() of the object, the object is kept in the value so the id is not reused.
         self._obj_ref: typing.Dict[int, typing.Tuple[int, typing.Any]] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -852,16 +852,15 @@ class _Serializer:
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
             type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(list(type_names))
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From b30eae63b65ae7fd184419d8f5f9d3e6ccb8c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:48 +0000
Subject: [PATCH 10/23] fix: check the range of an integer created from an enum

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..8918854 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -124,7 +124,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From c7eca7a9361a50d71cf7670a3d27af01822499d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:10 +0000
Subject: [PATCH 11/23] fix: make versions and durations hashable so they can
 be dictionary keys

---
 src/psrpcore/types/_primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 8918854..d40242e 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -537,6 +537,9 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    # Defining __eq__ removes the inherited __hash__.
+    __hash__ = datetime.timedelta.__hash__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1065,6 +1068,9 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From ee812887b25e891a2f592f8bb33c4ab3b9878869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:18 +0000
Subject: [PATCH 12/23] fix: wait for the whole fragment to be received before
 unpacking it

---
 src/psrpcore/_base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..87bb7a2 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,12 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        # The fragment header is 21 bytes with the fragment data length being the last 4 bytes of the header.
+        while len(self._receive_buffer) >= 21:
+            fragment_length = 21 + int.from_bytes(self._receive_buffer[17:21], byteorder="big")
+            if len(self._receive_buffer) < fragment_length:
+                break
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From 7e1b920932ec7195ef957df01194ee210c0df839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 13/23] fix: do not mix messages for different streams in the
 same payload

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 87bb7a2..f3b01df 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -261,7 +261,7 @@ class RunspacePool(typing.Generic[T1]):
                 pipeline_id = message.pipeline_id
 
             # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From 7203bd3c8c6ef0012140fc614e0b9e415572b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:45 +0000
Subject: [PATCH 14/23] fix: deserialize CLIXML that contains no objects

---
 src/psrpcore/types/_serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index c76f52e..a1d06e1 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -183,6 +183,9 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[objs_header_end_idx - 1] == "/":
+        # There are no objects and the element is self closing.
+        objs_header_end_idx -= 1
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From ebc245213a9ac5a600ec40fea9976f554e3963cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:52 +0000
Subject: [PATCH 15/23] fix: keep empty strings when deserializing a progress
 record

---
 src/psrpcore/types/_serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a1d06e1..80772bc 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -432,15 +432,16 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None or not (element_value.text or prop_type == str):
             continue
 
+        element_text = element_value.text or ""
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_text)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_text)
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 8a32755a3f2c926d779ac6576f36c7bb36ef7d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:01 +0000
Subject: [PATCH 16/23] fix: only drop the CLIXML marker once it has been
 written

---
 src/psrpcore/_clixml_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..ab9ee1e 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -322,12 +322,12 @@ class ClixmlShell:
             prefix = "\n"
         else:
             prefix = "#< CLIXML\n"
-            self._written_marker = True
 
         stdout = ""
         if self._stdout:
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
             self._stdout = []
+            self._written_marker = True
 
         return stdout
 
-- 
2.43.0


From 52f596105c8a0686dba734dabd702b7077a523c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:24 +0000
Subject: [PATCH 17/23] fix: deserialize the entries of an object in document
 order

The properties of a container were deserialized after its entries but are
serialized before them so a reference in the entries could not be resolved.
---
 src/psrpcore/types/_serializer.py | 78 +++++++++++++++++--------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 80772bc..ba78014 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1066,46 +1066,19 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
-        }
-        to_string = None
+        # The container must exist before anything inside the object is deserialized as an entry can reference it.
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
-
-            elif obj_entry.tag == "ToString":
-                to_string = self.deserialize(obj_entry)
-
-            elif obj_entry.tag == self._type_to_element[PSDict]:
+            if obj_entry.tag == self._type_to_element[PSDict]:
                 dict_type: typing.Type[PSDictBase] = PSDict
                 if isinstance(value, PSDictBase):
                     dict_type = type(value)
 
                 value = self._update_value_ref(dict_type(), ref_id)
 
-                for dict_entry in obj_entry:
-                    dict_key = dict_entry.find('*/[@N="Key"]')
-                    dict_value = dict_entry.find('*/[@N="Value"]')
-                    if dict_key is None:
-                        raise ValueError("Failed to find dict Key attribute")
-
-                    if dict_value is None:
-                        raise ValueError("Failed to find dict Value attribute")
-
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
-
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
                     value = self._update_value_ref(PSQueue(), ref_id)
 
-                for queue_entry in obj_entry:
-                    value.put(self.deserialize(queue_entry))
-
             elif obj_entry.tag in [
                 self._type_to_element[PSIEnumerable],
                 self._type_to_element[PSList],
@@ -1126,6 +1099,45 @@ class _Serializer:
                     list_type = type(value)
 
                 value = self._update_value_ref(list_type(), ref_id)
+
+        # The entries are deserialized in the order of the document, an entry can reference any entry before it.
+        props: typing.Dict[str, typing.List[typing.Tuple[str, typing.Any]]] = {
+            "adapted_properties": [],
+            "extended_properties": [],
+        }
+        to_string = None
+        for obj_entry in element:
+            if obj_entry.tag in ["Props", "MS"]:
+                prop_group = "adapted_properties" if obj_entry.tag == "Props" else "extended_properties"
+                props[prop_group] = [
+                    (_deserialize_string(obj_property.attrib["N"]), self.deserialize(obj_property))
+                    for obj_property in obj_entry
+                ]
+
+            elif obj_entry.tag == "ToString":
+                to_string = self.deserialize(obj_entry)
+
+            elif obj_entry.tag == self._type_to_element[PSDict]:
+                for dict_entry in obj_entry:
+                    dict_key = dict_entry.find('*/[@N="Key"]')
+                    dict_value = dict_entry.find('*/[@N="Value"]')
+                    if dict_key is None:
+                        raise ValueError("Failed to find dict Key attribute")
+
+                    if dict_value is None:
+                        raise ValueError("Failed to find dict Value attribute")
+
+                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+
+            elif obj_entry.tag == self._type_to_element[PSQueue]:
+                for queue_entry in obj_entry:
+                    value.put(self.deserialize(queue_entry))
+
+            elif obj_entry.tag in [
+                self._type_to_element[PSIEnumerable],
+                self._type_to_element[PSList],
+                self._type_to_element[PSStack],
+            ]:
                 for list_entry in obj_entry:
                     value.append(self.deserialize(list_entry))
 
@@ -1151,17 +1163,15 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
+            for prop_group_name, prop_entries in props.items():
+                if not prop_entries:
                     continue
 
                 # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
                 # object's extended properties. Anything modified/added will reflect in our actual object property.
                 scratch_obj = PSCustomObject()
                 scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
-                    prop_name = _deserialize_string(obj_property.attrib["N"])
-                    prop_value = self.deserialize(obj_property)
+                for prop_name, prop_value in prop_entries:
                     add_note_property(scratch_obj, prop_name, prop_value, force=True)
 
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
-- 
2.43.0


From 322fa43ecf16f1e2cdb9f39e0a7107d372746324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:30 +0000
Subject: [PATCH 18/23] fix: keep empty error details and script stack trace
 when deserializing an ErrorRecord

---
 src/psrpcore/types/_complex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..80d4ec5 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -828,7 +828,7 @@ class ErrorRecord(PSObject):
         error_details = None
         error_details_message = getattr(obj, "ErrorDetails_Message", None)
         error_details_action = getattr(obj, "ErrorDetails_RecommendedAction", None)
-        if error_details_message or error_details_action:
+        if error_details_message is not None or error_details_action is not None:
             error_details = ErrorDetails(
                 Message=error_details_message,
                 RecommendedAction=error_details_action,
@@ -880,7 +880,7 @@ class ErrorRecord(PSObject):
             add_note_property(obj, "ErrorDetails_Message", instance.ErrorDetails.Message)
             add_note_property(obj, "ErrorDetails_RecommendedAction", instance.ErrorDetails.RecommendedAction)
 
-        if instance.ScriptStackTrace:
+        if instance.ScriptStackTrace is not None:
             add_note_property(obj, "ErrorDetails_ScriptStackTrace", instance.ScriptStackTrace)
 
         if instance.serialize_extended_info and instance.InvocationInfo:
-- 
2.43.0


From 87d2599cdc6436cf53c17c863b4c10006e20e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:29 +0000
Subject: [PATCH 19/23] fix: carry nanoseconds before adding a duration to
 PSDateTime

The carry was applied after the microseconds were added, so a result inside the
date range could raise OverflowError when the floored duration alone left it.
---
 src/psrpcore/types/_primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index d40242e..011c1e7 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -394,14 +394,14 @@ class PSDateTime(PSObject, datetime.datetime):
         other: datetime.timedelta,
     ) -> "PSDateTime":
         nanosecond_diff = self.nanosecond + getattr(other, "nanoseconds", 0)
-        new_date = PSDateTime(super().__add__(other))
 
-        # If the nanoseconds exceed 1000 we need to add the microseconds to our new date before setting the nanosecond
-        # property.
+        # If the nanoseconds exceed 1000 we need to carry the microseconds into the duration. This is done before the
+        # date is calculated so that a duration that is floored to a value just outside the date range is not rejected.
         if nanosecond_diff > 999:
             microseconds, nanosecond_diff = divmod(nanosecond_diff, 1000)
-            new_date += datetime.timedelta(microseconds=microseconds)
+            other = other + datetime.timedelta(microseconds=microseconds)
 
+        new_date = PSDateTime(super().__add__(other))
         new_date.nanosecond = nanosecond_diff
 
         return new_date
-- 
2.43.0


From 9f989558ade9d01c644b3d77008f49655c671f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:05 +0000
Subject: [PATCH 20/23] fix: queue nothing when the arguments of open cannot be
 serialized

---
 src/psrpcore/_client.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..1bcba2c 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -124,19 +124,25 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             raise InvalidRunspacePoolState("open a Runspace Pool", self.state, [RunspacePoolState.BeforeOpen])
 
         host = self.host or HostInfo()
-        self._change_state(RunspacePoolState.Opening)
-
-        self.prepare_message(self.our_capability)
-        self.prepare_message(
-            InitRunspacePool(
-                MinRunspaces=self._min_runspaces,
-                MaxRunspaces=self._max_runspaces,
-                PSThreadOptions=self.thread_options,
-                ApartmentState=self.apartment_state,
-                HostInfo=host,
-                ApplicationArguments=self.application_arguments,
+        queued = len(self._send_buffer)
+        try:
+            self.prepare_message(self.our_capability)
+            self.prepare_message(
+                InitRunspacePool(
+                    MinRunspaces=self._min_runspaces,
+                    MaxRunspaces=self._max_runspaces,
+                    PSThreadOptions=self.thread_options,
+                    ApartmentState=self.apartment_state,
+                    HostInfo=host,
+                    ApplicationArguments=self.application_arguments,
+                )
             )
-        )
+        except Exception:
+            # Do not leave behind half of the handshake if the arguments could not be serialized.
+            del self._send_buffer[queued:]
+            raise
+
+        self._change_state(RunspacePoolState.Opening)
 
     def connect(self) -> None:
         """Connects to the Runspace Pool.
-- 
2.43.0


From 1b7bad114ad8437984c68e196d1dc1cedd240207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 21/23] fix: keep nanoseconds when a plain duration or date is
 on the left

---
 src/psrpcore/types/_primitive.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 011c1e7..567b70d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -406,6 +406,15 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return new_date
 
+    def __radd__(
+        self,
+        other: datetime.timedelta,
+    ) -> "PSDateTime":
+        if not isinstance(other, datetime.timedelta):
+            return NotImplemented
+
+        return self + other
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
@@ -417,6 +426,15 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __rsub__(
+        self,
+        other: datetime.datetime,
+    ) -> "PSDuration":
+        if not isinstance(other, datetime.datetime):
+            return NotImplemented
+
+        return typing.cast("PSDuration", PSDateTime(other) - self)
+
     @classmethod
     def strptime(
         cls,
@@ -509,6 +527,13 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    @_ensure_types_and_self(datetime.timedelta)
+    def __radd__(
+        self,
+        other: datetime.timedelta,
+    ) -> "PSDuration":
+        return self + other
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
-- 
2.43.0


From 36a86968fad69352ca4d4a4c13ce3b048d52845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 22/23] fix: the text of a script extent with the smallest
 start column

---
 src/psrpcore/types/_complex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 80d4ec5..b24811d 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -492,7 +492,7 @@ class ScriptExtent(PSObject):
             val = ""
 
         elif self.StartLineNumber == self.EndLineNumber:
-            val = self._start.Line[max(self.StartColumnNumber - 1, 0) : self.EndColumnNumber]
+            val = self._start.Line[max(int(self.StartColumnNumber) - 1, 0) : self.EndColumnNumber]
 
         else:
             start = self._start.Line[self.StartColumnNumber :]
-- 
2.43.0


From df968d5c58991203fc08a93ccc4f01d552d18bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:22 +0000
Subject: [PATCH 23/23] fix: a pipeline's apartment state STA was replaced by
 the pool's

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1bcba2c..e1f8f9a 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -561,7 +561,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0

