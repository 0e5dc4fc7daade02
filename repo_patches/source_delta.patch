From 372f552aae8a0469d3d3f3eb31aad85b5348d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 01/66] fix: do not add AMF3 XML documents to the string
 reference table

---
 pyamf/amf3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index d2413f9..8152b67 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1548,7 +1548,11 @@ class Encoder(codec.Encoder):
 
         self.context.addObject(n)
 
-        self.serialiseString(xml.tostring(n).encode('utf-8'))
+        # XML documents never take part in the string reference table
+        buf = xml.tostring(n).encode('utf-8')
+
+        self._writeInteger((len(buf) << 1) | REFERENCE_BIT)
+        self.stream.write(buf)
 
 
 def encode_int(n):
-- 
2.43.0


From 2e0701d6a8c884172c6638f6a228a9177a6be558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 02/66] fix: key the encoded AMF3 integer cache by the integer
 being encoded

---
 pyamf/amf3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 8152b67..5292e1e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1575,6 +1575,8 @@ def encode_int(n):
     if n < MIN_29B_INT or n > MAX_29B_INT:
         raise OverflowError("Out of range")
 
+    cache_key = n
+
     if n < 0:
         n += 0x20000000
 
@@ -1600,7 +1602,7 @@ def encode_int(n):
     else:
         bytes += chr(n & 0x7f)
 
-    ENCODED_INT_CACHE[n] = bytes
+    ENCODED_INT_CACHE[cache_key] = bytes
 
     return bytes
 
-- 
2.43.0


From b0d04348adf7ff35435974f1b51c70e5bf6813f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 03/66] fix: keep AMF0 references in step with the decoder
 after dates and XML

---
 pyamf/amf0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index d1019b9..501ce6e 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -641,6 +641,8 @@ class Encoder(codec.Encoder):
 
         # According to the Red5 implementation of AMF0, dates references are
         # created, but not used.
+        self.context.addObject(d)
+
         if self.timezone_offset is not None:
             d -= self.timezone_offset
 
@@ -655,6 +657,9 @@ class Encoder(codec.Encoder):
         """
         Writes an XML instance.
         """
+        # as with dates, references are created but not used
+        self.context.addObject(e)
+
         self.writeType(TYPE_XML)
 
         data = xml.tostring(e)
-- 
2.43.0


From 8c1ee9a2f601e6cbe236a9d56ac6a2fc9406ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 04/66] fix: AMF3 elements do not take up an AMF0 object
 reference

---
 pyamf/amf0.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 501ce6e..7375b1f 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -595,16 +595,18 @@ class Encoder(codec.Encoder):
         if self.writeReference(o) != -1:
             return
 
-        self.context.addObject(o)
         alias = self.context.getClassAlias(o.__class__)
 
         alias.compile()
 
         if alias.amf3:
+            # AMF3 elements live in the AMF3 reference tables only
             self.writeAMF3(o)
 
             return
 
+        self.context.addObject(o)
+
         if alias.anonymous:
             self.writeType(TYPE_OBJECT)
         else:
-- 
2.43.0


From dd54ca4b3616880858265abae8b3ee41419d5f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 05/66] fix: accept the use_amf3 keyword argument in the AMF0
 encoder

---
 pyamf/amf0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 7375b1f..9a80fa3 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -401,10 +401,10 @@ class Encoder(codec.Encoder):
     """
 
     def __init__(self, *args, **kwargs):
-        codec.Encoder.__init__(self, *args, **kwargs)
-
         self.use_amf3 = kwargs.pop('use_amf3', False)
 
+        codec.Encoder.__init__(self, *args, **kwargs)
+
     def buildContext(self, **kwargs):
         return Context(**kwargs)
 
-- 
2.43.0


From d8f67328730e9728d1a7089e70419124753e9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 06/66] fix: AMF3 elements in AMF0 streams honour the decoder's
 settings

---
 pyamf/amf0.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 9a80fa3..31bb41a 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -132,7 +132,10 @@ class Context(codec.Context):
         decoder = pyamf.get_decoder(
             pyamf.AMF3,
             stream=amf0_decoder.stream,
-            timezone_offset=amf0_decoder.timezone_offset
+            strict=amf0_decoder.strict,
+            timezone_offset=amf0_decoder.timezone_offset,
+            forbid_dtd=self.forbid_dtd,
+            forbid_entities=self.forbid_entities
         )
 
         self.extra['amf3_decoder'] = decoder
-- 
2.43.0


From 1a184cc982de0ac55e3f873550a9261c66392669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 07/66] fix: refuse names that are too long for AMF0 instead of
 corrupting the stream

---
 pyamf/amf0.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 31bb41a..3e30d9c 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -494,10 +494,12 @@ class Encoder(codec.Encoder):
         l = len(s)
 
         if l > 0xffff:
-            self.stream.write_ulong(l)
-        else:
-            self.stream.write_ushort(l)
+            raise pyamf.EncodeError(
+                'AMF0 cannot encode attribute or class names longer than '
+                '65535 bytes (got %d bytes)' % (l,)
+            )
 
+        self.stream.write_ushort(l)
         self.stream.write(s)
 
     def writeBytes(self, s):
-- 
2.43.0


From 8af132525a053a08166ca5ee9778a092d531fa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 08/66] fix: refuse empty attribute names in AMF3 instead of
 corrupting the stream

---
 pyamf/amf3.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 5292e1e..eb59d72 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1503,6 +1503,12 @@ class Encoder(codec.Encoder):
                     if type(attr) in python.int_types:
                         attr = str(attr)
 
+                    if attr == '':
+                        # an empty name marks the end of the attributes
+                        raise pyamf.EncodeError(
+                            "dicts cannot contain empty string keys"
+                        )
+
                     self.serialiseString(attr)
                     self.writeElement(value)
 
-- 
2.43.0


From 21e1719a9bd9bab85ced20251626a119c5de4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 09/66] fix: timestamps of dates before 1970 with microseconds

---
 pyamf/util/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index 035e4aa..e528917 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -51,9 +51,7 @@ def get_timestamp(d):
     if isinstance(d, datetime.date) and not isinstance(d, datetime.datetime):
         d = datetime.datetime.combine(d, datetime.time(0, 0, 0, 0))
 
-    msec = str(d.microsecond).rjust(6).replace(' ', '0')
-
-    return float('%s.%s' % (calendar.timegm(d.utctimetuple()), msec))
+    return calendar.timegm(d.utctimetuple()) + d.microsecond / 1000000.0
 
 
 def get_datetime(secs):
-- 
2.43.0


From a63759ba000d324d6b80824955f5826766195f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 10/66] fix: decompress the ByteArrays that the encoder
 compressed

---
 pyamf/amf3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index eb59d72..0d6e204 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -508,7 +508,8 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
     <http://help.adobe.com/en_US/FlashPlatform/reference/actionscript/3/flash/utils/ByteArray.html>}
     """
 
-    _zlib_header = '\x78\x9c'
+    # 0xda is what L{__str__} writes, 0x9c is the default of zlib
+    _zlib_headers = ('\x78\x9c', '\x78\xda')
 
     class __amf__:
         amf3 = True
@@ -520,7 +521,7 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
         DataInput.__init__(self, Decoder(self, self.context))
         DataOutput.__init__(self, Encoder(self, self.context))
 
-        self.compressed = self.peek(2) == ByteArray._zlib_header
+        self.compressed = self.peek(2) in ByteArray._zlib_headers
 
     def readObject(self):
         self.context.clear()
@@ -1114,7 +1115,7 @@ class Decoder(codec.Decoder):
         buffer = self.stream.read(ref >> 1)
         compressed = False
 
-        if buffer[0:2] == ByteArray._zlib_header:
+        if buffer[0:2] in ByteArray._zlib_headers:
             try:
                 buffer = zlib.decompress(buffer)
                 compressed = True
-- 
2.43.0


From 04765468ec5ef968ec15a2b8a192a2ae83844ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 11/66] fix: raise UnknownClassAlias for aliases that are not
 importable

---
 pyamf/__init__.py      | 2 +-
 pyamf/util/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b71ae91..bd30b11 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -410,7 +410,7 @@ def load_class(alias):
         except (ImportError, AttributeError):
             pass
         else:
-            klass = getattr(module, klass)
+            klass = getattr(module, klass, None)
 
             if isinstance(klass, python.class_types):
                 return register_class(klass, alias)
diff --git a/pyamf/util/__init__.py b/pyamf/util/__init__.py
index e528917..345cfdb 100644
--- a/pyamf/util/__init__.py
+++ b/pyamf/util/__init__.py
@@ -196,7 +196,7 @@ def get_module(mod_name):
     """
     Load and return a module based on C{mod_name}.
     """
-    if mod_name is '':
+    if mod_name == '':
         raise ImportError('Unable to import empty module')
 
     mod = __import__(mod_name)
-- 
2.43.0


From cc3164f0d469b95065b79aa51c34486e8b33d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 12/66] fix: incomplete elements are neither dropped nor leave
 references behind

---
 pyamf/amf0.py  | 29 ++++++++++++++++++++++++++++-
 pyamf/amf3.py  | 18 ++++++++++++++++++
 pyamf/codec.py | 40 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 86 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 3e30d9c..41c9385 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -107,6 +107,29 @@ class Context(codec.Context):
         if decoder:
             decoder.context.clear()
 
+    def savepoint(self):
+        decoder = self.extra.get('amf3_decoder', None)
+
+        return (
+            codec.Context.savepoint(self),
+            decoder.context.savepoint() if decoder else None
+        )
+
+    def rollback(self, savepoint):
+        objects, amf3 = savepoint
+
+        codec.Context.rollback(self, objects)
+
+        decoder = self.extra.get('amf3_decoder', None)
+
+        if not decoder:
+            return
+
+        if amf3 is None:
+            decoder.context.clear()
+        else:
+            decoder.context.rollback(amf3)
+
     def getAMF3Encoder(self, amf0_encoder):
         encoder = self.extra.get('amf3_encoder', None)
 
@@ -300,7 +323,11 @@ class Decoder(codec.Decoder):
 
         @return: The AMF3 element read from the stream
         """
-        return self.context.getAMF3Decoder(self).readElement()
+        try:
+            return self.context.getAMF3Decoder(self).readElement()
+        except pyamf.EOStream:
+            # there must be an element after the marker
+            raise IOError('Unexpected end of stream')
 
     def readObjectAttributes(self, obj):
         obj_attrs = {}
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 0d6e204..9669d8b 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -630,6 +630,24 @@ class Context(codec.Context):
 
         self.class_idx = 0
 
+    def savepoint(self):
+        return (
+            codec.Context.savepoint(self),
+            len(self.strings),
+            self.class_idx
+        )
+
+    def rollback(self, savepoint):
+        objects, strings, class_idx = savepoint
+
+        codec.Context.rollback(self, objects)
+        self.strings.truncate(strings)
+
+        for ref in xrange(class_idx, self.class_idx):
+            del self.class_ref[ref]
+
+        self.class_idx = class_idx
+
     def getString(self, ref):
         """
         Gets a string based on a reference C{ref}.
diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7b87f2..d7a0419 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -52,6 +52,17 @@ class IndexedCollection(object):
         self.list = []
         self.dict = {}
 
+    def truncate(self, size):
+        """
+        Forgets every object except for the first C{size}.
+        """
+        objs = self.list[:size]
+
+        self.clear()
+
+        for obj in objs:
+            self.append(obj)
+
     def getByReference(self, ref):
         """
         Returns an object based on the supplied reference. The C{ref} should
@@ -183,6 +194,22 @@ class Context(object):
         self._unicodes = {}
         self.extra = {}
 
+    def savepoint(self):
+        """
+        Returns the current position of the reference tables.
+
+        @see: L{rollback}
+        """
+        return len(self._objects)
+
+    def rollback(self, savepoint):
+        """
+        Forgets all the references that were made after C{savepoint} was taken.
+
+        @see: L{savepoint}
+        """
+        self._objects.truncate(savepoint)
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
@@ -378,6 +405,10 @@ class Decoder(_Codec):
         try:
             t = self.stream.read(1)
         except IOError:
+            if self.__depth > 1:
+                # the enclosing element is incomplete
+                raise
+
             raise pyamf.EOStream
 
         try:
@@ -405,10 +436,19 @@ class Decoder(_Codec):
         @raise DecodeError: The ActionScript type is unsupported.
         @raise EOStream: No more data left to decode.
         """
+        if self.__depth == 0:
+            savepoint = self.context.savepoint()
+
         self.__depth += 1
 
         try:
             element = self._readElement()
+        except IOError:
+            if self.__depth == 1:
+                # the element will be read again when there is more data
+                self.context.rollback(savepoint)
+
+            raise
         finally:
             self.__depth -= 1
 
-- 
2.43.0


From 9ee8768183edbe97660245b14eb6aa7b18c4011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 13/66] fix: raise UnknownClassAlias for aliases without a
 matching attribute

---
 pyamf/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index bd30b11..b9e7808 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -412,7 +412,9 @@ def load_class(alias):
         else:
             klass = getattr(module, klass, None)
 
-            if isinstance(klass, python.class_types):
+            if klass is None:
+                pass
+            elif isinstance(klass, python.class_types):
                 return register_class(klass, alias)
             elif isinstance(klass, ClassAlias):
                 CLASS_CACHE[klass.alias] = klass
-- 
2.43.0


From bc12d1ce1d49e20334b330dc897227bb8312ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 14/66] fix: raise ReferenceError for every unknown AMF3
 reference

---
 pyamf/amf3.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 9669d8b..32b5291 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -873,6 +873,18 @@ class Decoder(codec.Decoder):
         """
         return decode_int(self.stream, signed)
 
+    def _getReferenced(self, ref, referenced):
+        if referenced is None:
+            raise pyamf.ReferenceError('Unknown reference %d' % (ref,))
+
+        return referenced
+
+    def _getObjectByReference(self, ref):
+        return self._getReferenced(ref, self.context.getObject(ref))
+
+    def _getStringByReference(self, ref):
+        return self._getReferenced(ref, self.context.getString(ref))
+
     def _readLength(self):
         x = decode_int(self.stream, False)
 
@@ -885,7 +897,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            return self.context.getString(length)
+            return self._getStringByReference(length)
 
         if length == 0:
             return ''
@@ -902,7 +914,7 @@ class Decoder(codec.Decoder):
         length, is_reference = self._readLength()
 
         if is_reference:
-            result = self.context.getString(length)
+            result = self._getStringByReference(length)
 
             return self.context.getStringForBytes(result)
 
@@ -923,7 +935,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObjectByReference(ref >> 1)
 
         ms = self.stream.read_double()
         result = util.get_datetime(ms / 1000.0)
@@ -946,7 +958,7 @@ class Decoder(codec.Decoder):
         size = self.readInteger(False)
 
         if size & REFERENCE_BIT == 0:
-            return self.context.getObject(size >> 1)
+            return self._getObjectByReference(size >> 1)
 
         size >>= 1
 
@@ -983,9 +995,8 @@ class Decoder(codec.Decoder):
         ref >>= 1
 
         if is_ref:
-            class_def = self.context.getClassByReference(ref)
-
-            return class_def
+            return self._getReferenced(
+                ref, self.context.getClassByReference(ref))
 
         name = self.readBytes()
         alias = None
@@ -1038,12 +1049,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self.context.getObject(ref >> 1)
-
-            if obj is None:
-                raise pyamf.ReferenceError(
-                    'Unknown reference %d' % (ref >> 1,)
-                )
+            obj = self._getObjectByReference(ref >> 1)
 
             if self.use_proxies is True:
                 obj = self.readProxy(obj)
@@ -1094,7 +1100,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObjectByReference(ref >> 1)
 
         xmlstring = self.stream.read(ref >> 1)
 
@@ -1128,7 +1134,7 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            return self.context.getObject(ref >> 1)
+            return self._getObjectByReference(ref >> 1)
 
         buffer = self.stream.read(ref >> 1)
         compressed = False
-- 
2.43.0


From a5420e2b326795edbe901aca320a428ef7611046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 15/66] fix: encode sparse and negative integer keys of mixed
 arrays in AMF3

---
 pyamf/amf3.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 32b5291..2997f8e 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1400,27 +1400,26 @@ class Encoder(codec.Encoder):
             else:
                 raise ValueError("Non int/str key value found in dict")
 
-        # Make sure the integer keys are within range
-        l = len(int_keys)
+        int_keys.sort()
 
-        for x in int_keys:
-            if l < x <= 0:
-                # treat as a string key
-                str_keys.append(x)
-                del int_keys[int_keys.index(x)]
+        # Integer keys that are not part of a dense range starting from 0 will
+        # be treated as strings
+        dense = 0
 
-        int_keys.sort()
+        while dense < len(int_keys) and int_keys[dense] == dense:
+            dense += 1
 
-        # If integer keys don't start at 0, they will be treated as strings
-        if len(int_keys) > 0 and int_keys[0] != 0:
-            for x in int_keys:
-                str_keys.append(str(x))
-                del int_keys[int_keys.index(x)]
+        str_keys.extend(int_keys[dense:])
+        del int_keys[dense:]
 
         self._writeInteger(len(int_keys) << 1 | REFERENCE_BIT)
 
         for x in str_keys:
-            self.serialiseString(x)
+            if isinstance(x, python.int_types):
+                self.serialiseString(str(x))
+            else:
+                self.serialiseString(x)
+
             self.writeElement(n[x])
 
         self.stream.write_uchar(0x01)
-- 
2.43.0


From 612fb1bcebb23ec2eefafed4118ef086b10c711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 16/66] fix: excluded attributes are never static attributes

---
 pyamf/alias.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 1ef3af3..e3158bc 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -227,8 +227,8 @@ class ClassAlias(object):
             if self.exclude_attrs:
                 self.static_attrs_set.difference_update(self.exclude_attrs)
 
-            for a in self.static_attrs_set:
-                if a not in self.static_attrs:
+            for a in self.static_attrs[:]:
+                if a not in self.static_attrs_set:
                     self.static_attrs.remove(a)
 
         if not self.exclude_attrs:
-- 
2.43.0


From 0cb90e22dbe8f7908736aef36d12481554de4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 17/66] fix: do not lose static attributes when decoded
 attributes are filtered

---
 pyamf/alias.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e3158bc..e7b0f4f 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -486,8 +486,6 @@ class ClassAlias(object):
                     )
                 )
 
-            props.difference_update(self.static_attrs)
-
         if not props:
             return attrs
 
-- 
2.43.0


From 0c2febf91d35bfde66db48a444032e507a971258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 18/66] fix: remoting names are measured in bytes, not in
 characters

---
 pyamf/remoting/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index f683b58..e7626f9 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -411,8 +411,11 @@ def _write_header(name, header, required, stream, encoder, strict=False):
         the correct header length after writing the header.
     @type strict: C{boolean}
     """
+    if isinstance(name, unicode):
+        name = name.encode('utf8')
+
     stream.write_ushort(len(name))
-    stream.write_utf8_string(name)
+    stream.write(name)
 
     stream.write_uchar(required)
     write_pos = stream.tell()
@@ -542,8 +545,11 @@ def _write_body(name, message, stream, encoder, strict=False):
     if isinstance(message, Request):
         response = name
 
+    if isinstance(response, unicode):
+        response = response.encode('utf8')
+
     stream.write_ushort(len(response))
-    stream.write_utf8_string(response)
+    stream.write(response)
 
     if not strict:
         stream.write_ulong(0)
-- 
2.43.0


From d82672af14c784f6e56ca9b051db68008187f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 19/66] fix: allow required headers to become optional again

---
 pyamf/remoting/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index e7626f9..d09c0ea 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -102,8 +102,11 @@ class HeaderCollection(dict):
         if idx not in self:
             raise KeyError("Unknown header %s" % str(idx))
 
-        if idx not in self.required and value:
-            self.required.append(idx)
+        if value:
+            if idx not in self.required:
+                self.required.append(idx)
+        elif idx in self.required:
+            self.required.remove(idx)
 
     def __len__(self):
         return len(self.keys())
-- 
2.43.0


From 44eb8789acc23b6d850c5c0f49b11c3467e544e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 20/66] fix: do not truncate an existing SOL file when encoding
 fails

---
 pyamf/sol.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyamf/sol.py b/pyamf/sol.py
index 6d0c788..f5ebce5 100644
--- a/pyamf/sol.py
+++ b/pyamf/sol.py
@@ -172,13 +172,17 @@ def save(sol, name_or_file, encoding=pyamf.AMF0):
     f = name_or_file
     opened = False
 
+    if not isinstance(name_or_file, basestring) and not hasattr(f, 'write'):
+        raise ValueError('Writable stream expected')
+
+    # don't touch an existing file if the encoding fails
+    data = encode(sol.name, sol, encoding=encoding).getvalue()
+
     if isinstance(name_or_file, basestring):
         f = open(name_or_file, 'wb+')
         opened = True
-    elif not hasattr(f, 'write'):
-        raise ValueError('Writable stream expected')
 
-    f.write(encode(sol.name, sol, encoding=encoding).getvalue())
+    f.write(data)
 
     if opened:
         f.close()
-- 
2.43.0


From eb8711947b4313b12c7d2822b654dd281b2af8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 21/66] fix: small messages with string based client and
 message ids

---
 pyamf/flex/messaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 67b3093..6b72be1 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -200,7 +200,8 @@ class AbstractMessage(object):
             attr = self.SMALL_UUIDS[flag]
             value = getattr(self, attr)
 
-            if not value:
+            if not isinstance(value, uuid.UUID):
+                # already encoded as a regular attribute
                 continue
 
             byte |= flag
-- 
2.43.0


From 48189860eb17e40370665865eac2b813da057a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 22/66] fix: small messages do not lose attributes with a false
 value

---
 pyamf/flex/messaging.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 6b72be1..32ce256 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -187,11 +187,14 @@ class AbstractMessage(object):
         byte = 0
 
         for flag in self.SMALL_ATTRIBUTE_FLAGS:
-            value = self.encodeSmallAttribute(self.SMALL_ATTRIBUTES[flag])
+            attr = self.SMALL_ATTRIBUTES[flag]
+            value = self.encodeSmallAttribute(attr)
 
-            if value:
-                byte |= flag
-                flag_attrs.append(value)
+            if value is None or (attr == 'headers' and not value):
+                continue
+
+            byte |= flag
+            flag_attrs.append(value)
 
         flags = byte
         byte = 0
@@ -423,7 +426,7 @@ class CommandMessage(AsyncMessage):
     def __writeamf__(self, output):
         AsyncMessage.__writeamf__(self, output)
 
-        if self.operation:
+        if self.operation is not None:
             output.writeUnsignedByte(0x01)
             output.writeObject(self.operation)
         else:
-- 
2.43.0


From 90a8e53da7259383c01aaf202749c051d5de2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 23/66] fix: exceptions with non ASCII byte messages do not
 fail the whole request

---
 pyamf/remoting/amf0.py |  7 ++++++-
 pyamf/remoting/amf3.py | 13 ++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 8ccf49d..373b2b3 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -184,8 +184,13 @@ def build_fault(cls, e, tb, include_traceback=False):
     if include_traceback:
         details = traceback.format_exception(cls, e, tb)
 
+    try:
+        description = unicode(e)
+    except UnicodeError:
+        description = str(e).decode('utf-8', 'replace')
+
     return remoting.ErrorFault(
         code=code,
-        description=unicode(e),
+        description=description,
         details=details
     )
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index ff26949..05f66b4 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -38,6 +38,13 @@ def generate_random_id():
     return str(uuid.uuid4())
 
 
+def to_unicode(value):
+    try:
+        return unicode(value)
+    except UnicodeError:
+        return str(value).decode('utf-8', 'replace')
+
+
 def generate_acknowledgement(request=None):
     ack = messaging.AcknowledgeMessage()
 
@@ -77,13 +84,13 @@ def generate_error(request, cls, e, tb, include_traceback=False):
     faultString = None
 
     if hasattr(e, 'message'):
-        faultString = unicode(e.message)
+        faultString = to_unicode(e.message)
     elif hasattr(e, 'args') and e.args:
         if isinstance(e.args[0], pyamf.python.str_types):
-            faultString = unicode(e.args[0])
+            faultString = to_unicode(e.args[0])
 
     if details:
-        faultDetail = unicode(details)
+        faultDetail = to_unicode(details)
 
     return messaging.ErrorMessage(
         messageId=generate_random_id(),
-- 
2.43.0


From e8219f8d3db9e4cb9f5c7dcb9006da66807657a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 24/66] fix: malformed RemoteObject requests do not fail the
 whole request

---
 pyamf/remoting/amf3.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 05f66b4..281638b 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -96,7 +96,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         messageId=generate_random_id(),
         clientId=generate_random_id(),
         timestamp=calendar.timegm(time.gmtime()),
-        correlationId=request.messageId,
+        correlationId=getattr(request, 'messageId', None),
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
@@ -220,9 +220,12 @@ class RequestProcessor(object):
         @return: The response to the request.
         @rtype: L{Response<pyamf.remoting.Response>}
         """
-        ro_request = amf_request.body[0]
+        ro_request = None
 
         try:
+            if amf_request.body:
+                ro_request = amf_request.body[0]
+
             body = self._getBody(amf_request, ro_request, **kwargs)
         except (KeyboardInterrupt, SystemExit):
             raise
@@ -232,16 +235,23 @@ class RequestProcessor(object):
             if hasattr(self.gateway, 'onServiceError'):
                 self.gateway.onServiceError(ro_request, fault)
             elif self.logger:
+                name = amf_request.target
+
+                if hasattr(ro_request, 'operation'):
+                    name = get_service_name(ro_request)
+
                 self.logger.exception(
-                    'Unexpected error while processing request %r',
-                    get_service_name(ro_request)
+                    'Unexpected error while processing request %r', name
                 )
 
             body = remoting.Response(fault, status=remoting.STATUS_ERROR)
 
         ro_response = body.body
 
-        dsid = ro_request.headers.get('DSId', None)
+        dsid = None
+
+        if isinstance(getattr(ro_request, 'headers', None), dict):
+            dsid = ro_request.headers.get('DSId', None)
 
         if not dsid or dsid == 'nil':
             dsid = generate_random_id()
-- 
2.43.0


From edc1567cb82d89cc30d070b00f8688a869d4425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 25/66] fix: authenticate RemoteObject calls

---
 pyamf/remoting/amf3.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 281638b..6e2fc00 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -34,6 +34,14 @@ class ServerCallFailed(BaseServerError):
     _amf_code = 'Server.Call.Failed'
 
 
+class AuthenticationError(BaseServerError):
+    """
+    The service refused the credentials of the request.
+    """
+
+    _amf_code = 'AuthenticationError'
+
+
 def generate_random_id():
     return str(uuid.uuid4())
 
@@ -115,6 +123,27 @@ class RequestProcessor(object):
 
         return self.gateway.logger
 
+    def authenticateRequest(self, amf_request, service_request, **kwargs):
+        """
+        Authenticates the request against the service.
+
+        @see: L{pyamf.remoting.amf0.RequestProcessor.authenticateRequest}
+        """
+        username = password = None
+
+        if amf_request.envelope and 'Credentials' in amf_request.headers:
+            cred = amf_request.headers['Credentials']
+
+            username = cred['userid']
+            password = cred['password']
+
+        return self.gateway.authenticateRequest(
+            service_request,
+            username,
+            password,
+            **kwargs
+        )
+
     def buildErrorResponse(self, request, error=None):
         """
         Builds an error response.
@@ -195,6 +224,10 @@ class RequestProcessor(object):
             service_name
         )
 
+        if not self.authenticateRequest(
+                amf_request, service_request, **kwargs):
+            raise AuthenticationError('Authentication failed')
+
         # fire the preprocessor (if there is one)
         self.gateway.preprocessRequest(
             service_request,
-- 
2.43.0


From c809ecc41d0ad6c06318c9fca2150f8d10f04867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 26/66] fix: lengths and references of 2^27 and more are read
 as they were sent

---
 pyamf/amf3.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2997f8e..b6a30df 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1657,12 +1657,8 @@ def decode_int(stream, signed=False):
         result <<= 8
         result |= b
 
-        if result & 0x10000000 != 0:
-            if signed:
-                result -= 0x20000000
-            else:
-                result <<= 1
-                result += 1
+        if signed and result & 0x10000000 != 0:
+            result -= 0x20000000
 
     return result
 
-- 
2.43.0


From 7c9ddb2c70e05a40c4aa9a012f776e53b8996d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 27/66] fix: being dynamic is inherited from the nearest base
 class

---
 pyamf/alias.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e7b0f4f..ceeefa2 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -182,10 +182,11 @@ class ClassAlias(object):
         if self.amf3 is None and alias.amf3:
             self.amf3 = alias.amf3
 
-        if self.dynamic is None and alias.dynamic is not None:
+        # base classes are compiled from the nearest to the furthest
+        if self.inherited_dynamic is None:
             self.inherited_dynamic = alias.dynamic
 
-        if alias.sealed is not None:
+        if self.inherited_sealed is None:
             self.inherited_sealed = alias.sealed
 
         if alias.synonym_attrs:
-- 
2.43.0


From 5511c483dcd440c35638427d383e5055f102c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 28/66] fix: synonyms do not assign excluded and readonly
 attributes

---
 pyamf/alias.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index ceeefa2..279458a 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -526,6 +526,9 @@ class ClassAlias(object):
 
         if self.synonym_attrs:
             missing = object()
+            # what must not be assigned, cannot be assigned by its synonym
+            filtered = set(self.readonly_attrs or [])
+            filtered.update(self.exclude_attrs or [])
 
             for k, v in self.synonym_attrs.iteritems():
                 value = attrs.pop(v, missing)
@@ -533,6 +536,9 @@ class ClassAlias(object):
                 if value is missing:
                     continue
 
+                if k in filtered:
+                    continue
+
                 attrs[k] = value
 
         return attrs
-- 
2.43.0


From ddd391ef4ee14a8b4258b3de07d5471209e02706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 29/66] fix: inherit synonyms by a class that declares
 attributes but no synonyms

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 279458a..f8a63f0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -192,7 +192,7 @@ class ClassAlias(object):
         if alias.synonym_attrs:
             x = self.synonym_attrs
             self.synonym_attrs = alias.synonym_attrs.copy()
-            self.synonym_attrs.update(x)
+            self.synonym_attrs.update(x or {})
 
     def _finalise_compile(self):
         if self.dynamic is None:
-- 
2.43.0


From 2796d2927beb9ffad66425fd213851670d35ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 30/66] fix: truncating a stream beyond its end keeps content
 and position

---
 pyamf/util/pure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 07161a5..693b585 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -109,7 +109,7 @@ class StringIOProxy(object):
 
         cur_pos = self.tell()
         self.seek(0)
-        buf = self.read(size)
+        buf = self.read(min(size, len(self)))
         self._buffer = StringIO()
 
         self._buffer.write(buf)
-- 
2.43.0


From 431b0cdc01f9a785032978d49de537dc5a7a720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 31/66] fix: a 24 bit integer that is not there leaves the
 position alone

---
 pyamf/util/pure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index 693b585..bcc6e47 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -371,8 +371,8 @@ class DataTypeMixIn(object):
 
         n = 0
 
-        for x in order:
-            n += (self.read_uchar() << x)
+        for x, c in zip(order, self._read(3)):
+            n += ord(c) << x
 
         return n
 
-- 
2.43.0


From 84be9207eda73e8a0605626283cb8a439be3ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:29 +0000
Subject: [PATCH 32/66] fix: an empty stream can be added to a stream

---
 pyamf/util/pure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/util/pure.py b/pyamf/util/pure.py
index bcc6e47..ff78953 100644
--- a/pyamf/util/pure.py
+++ b/pyamf/util/pure.py
@@ -622,7 +622,7 @@ class BufferedByteStream(StringIOProxy, DataTypeMixIn):
 
         other.seek(0)
         new.seek(0, 2)
-        new.write(other.read())
+        new.write(other.getvalue())
 
         self.seek(old_pos)
         other.seek(old_other_pos)
-- 
2.43.0


From 52dee1dca93d437875cafcc042ac4f12a51a63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 33/66] fix: objects in a little endian ByteArray are AMF,
 which is big endian

---
 pyamf/amf3.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index b6a30df..38e537a 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -526,12 +526,24 @@ class ByteArray(util.BufferedByteStream, DataInput, DataOutput):
     def readObject(self):
         self.context.clear()
 
-        return super(ByteArray, self).readObject()
+        # AMF is big endian, whatever the order of the other values
+        endian, self.endian = self.endian, self.ENDIAN_NETWORK
+
+        try:
+            return super(ByteArray, self).readObject()
+        finally:
+            self.endian = endian
 
     def writeObject(self, obj):
         self.context.clear()
 
-        return super(ByteArray, self).writeObject(obj)
+        # AMF is big endian, whatever the order of the other values
+        endian, self.endian = self.endian, self.ENDIAN_NETWORK
+
+        try:
+            return super(ByteArray, self).writeObject(obj)
+        finally:
+            self.endian = endian
 
     def __cmp__(self, other):
         if isinstance(other, ByteArray):
-- 
2.43.0


From ac7534c9543a7847ecb4bf57a0c5676ece48550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 34/66] fix: accept class aliases that are non ASCII unicode

---
 pyamf/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index f8a63f0..144afac 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -37,7 +37,7 @@ class ClassAlias(object):
         self.klass = klass
         self.alias = alias
 
-        if hasattr(self.alias, 'decode'):
+        if isinstance(self.alias, str):
             self.alias = self.alias.decode('utf-8')
 
         self.static_attrs = kwargs.pop('static_attrs', None)
-- 
2.43.0


From 089323ab464242bc1d585a418faa77f6e1374689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 35/66] fix: look up AMF3 class names as text, as they are
 registered

---
 pyamf/amf3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 38e537a..9201270 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1010,7 +1010,7 @@ class Decoder(codec.Decoder):
             return self._getReferenced(
                 ref, self.context.getClassByReference(ref))
 
-        name = self.readBytes()
+        name = self.readString()
         alias = None
 
         if name == '':
-- 
2.43.0


From eb89c9c86442b2f343c65e0d9c15da4cfa307519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 36/66] fix: non ASCII aliases that name no class are unknown

---
 pyamf/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b9e7808..7381289 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -407,11 +407,10 @@ def load_class(alias):
 
         try:
             module = util.get_module(module)
-        except (ImportError, AttributeError):
+            klass = getattr(module, klass, None)
+        except (ImportError, AttributeError, UnicodeError):
             pass
         else:
-            klass = getattr(module, klass, None)
-
             if klass is None:
                 pass
             elif isinstance(klass, python.class_types):
-- 
2.43.0


From dc738f23e76518b3a2d97a5470da2b934b2b393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 37/66] fix: load_class returns the ClassAlias found in a
 module

---
 pyamf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 7381289..c64e710 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -419,7 +419,7 @@ def load_class(alias):
                 CLASS_CACHE[klass.alias] = klass
                 CLASS_CACHE[klass.klass] = klass
 
-                return klass.klass
+                return klass
             else:
                 raise TypeError(
                     "Expecting class type or ClassAlias from loader"
-- 
2.43.0


From b5aaf63557e9954ee5a64eb349c6baf03fad7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 38/66] fix: unregister_class leaves other registrations alone

---
 pyamf/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index c64e710..6f6f022 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -284,10 +284,16 @@ def unregister_class(alias):
     except KeyError:
         raise UnknownClassAlias('Unknown alias %r' % (alias,))
 
-    if not x.anonymous:
+    # the alias or the class may have been registered again since
+    by_alias = CLASS_CACHE.get(x.alias)
+
+    if by_alias is not None and by_alias.klass is x.klass:
         del CLASS_CACHE[x.alias]
 
-    del CLASS_CACHE[x.klass]
+    by_class = CLASS_CACHE.get(x.klass)
+
+    if by_class is not None and by_class.alias == x.alias:
+        del CLASS_CACHE[x.klass]
 
     return x
 
-- 
2.43.0


From 0a215a32ee213e3d10b8072698162ce064a3db0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:21 +0000
Subject: [PATCH 39/66] fix: register_alias_type keeps anonymous classes and
 latest aliases

---
 pyamf/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 6f6f022..00b4af0 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -797,12 +797,9 @@ def register_alias_type(klass, *args):
 
         if new_alias is klass:
             meta = util.get_class_meta(v.klass)
-            meta['alias'] = v.alias
+            meta['alias'] = None if v.anonymous else v.alias
 
-            alias_klass = klass(v.klass, **meta)
-
-            CLASS_CACHE[k] = alias_klass
-            CLASS_CACHE[v.klass] = alias_klass
+            CLASS_CACHE[k] = klass(v.klass, **meta)
 
 
 def unregister_alias_type(klass):
-- 
2.43.0


From e4efce47bc1e25f2ffea0dfb6b108c8107b602f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 40/66] fix: references do not lead from one remoting header to
 another

---
 pyamf/remoting/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d09c0ea..d10eeed 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -660,6 +660,8 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
     header_count = stream.read_ushort()
 
     for i in xrange(header_count):
+        context.clear()
+
         name, required, data = _read_header(stream, decoder, strict)
         msg.headers[name] = data
 
@@ -716,6 +718,8 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
     stream.write_ushort(len(msg.headers))
 
     for name, header in msg.headers.iteritems():
+        encoder.context.clear()
+
         _write_header(
             name,
             header,
-- 
2.43.0


From d890d813d1c43e6bf6532f5e4078e7331329893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 41/66] fix: a remoting message has up to 65535 bodies

---
 pyamf/remoting/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d10eeed..1230937 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -668,7 +668,7 @@ def decode(stream, strict=False, logger=None, timezone_offset=None,
         if required:
             msg.headers.set_required(name)
 
-    body_count = stream.read_short()
+    body_count = stream.read_ushort()
 
     for i in xrange(body_count):
         context.clear()
@@ -729,7 +729,7 @@ def encode(msg, strict=False, logger=None, timezone_offset=None, **kwargs):
             strict,
         )
 
-    stream.write_short(len(msg))
+    stream.write_ushort(len(msg))
 
     for name, message in msg.iteritems():
         encoder.context.clear()
-- 
2.43.0


From b905d6cfed0b49d7928f41536ad5e60c666dc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 42/66] fix: only the status of a response is taken off its id

---
 pyamf/remoting/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index 1230937..d395ce0 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -482,6 +482,8 @@ def _read_body(stream, decoder, strict=False, logger=None):
         status = code
         target = target[:0 - len(s)]
 
+        break
+
     data_len = stream.read_ulong()
     pos = stream.tell()
 
-- 
2.43.0


From 122e4ee5f094d875ea27abfe086a3d6f4e21046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:13 +0000
Subject: [PATCH 43/66] fix: faults with any attributes can be read

---
 pyamf/remoting/__init__.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pyamf/remoting/__init__.py b/pyamf/remoting/__init__.py
index d395ce0..5f75a18 100644
--- a/pyamf/remoting/__init__.py
+++ b/pyamf/remoting/__init__.py
@@ -596,19 +596,12 @@ def get_fault_class(level, **kwargs):
 
 
 def get_fault(data):
-    try:
-        level = data['level']
-        del data['level']
-    except KeyError:
-        level = 'error'
-
+    level = data.get('level', 'error')
     e = {}
 
-    for x, y in data.iteritems():
-        if isinstance(x, unicode):
-            e[str(x)] = y
-        else:
-            e[x] = y
+    for x in ('code', 'type', 'details', 'description'):
+        if x in data:
+            e[x] = data[x]
 
     return get_fault_class(level, **e)(**e)
 
-- 
2.43.0


From 1b67c0ea611765d4524b28ae0b1776f9a0774438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 44/66] fix: exceptions that carry bytes can be encoded

---
 pyamf/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index 00b4af0..b72c9e9 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -239,7 +239,15 @@ class ErrorAlias(ClassAlias):
     def getEncodableAttributes(self, obj, **kwargs):
         attrs = ClassAlias.getEncodableAttributes(self, obj, **kwargs)
 
-        attrs['message'] = unicode(obj)
+        for name, value in attrs.items():
+            if isinstance(value, str):
+                attrs[name] = value.decode('utf-8', 'replace')
+
+        try:
+            attrs['message'] = unicode(obj)
+        except UnicodeError:
+            attrs['message'] = str(obj).decode('utf-8', 'replace')
+
         attrs['name'] = obj.__class__.__name__
 
         return attrs
-- 
2.43.0


From f59b30d8944ee79ecadbfa4d46b02717e5954eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 45/66] fix: exceptions that cannot be sent or printed do not
 fail the whole response

---
 pyamf/remoting/amf0.py |  2 ++
 pyamf/remoting/amf3.py | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 373b2b3..5554353 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -188,6 +188,8 @@ def build_fault(cls, e, tb, include_traceback=False):
         description = unicode(e)
     except UnicodeError:
         description = str(e).decode('utf-8', 'replace')
+    except Exception:
+        description = u''
 
     return remoting.ErrorFault(
         code=code,
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 6e2fc00..238a7a8 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -51,6 +51,21 @@ def to_unicode(value):
         return unicode(value)
     except UnicodeError:
         return str(value).decode('utf-8', 'replace')
+    except Exception:
+        return u''
+
+
+def get_root_cause(e):
+    """
+    The exception, unless it carries something that cannot be sent: that must
+    not make the whole response fail.
+    """
+    try:
+        pyamf.encode(e, encoding=pyamf.AMF3)
+    except Exception:
+        return None
+
+    return e
 
 
 def generate_acknowledgement(request=None):
@@ -79,7 +94,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         code = cls.__name__
 
     details = None
-    rootCause = e
+    rootCause = get_root_cause(e)
 
     if include_traceback:
         buffer = pyamf.util.BufferedByteStream()
-- 
2.43.0


From 1de7e5cb1be5c5fdbf45708a84ea006cab8ce850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 46/66] fix: methods with non ASCII names are unknown

---
 pyamf/remoting/gateway/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/gateway/__init__.py b/pyamf/remoting/gateway/__init__.py
index b5e32aa..b80bcba 100644
--- a/pyamf/remoting/gateway/__init__.py
+++ b/pyamf/remoting/gateway/__init__.py
@@ -91,7 +91,11 @@ class ServiceWrapper(object):
             service = self.service
 
         if method is not None:
-            method = str(method)
+            try:
+                method = str(method)
+            except UnicodeError:
+                raise UnknownServiceMethodError(
+                    "Unknown method %r" % (method,))
 
             if method.startswith('_'):
                 raise InvalidServiceMethodError(
-- 
2.43.0


From aa99916eaf3eb0f3b4017227a695a58227f4ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 47/66] fix: messages cut in front of a value are bad requests

---
 pyamf/remoting/gateway/django.py | 2 +-
 pyamf/remoting/gateway/wsgi.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/gateway/django.py b/pyamf/remoting/gateway/django.py
index 42e4788..80f6b5a 100644
--- a/pyamf/remoting/gateway/django.py
+++ b/pyamf/remoting/gateway/django.py
@@ -108,7 +108,7 @@ class DjangoGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
diff --git a/pyamf/remoting/gateway/wsgi.py b/pyamf/remoting/gateway/wsgi.py
index d5d7d6f..4794122 100644
--- a/pyamf/remoting/gateway/wsgi.py
+++ b/pyamf/remoting/gateway/wsgi.py
@@ -87,7 +87,7 @@ class WSGIGateway(gateway.BaseGateway):
                 logger=self.logger,
                 timezone_offset=timezone_offset
             )
-        except (pyamf.DecodeError, IOError):
+        except (pyamf.DecodeError, pyamf.EOStream, IOError):
             if self.logger:
                 self.logger.exception('Error decoding AMF request')
 
-- 
2.43.0


From 9c18f8c10b09309fc6469e032afa8a0d9f279f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 48/66] fix: client can send any request after the server
 appointed an URL

---
 pyamf/remoting/client/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 283b955..9834ff8 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -232,6 +232,10 @@ class RemotingService(object):
         self._setUrl(url)
 
     def _setUrl(self, url):
+        if isinstance(url, unicode):
+            # the transport cannot mix text with the bytes of the request
+            url = url.encode('utf-8')
+
         self.url = urlparse.urlparse(url)
         self._root_url = url
 
-- 
2.43.0


From 7bbb6258ae83bbe94640a2c49a93615c929ce48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 49/66] fix: a reply without content type is of the wrong type

---
 pyamf/remoting/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 9834ff8..1658cbf 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -469,7 +469,9 @@ class RemotingService(object):
             self.logger.debug('Content-Length: %r', content_length)
             self.logger.debug('Server: %r', server)
 
-        if content_type.split(';')[0].strip() != remoting.CONTENT_TYPE:
+        mime_type = (content_type or '').split(';')[0].strip()
+
+        if mime_type != remoting.CONTENT_TYPE:
             if self.logger:
                 self.logger.debug('Body = %s', fbh.read())
 
-- 
2.43.0


From 07dc63a76cb90bbea5f8ddf709a8a48139c66eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 50/66] fix: every transport failure is a remoting error

---
 pyamf/remoting/client/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/remoting/client/__init__.py b/pyamf/remoting/client/__init__.py
index 1658cbf..5ab6230 100644
--- a/pyamf/remoting/client/__init__.py
+++ b/pyamf/remoting/client/__init__.py
@@ -7,6 +7,8 @@ Remoting client implementation.
 @since: 0.1
 """
 
+import httplib
+import socket
 import urllib2
 import urlparse
 
@@ -450,7 +452,7 @@ class RemotingService(object):
 
         try:
             fbh = self.opener(http_request)
-        except urllib2.URLError, e:
+        except (urllib2.URLError, httplib.HTTPException, socket.error), e:
             if self.logger:
                 self.logger.exception('Failed request for %s', self._root_url)
 
-- 
2.43.0


From 486f1a38e597e401ff8eac5416e94b3539f94313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 51/66] fix: AMF0 encoders that use AMF3 write each value of a
 generator as AMF3

The AMF3 marker was written once for all of them.
---
 pyamf/amf0.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 41c9385..a967301 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -17,6 +17,7 @@ LocalConnection, SharedObjects and other classes in the Adobe Flash Player.
 """
 
 import datetime
+import types
 
 import pyamf
 from pyamf import util, codec, xml, python
@@ -439,10 +440,14 @@ class Encoder(codec.Encoder):
         return Context(**kwargs)
 
     def getTypeFunc(self, data):
+        t = type(data)
+
         if self.use_amf3:
-            return self.writeAMF3
+            if t is types.GeneratorType:
+                # each of the values is an AMF3 element
+                return self.writeGenerator
 
-        t = type(data)
+            return self.writeAMF3
 
         if t is pyamf.MixedArray:
             return self.writeMixedArray
-- 
2.43.0


From cbebb169a114987c72dceaab16f175835171f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 52/66] fix: dates without a time keep their midnight when
 there is an offset

Subtracting a timedelta from a date ignores all but its days.
---
 pyamf/amf0.py | 4 ++++
 pyamf/amf3.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index a967301..995b000 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -683,6 +683,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(d)
 
         if self.timezone_offset is not None:
+            if not isinstance(d, datetime.datetime):
+                # subtracting from a date would lose all but the days
+                d = datetime.datetime(d.year, d.month, d.day)
+
             d -= self.timezone_offset
 
         secs = util.get_timestamp(d)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 9201270..3fd70d2 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1335,6 +1335,10 @@ class Encoder(codec.Encoder):
         self.stream.write_uchar(REFERENCE_BIT)
 
         if self.timezone_offset is not None:
+            if not isinstance(n, datetime.datetime):
+                # subtracting from a date would lose all but the days
+                n = datetime.datetime(n.year, n.month, n.day)
+
             n -= self.timezone_offset
 
         ms = util.get_timestamp(n)
-- 
2.43.0


From de1f99dd6ba7c415852494d2a8fc54f67319de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 53/66] fix: XML with non ASCII names can be encoded

---
 pyamf/amf3.py | 5 ++++-
 pyamf/xml.py  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 3fd70d2..ec13cfa 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1595,7 +1595,10 @@ class Encoder(codec.Encoder):
         self.context.addObject(n)
 
         # XML documents never take part in the string reference table
-        buf = xml.tostring(n).encode('utf-8')
+        buf = xml.tostring(n)
+
+        if isinstance(buf, unicode):
+            buf = buf.encode('utf-8')
 
         self._writeInteger((len(buf) << 1) | REFERENCE_BIT)
         self.stream.write(buf)
diff --git a/pyamf/xml.py b/pyamf/xml.py
index 3fef97f..f6a1286 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -152,6 +152,9 @@ def tostring(element, *args, **kwargs):
             '(type %r)' % (element, t)
         )
 
+    # neither names nor all characters can be written as ASCII
+    kwargs.setdefault('encoding', 'utf-8')
+
     return etree.tostring(element, *args, **kwargs)
 
 
-- 
2.43.0


From 05a3ec7e02178626e19dce3f182cc9df2031016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 54/66] fix: text behind an XML element is not sent with the
 element

---
 pyamf/xml.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyamf/xml.py b/pyamf/xml.py
index f6a1286..59ae3ed 100644
--- a/pyamf/xml.py
+++ b/pyamf/xml.py
@@ -7,6 +7,8 @@ Provides XML support.
 @since: 0.6
 """
 
+import copy
+
 #: list of supported third party packages that support the C{etree}
 #: interface. At least enough for our needs anyway.
 ETREE_MODULES = [
@@ -152,6 +154,11 @@ def tostring(element, *args, **kwargs):
             '(type %r)' % (element, t)
         )
 
+    if getattr(element, 'tail', None):
+        # the text that follows is not part of the element
+        element = copy.copy(element)
+        element.tail = None
+
     # neither names nor all characters can be written as ASCII
     kwargs.setdefault('encoding', 'utf-8')
 
-- 
2.43.0


From aaf982100baf299de49779cde4a979a056ddcbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 55/66] fix: AMF0 documents with characters other than ASCII
 are read

---
 pyamf/amf0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 995b000..8631767 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -410,7 +410,8 @@ class Decoder(codec.Decoder):
         """
         Read XML.
         """
-        data = self.readLongString()
+        # the document says how it is encoded
+        data = self.stream.read(self.stream.read_ulong())
         root = xml.fromstring(
             data,
             forbid_dtd=self.context.forbid_dtd,
-- 
2.43.0


From b9d3d16288e8be74c20b048e0163f249d547c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 56/66] fix: import hooks run for a module that was loaded
 before or failed while another was imported

---
 pyamf/util/imports.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyamf/util/imports.py b/pyamf/util/imports.py
index 99b8471..9254ee2 100644
--- a/pyamf/util/imports.py
+++ b/pyamf/util/imports.py
@@ -84,10 +84,8 @@ class ModuleFinder(object):
 
             mod = sys.modules[name]
             self._run_hooks(name, mod)
-        except:
-            self.loaded_modules.pop()
-
-            raise
+        finally:
+            self.loaded_modules.remove(name)
 
         return mod
 
-- 
2.43.0


From 94d4305cfdf0c6bee4ec81fccb4a8951f4c7cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 57/66] fix: proxied lists and objects that contain themselves
 are received as they were sent

---
 pyamf/amf3.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index ec13cfa..2b155cf 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -737,11 +737,13 @@ class Context(codec.Context):
 
         return ref
 
-    def getObjectForProxy(self, proxy):
+    def getObjectForProxy(self, proxy, content=None):
         """
         Returns the unproxied version of C{proxy} as stored in the context, or
         unproxies the proxy and returns that 'raw' object.
 
+        @param content: The object that is about to be wrapped by C{proxy}, if
+            the proxy itself has not been read completely yet.
         @see: L{pyamf.flex.unproxy_object}
         @since: 0.6
         """
@@ -750,7 +752,13 @@ class Context(codec.Context):
         if obj is None:
             from pyamf import flex
 
-            obj = flex.unproxy_object(proxy)
+            if content is not None and (
+                    isinstance(proxy, flex.ObjectProxy) or
+                    isinstance(proxy, flex.ArrayCollection) and
+                    isinstance(content, list)):
+                obj = content
+            else:
+                obj = flex.unproxy_object(proxy)
 
             self.addProxyObject(obj, proxy)
 
@@ -827,13 +835,14 @@ class Decoder(codec.Decoder):
         elif data == TYPE_BYTEARRAY:
             return self.readByteArray
 
-    def readProxy(self, obj):
+    def readProxy(self, obj, content=None):
         """
         Decodes a proxied object from the stream.
 
+        @param content: See L{Context.getObjectForProxy}
         @since: 0.6
         """
-        return self.context.getObjectForProxy(obj)
+        return self.context.getObjectForProxy(obj, content)
 
     def readUndefined(self):
         """
@@ -1061,10 +1070,13 @@ class Decoder(codec.Decoder):
         ref = self.readInteger(False)
 
         if ref & REFERENCE_BIT == 0:
-            obj = self._getObjectByReference(ref >> 1)
+            ref >>= 1
+            obj = self._getObjectByReference(ref)
 
             if self.use_proxies is True:
-                obj = self.readProxy(obj)
+                # a proxy that is still being read refers to itself: what it
+                # wraps is the object that was read next
+                obj = self.readProxy(obj, self.context.getObject(ref + 1))
 
             return obj
 
-- 
2.43.0


From 9e6e6f352c2fa471f2c5d67b65e780d8ea2c8afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 58/66] fix: the compact form of messages with numbers as times

---
 pyamf/flex/messaging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyamf/flex/messaging.py b/pyamf/flex/messaging.py
index 32ce256..fc592d0 100644
--- a/pyamf/flex/messaging.py
+++ b/pyamf/flex/messaging.py
@@ -147,6 +147,10 @@ class AbstractMessage(object):
             return obj
 
         if attr in ['timestamp', 'timeToLive']:
+            if isinstance(obj, (int, long, float)):
+                # already in milliseconds
+                return obj
+
             return pyamf.util.get_timestamp(obj) * 1000.0
         elif attr in ['clientId', 'messageId']:
             if isinstance(obj, uuid.UUID):
-- 
2.43.0


From 38db425779801721d4e809ea45003a7c25a121c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 59/66] fix: a type mapping that gives None encodes null

---
 pyamf/codec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d7a0419..d73f529 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -471,9 +471,11 @@ class _CustomTypeFunc(object):
         self.func = func
 
     def __call__(self, data, **kwargs):
+        pos = self.encoder.stream.tell()
         ret = self.func(data, encoder=self.encoder)
 
-        if ret is not None:
+        if ret is not None or self.encoder.stream.tell() == pos:
+            # nothing has been written by the function itself
             self.encoder.writeElement(ret)
 
 
-- 
2.43.0


From 5771b86aeb05e32be880da482ebd06099c24215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 60/66] fix: type mappings can be removed by the list they were
 added with

---
 pyamf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyamf/__init__.py b/pyamf/__init__.py
index b72c9e9..4bcb143 100644
--- a/pyamf/__init__.py
+++ b/pyamf/__init__.py
@@ -661,6 +661,9 @@ def remove_type(type_):
     """
     declaration = get_type(type_)
 
+    if isinstance(type_, list):
+        type_ = tuple(type_)
+
     del TYPE_MAP[type_]
 
     return declaration
-- 
2.43.0


From bd29ab31360dda55808fef17c66d7e2013211605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 61/66] fix: proxied attributes are unproxied when nothing else
 is configured

---
 pyamf/alias.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 144afac..8db01ca 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -291,7 +291,8 @@ class ClassAlias(object):
 
         if (self.decodable_properties or self.static_attrs or
                 self.exclude_attrs or self.readonly_attrs or
-                not self.dynamic or self.external or self.synonym_attrs):
+                not self.dynamic or self.external or self.synonym_attrs or
+                self.proxy_attrs):
             self.shortcut_decode = False
 
         self.is_dict = False
-- 
2.43.0


From 60bdb85260de5a1f02bee16933f66919ac3b2fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 62/66] fix: classes with proxied attributes can be encoded as
 AMF0

---
 pyamf/codec.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyamf/codec.py b/pyamf/codec.py
index d73f529..be910e9 100644
--- a/pyamf/codec.py
+++ b/pyamf/codec.py
@@ -210,6 +210,21 @@ class Context(object):
         """
         self._objects.truncate(savepoint)
 
+    def getProxyForObject(self, obj):
+        """
+        Returns the proxied version of C{obj}. Proxies are specific to AMF3,
+        anything else knows only the object itself.
+        """
+        return obj
+
+    def getObjectForProxy(self, proxy):
+        """
+        Returns the unproxied version of C{proxy}.
+
+        @see: L{getProxyForObject}
+        """
+        return proxy
+
     def getObject(self, ref):
         """
         Gets an object based on a reference.
-- 
2.43.0


From 248f60cb70560a5d6e04be2fc05656c7afb3327d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 63/66] fix: proxied attributes and synonyms apply to classes
 that are not dynamic

---
 pyamf/alias.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index 8db01ca..e1e9425 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -415,25 +415,21 @@ class ClassAlias(object):
                     attrs[attr] = pyamf.Undefined
 
         if not self.dynamic:
-            if self.non_static_encodable_properties:
-                for attr in self.non_static_encodable_properties:
-                    attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-
-            return attrs
-
-        dynamic_props = util.get_properties(obj)
+            dynamic_props = self.non_static_encodable_properties or []
+        else:
+            dynamic_props = util.get_properties(obj)
 
-        if not self.shortcut_encode:
-            dynamic_props = set(dynamic_props)
+            if not self.shortcut_encode:
+                dynamic_props = set(dynamic_props)
 
-            if self.encodable_properties:
-                dynamic_props.update(self.encodable_properties)
+                if self.encodable_properties:
+                    dynamic_props.update(self.encodable_properties)
 
-            if self.static_attrs:
-                dynamic_props.difference_update(self.static_attrs)
+                if self.static_attrs:
+                    dynamic_props.difference_update(self.static_attrs)
 
-            if self.exclude_attrs:
-                dynamic_props.difference_update(self.exclude_attrs)
+                if self.exclude_attrs:
+                    dynamic_props.difference_update(self.exclude_attrs)
 
         for attr in dynamic_props:
             attrs[attr] = self.getAttribute(obj, attr, codec=codec)
-- 
2.43.0


From e7243e7c7882e458b78be07db4625e19b5cfadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 64/66] fix: synonyms apply to static attributes and may
 overlap

---
 pyamf/alias.py | 49 +++++++++++++++++++++++++------------------------
 pyamf/amf0.py  |  2 +-
 pyamf/amf3.py  |  4 ++--
 3 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/pyamf/alias.py b/pyamf/alias.py
index e1e9425..8ccd9c0 100644
--- a/pyamf/alias.py
+++ b/pyamf/alias.py
@@ -232,6 +232,10 @@ class ClassAlias(object):
                 if a not in self.static_attrs_set:
                     self.static_attrs.remove(a)
 
+        # the names under which the static attributes are sent
+        synonyms = self.synonym_attrs or {}
+        self.static_names = [synonyms.get(a, a) for a in self.static_attrs]
+
         if not self.exclude_attrs:
             self.exclude_attrs = None
         else:
@@ -442,15 +446,24 @@ class ClassAlias(object):
                     attrs[k] = context.getProxyForObject(v)
 
         if self.synonym_attrs:
-            missing = object()
+            attrs = self._rename(attrs, self.synonym_attrs.iteritems())
 
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(k, missing)
+        return attrs
 
-                if value is missing:
-                    continue
+    def _rename(self, attrs, names):
+        """
+        Returns a copy of C{attrs} in which the attributes are renamed.
 
-                attrs[v] = value
+        @param names: Pairs of present and future names. They may overlap.
+        """
+        attrs = attrs.copy()
+        renamed = {}
+
+        for old, new in names:
+            if old in attrs:
+                renamed[new] = attrs.pop(old)
+
+        attrs.update(renamed)
 
         return attrs
 
@@ -470,6 +483,12 @@ class ClassAlias(object):
         if not self._compiled:
             self.compile()
 
+        if self.synonym_attrs:
+            # all of the rules are about the names that the object knows
+            attrs = self._rename(
+                attrs, [(v, k) for k, v in self.synonym_attrs.iteritems()]
+            )
+
         changed = False
 
         props = set(attrs.keys())
@@ -515,29 +534,11 @@ class ClassAlias(object):
                 attrs[k] = context.getObjectForProxy(v)
 
         if changed:
-            # apply all filters before synonyms
             a = {}
 
             [a.__setitem__(p, attrs[p]) for p in props]
             attrs = a
 
-        if self.synonym_attrs:
-            missing = object()
-            # what must not be assigned, cannot be assigned by its synonym
-            filtered = set(self.readonly_attrs or [])
-            filtered.update(self.exclude_attrs or [])
-
-            for k, v in self.synonym_attrs.iteritems():
-                value = attrs.pop(v, missing)
-
-                if value is missing:
-                    continue
-
-                if k in filtered:
-                    continue
-
-                attrs[k] = value
-
         return attrs
 
     def applyAttributes(self, obj, attrs, codec=None):
diff --git a/pyamf/amf0.py b/pyamf/amf0.py
index 8631767..d227930 100644
--- a/pyamf/amf0.py
+++ b/pyamf/amf0.py
@@ -654,7 +654,7 @@ class Encoder(codec.Encoder):
         attrs = alias.getEncodableAttributes(o, codec=self)
 
         if alias.static_attrs and attrs:
-            for key in alias.static_attrs:
+            for key in alias.static_names:
                 value = attrs.pop(key)
 
                 self.serialiseString(key)
diff --git a/pyamf/amf3.py b/pyamf/amf3.py
index 2b155cf..d1ffaba 100644
--- a/pyamf/amf3.py
+++ b/pyamf/amf3.py
@@ -1539,9 +1539,9 @@ class Encoder(codec.Encoder):
 
         if alias.static_attrs:
             if not class_ref:
-                [self.serialiseString(attr) for attr in alias.static_attrs]
+                [self.serialiseString(attr) for attr in alias.static_names]
 
-            for attr in alias.static_attrs:
+            for attr in alias.static_names:
                 value = attrs.pop(attr)
 
                 self.writeElement(value)
-- 
2.43.0


From 84bbb844b81bbdedd9badb723672db3a7ed5b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 65/66] fix: tracebacks whose text is no UTF-8 can be sent

---
 pyamf/remoting/amf0.py | 7 ++++++-
 pyamf/remoting/amf3.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyamf/remoting/amf0.py b/pyamf/remoting/amf0.py
index 5554353..6d65c26 100644
--- a/pyamf/remoting/amf0.py
+++ b/pyamf/remoting/amf0.py
@@ -182,7 +182,12 @@ def build_fault(cls, e, tb, include_traceback=False):
     details = None
 
     if include_traceback:
-        details = traceback.format_exception(cls, e, tb)
+        details = [
+            # the text of an error may be anything
+            line if isinstance(line, unicode) else line.decode(
+                'utf-8', 'replace')
+            for line in traceback.format_exception(cls, e, tb)
+        ]
 
     try:
         description = unicode(e)
diff --git a/pyamf/remoting/amf3.py b/pyamf/remoting/amf3.py
index 238a7a8..ede7a16 100644
--- a/pyamf/remoting/amf3.py
+++ b/pyamf/remoting/amf3.py
@@ -123,7 +123,7 @@ def generate_error(request, cls, e, tb, include_traceback=False):
         faultCode=code,
         faultString=faultString,
         faultDetail=faultDetail,
-        extendedData=details,
+        extendedData=faultDetail,
         rootCause=rootCause)
 
 
-- 
2.43.0


From a457c0d924a94b1ad5b6e61128de84cadedc4881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:17 +0000
Subject: [PATCH 66/66] fix: an ObjectProxy of a value that is not an object
 can be encoded

---
 pyamf/flex/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyamf/flex/__init__.py b/pyamf/flex/__init__.py
index e934be0..5624f96 100644
--- a/pyamf/flex/__init__.py
+++ b/pyamf/flex/__init__.py
@@ -228,7 +228,17 @@ class ObjectProxy(object):
         self._amf_object = input.readObject()
 
     def __writeamf__(self, output):
-        output.encoder.writeObject(self._amf_object, is_proxy=True)
+        encoder = output.encoder
+        obj = self._amf_object
+        func = encoder.getTypeFunc(obj)
+
+        # anything can be wrapped (and is, when it was decoded)
+        if isinstance(obj, dict) or func == encoder.writeObject:
+            encoder.writeObject(obj, is_proxy=True)
+        elif func == encoder.writeList:
+            encoder.writeList(obj, is_proxy=True)
+        else:
+            encoder.writeElement(obj)
 
 
 def unproxy_object(obj):
-- 
2.43.0

