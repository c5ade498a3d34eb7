From 900ed697beddd2539e6c0ff133aa41586fa5a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 01/46] fix: ThreadAwareFile refuses write modes given by
 keyword, and mode 'x'

ThreadAwareFile(name, mode='w') bypassed the read-only check and truncated
the file; 'x' (exclusive creation) was not recognized as a write mode.
---
 ebmlite/threaded_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 20609b0..454aadf 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -45,9 +45,9 @@ class ThreadAwareFile(io.FileIO):
             one of the "read" modes (``r``, ``rb``, ``rU``, etc.).
         """
         # Ensure the file mode, if specified, is "read."
-        mode = args[1] if len(args) > 1 else 'r'
+        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
         if isinstance(mode, str):
-            if 'a' in mode or 'w' in mode or '+' in mode:
+            if any(m in mode for m in 'awx+'):
                 raise IOError("%s is read-only" % self.__class__.__name__)
 
         # Undocumented keyword argument `_new` is used by `makeThreadAware()`
-- 
2.43.0


From 387056cafdc9233539061f2c18bc2c232d1d73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 02/46] fix: ThreadAwareFile.close() and cleanup() raised
 RuntimeError

cleanup() deleted from the dictionary of streams while iterating over it, so
every close() failed, and looking up a stream in one thread while another
cleaned up could raise KeyError or discard a newly opened stream.
---
 ebmlite/threaded_file.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 454aadf..c79f051 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -15,7 +15,7 @@ __all__ = ['ThreadAwareFile']
 
 import io
 import platform
-from threading import currentThread, Event
+from threading import currentThread, Event, Lock
 from typing import BinaryIO, TextIO, Union
 
 
@@ -64,6 +64,7 @@ class ThreadAwareFile(io.FileIO):
         self._ready.set()
 
         self.threads = {}
+        self._lock = Lock()  # Guards `threads`. Never held during file I/O.
         
         if newFile is True:
             # Getting the stream for the thread will open the file.
@@ -108,12 +109,14 @@ class ThreadAwareFile(io.FileIO):
         self._ready.wait(self.timeout)
 
         ident = currentThread().ident
-        if ident not in self.threads:
+        with self._lock:
+            fp = self.threads.get(ident)
+        if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            self.threads[ident] = fp
-            return fp
-        return self.threads[ident]
+            with self._lock:
+                self.threads[ident] = fp
+        return fp
 
 
     def closeAll(self):
@@ -124,7 +127,9 @@ class ThreadAwareFile(io.FileIO):
         try:
             self._ready.wait(self.timeout)
             self._ready.clear()
-            for v in list(self.threads.values()):
+            with self._lock:
+                streams = list(self.threads.values())
+            for v in streams:
                 v.close()
         finally:
             self._ready.set()
@@ -137,9 +142,10 @@ class ThreadAwareFile(io.FileIO):
             self._ready.wait(self.timeout)
             self._ready.clear()
             
-            for i in self.threads.keys():
-                if self.threads[i].closed:
-                    del self.threads[i]
+            with self._lock:
+                for i, v in list(self.threads.items()):
+                    if v.closed:
+                        del self.threads[i]
         finally:
             self._ready.set()
 
@@ -149,10 +155,8 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        ident = currentThread().ident
-        if ident in self.threads:
-            return self.threads[ident].closed
-        return True
+        fp = self.threads.get(currentThread().ident)
+        return True if fp is None else fp.closed
 
 
     def close(self):
-- 
2.43.0


From 417ccf95e986195ec841572c38bcb4ff9a274edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 03/46] fix: ThreadAwareFile gave a new thread the stream of an
 ended one

Thread idents are reused once a thread ends, so a new thread could inherit an
ended thread's stream, and with it an arbitrary file position.
---
 ebmlite/threaded_file.py | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index c79f051..88b36ae 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -17,6 +17,7 @@ import io
 import platform
 from threading import currentThread, Event, Lock
 from typing import BinaryIO, TextIO, Union
+import weakref
 
 
 class ThreadAwareFile(io.FileIO):
@@ -64,6 +65,7 @@ class ThreadAwareFile(io.FileIO):
         self._ready.set()
 
         self.threads = {}
+        self._owners = {}  # Weak references to the streams' threads, by ident
         self._lock = Lock()  # Guards `threads`. Never held during file I/O.
         
         if newFile is True:
@@ -99,23 +101,50 @@ class ThreadAwareFile(io.FileIO):
             raise TypeError("Not a file: %r" % fileStream)
 
         f = cls(fileStream.name, fileStream.mode, _new=False)
-        f.threads[currentThread().ident] = fileStream
+        f._setThreadStream(fileStream)
         return f
 
 
+    def _setThreadStream(self, fp: Union[TextIO, BinaryIO]):
+        """ Make a stream the one used by the current thread.
+        """
+        thread = currentThread()
+        with self._lock:
+            self.threads[thread.ident] = fp
+            self._owners[thread.ident] = weakref.ref(thread)
+
+
+    def _findThreadStream(self) -> Union[TextIO, BinaryIO, None]:
+        """ Get the current thread's stream, if it has one. Thread idents
+            get reused, so the stream found may be one left by a thread that
+            has ended; if so, discard it.
+        """
+        thread = currentThread()
+        with self._lock:
+            fp = self.threads.get(thread.ident)
+            owner = self._owners.get(thread.ident)
+            if fp is None or owner is None or owner() is thread:
+                return fp
+            del self.threads[thread.ident]
+            del self._owners[thread.ident]
+
+        try:
+            fp.close()
+        except OSError:
+            pass
+        return None
+
+
     def getThreadStream(self) -> Union[TextIO, BinaryIO]:
         """ Get (or create) the file stream for the current thread.
         """
         self._ready.wait(self.timeout)
 
-        ident = currentThread().ident
-        with self._lock:
-            fp = self.threads.get(ident)
+        fp = self._findThreadStream()
         if fp is None:
             # First access from this thread. Open the file.
             fp = io.FileIO(*self.initArgs, **self.initKwargs)
-            with self._lock:
-                self.threads[ident] = fp
+            self._setThreadStream(fp)
         return fp
 
 
@@ -146,6 +175,7 @@ class ThreadAwareFile(io.FileIO):
                 for i, v in list(self.threads.items()):
                     if v.closed:
                         del self.threads[i]
+                        self._owners.pop(i, None)
         finally:
             self._ready.set()
 
@@ -155,7 +185,7 @@ class ThreadAwareFile(io.FileIO):
         """ Is the file not open? Note: A thread that never accessed the file
             will get `True`.
         """
-        fp = self.threads.get(currentThread().ident)
+        fp = self._findThreadStream()
         return True if fp is None else fp.closed
 
 
-- 
2.43.0


From 58e86b9e22962e0a429e3977edf42a93cbfbe2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 04/46] fix: ThreadAwareFile.readinto() and others used the
 base class' own file

readall(), readinto(), readable(), seekable() and writable() were inherited
from FileIO, whose own file is never opened, so they raised ValueError.
---
 ebmlite/threaded_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ebmlite/threaded_file.py b/ebmlite/threaded_file.py
index 88b36ae..e4d2ed9 100644
--- a/ebmlite/threaded_file.py
+++ b/ebmlite/threaded_file.py
@@ -233,6 +233,15 @@ class ThreadAwareFile(io.FileIO):
     def read(self, *args, **kwargs):
         return self.getThreadStream().read(*args, **kwargs)
 
+    def readable(self):
+        return self.getThreadStream().readable()
+
+    def readall(self):
+        return self.getThreadStream().read()
+
+    def readinto(self, *args, **kwargs):
+        return self.getThreadStream().readinto(*args, **kwargs)
+
     def readline(self, *args, **kwargs):
         return self.getThreadStream().readline(*args, **kwargs)
 
@@ -242,6 +251,9 @@ class ThreadAwareFile(io.FileIO):
     def seek(self, *args, **kwargs):
         return self.getThreadStream().seek(*args, **kwargs)
 
+    def seekable(self):
+        return self.getThreadStream().seekable()
+
     def tell(self):
         return self.getThreadStream().tell()
 
@@ -249,6 +261,9 @@ class ThreadAwareFile(io.FileIO):
         raise IOError("Can't truncate(); %s is read-only" %
                       self.__class__.__name__)
 
+    def writable(self):
+        return False
+
     def write(self, *args, **kwargs):
         raise IOError("Can't write(); %s is read-only" %
                       self.__class__.__name__)
-- 
2.43.0


From cc87b52809f1f3b9c68e460b9c00df29b4a1131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 05/46] fix: reading a value while another thread clears the
 cache gave None

Element.value, MasterElement.value, MasterElement.__len__() and
MasterElement.gc() read the cached value more than once, so a gc() by another
thread in between could make them return None or raise a TypeError.
---
 ebmlite/core.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index aa9fea2..9a173cb 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -186,11 +186,12 @@ class Element(object):
     @property
     def value(self):
         """ Parse and cache the element's value. """
-        if self._value is not None:
-            return self._value
-        self.stream.seek(self.payloadOffset)
-        self._value = self.parse(self.stream, self.size)
-        return self._value
+        # Note: another thread may clear the cached value at any time.
+        value = self._value
+        if value is None:
+            self.stream.seek(self.payloadOffset)
+            value = self._value = self.parse(self.stream, self.size)
+        return value
 
     def getRaw(self) -> bytes:
         """ Get the element's raw binary data, including EBML headers.
@@ -656,8 +657,9 @@ class MasterElement(Element):
         try:
             return self._length
         except AttributeError:
-            if self._value is not None:
-                self._length = len(self._value)
+            value = self._value
+            if value is not None:
+                self._length = len(value)
             else:
                 n = 0  # In case there's nothing to enumerate
                 for n, _el in enumerate(self.__iter__(nocache=True), 1):
@@ -669,10 +671,11 @@ class MasterElement(Element):
     def value(self) -> List[Element]:
         """ Parse and cache the element's value.
         """
-        if self._value is not None:
-            return self._value
-        self._value = list(self)
-        return self._value
+        # Note: another thread may clear the cached value at any time.
+        value = self._value
+        if value is None:
+            value = self._value = list(self)
+        return value
 
     def __getitem__(self, *args) -> Element:
         # TODO: Parse only the requested item(s), like `Document`
@@ -687,9 +690,10 @@ class MasterElement(Element):
             re-read from the file.
         """
         cleared = 0
-        if self._value is not None:
+        value = self._value
+        if value is not None:
             if recurse:
-                cleared = sum(ch.gc(recurse) for ch in self._value) + 1
+                cleared = sum(ch.gc(recurse) for ch in value) + 1
             self._value = None
         return cleared
 
-- 
2.43.0


From fff5424238f0d094a7aae3738ee87ed418deb80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:49 +0000
Subject: [PATCH 06/46] fix: data ending inside an element's header or unsigned
 integer is not misread

---
 ebmlite/decoding.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ebmlite/decoding.py b/ebmlite/decoding.py
index bb2dbb0..00b370d 100644
--- a/ebmlite/decoding.py
+++ b/ebmlite/decoding.py
@@ -87,6 +87,22 @@ def decodeIDLength(byte: int) -> Tuple[int, int]:
     raise IOError('Invalid length for ID: %d' % length)
 
 
+def _readHeader(stream: BinaryIO, size: int) -> bytes:
+    """ Read the rest of an element's ID or size descriptor.
+
+        :param stream: The source file-like object.
+        :param size: The number of bytes to read from the stream.
+        :raise TypeError: raised if the data ended too soon. This is the
+            error raised by `ord()` if there is no first byte, i.e. what
+            indicates the end of the data.
+    """
+    data = stream.read(size)
+    if len(data) < size:
+        raise TypeError("ord() expected a character, but the data ended "
+                        "within an element's header")
+    return data
+
+
 def readElementID(stream: BinaryIO) -> Tuple[int, int]:
     """ Read an element ID from a file (or file-like stream).
 
@@ -100,7 +116,7 @@ def readElementID(stream: BinaryIO) -> Tuple[int, int]:
     if length > 4:
         raise IOError('Cannot decode element ID with length > 4.')
     if length > 1:
-        eid = _struct_uint32_unpack((ch + stream.read(length-1)
+        eid = _struct_uint32_unpack((ch + _readHeader(stream, length-1)
                                      ).rjust(4, b'\x00'))[0]
     return eid, length
 
@@ -117,7 +133,7 @@ def readElementSize(stream: BinaryIO) -> Tuple[Optional[int], int]:
 
     if length > 1:
         size = _struct_uint64_unpack((chr(size).encode('latin-1') +
-                                      stream.read(length - 1)
+                                      _readHeader(stream, length - 1)
                                       ).rjust(8, b'\x00'))[0]
 
     if size == (2**(7*length)) - 1:
@@ -139,6 +155,9 @@ def readUInt(stream: BinaryIO, size: int) -> int:
         return 0
 
     data = stream.read(size)
+    if len(data) < size:
+        raise IOError("Unexpected end of data: read %d of %d bytes" %
+                      (len(data), size))
     return _struct_uint64_unpack_from(data.rjust(8, b'\x00'))[0]
 
 
-- 
2.43.0


From 23b1654b04ec74dc74eb7c2b1fef59c1602b0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 07/46] fix: size of sibling 'infinite' masters crawled every
 following one (recursion error)

---
 ebmlite/core.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 9a173cb..ca3d8a0 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -609,12 +609,15 @@ class MasterElement(Element):
                 self.stream.seek(pos)
                 end = pos
                 try:
-                    # TODO: Cache parsed elements?
-                    el, pos = self.parseElement(self.stream, nocache=True)
-                    if self._isValidChild(el.id):
-                        numChildren += 1
-                    else:
+                    # Check the ID before parsing the element; getting the size
+                    # of another 'infinite' element means crawling it, too.
+                    eid, _idlen = readElementID(self.stream)
+                    if not self._isValidChild(eid):
                         break
+                    self.stream.seek(pos)
+                    # TODO: Cache parsed elements?
+                    _el, pos = self.parseElement(self.stream, nocache=True)
+                    numChildren += 1
                 except TypeError as err:
                     # Will occur at end of file; message will contain "ord()".
                     if "ord()" in str(err):
-- 
2.43.0


From 4521303f0187c9b0d2e3599b995329528eec0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:47 +0000
Subject: [PATCH 08/46] fix: unreadable contents of an EBML header made it a
 root element despite headers=False

---
 ebmlite/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ca3d8a0..c3c7875 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -856,10 +856,10 @@ class Document(MasterElement):
             # Attempt to read the first element, which should be an EBML header.
             el, pos = self.parseElement(self.stream)
             if el.name == "EBML":
-                # Load 'header' info from the file
-                self.info = el.dump()
                 if not headers:
                     self.payloadOffset = pos
+                # Load 'header' info from the file
+                self.info = el.dump()
         except Exception:
             # Failed to read the first element. Don't raise here; do that when
             # the Document is actually used.
-- 
2.43.0


From e940b4da6ffd12bccb18ed2de184dec74dd440c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 09/46] fix: documents and master elements could not be encoded
 from lists of name/value tuples

---
 ebmlite/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index c3c7875..dcbb85f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -759,6 +759,14 @@ class MasterElement(Element):
                                          infinite=infinite))
             return result
 
+        if isinstance(data, (list, tuple)) and len(data) > 0 and isinstance(data[0], tuple):
+            # List of name/value tuples: the contents of a single element.
+            payload = cls.encodePayload(data, length=length)
+            length = cls.length if length is None else length
+            length = None if infinite else (length or len(payload))
+            return (encoding.encodeId(cls.id)
+                    + encoding.encodeSize(length, lengthSize) + payload)
+
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
         return super(MasterElement, cls).encode(data, length=length,
@@ -1022,7 +1030,8 @@ class Document(MasterElement):
                 raise TypeError('Cannot encode multiple Documents')
             else:
                 for v in data:
-                    stream.write(cls.encodePayload(v))
+                    # Items are name/value tuples or dictionaries
+                    stream.write(cls.encodePayload([v] if isinstance(v, tuple) else v))
         else:
             stream.write(cls.encodePayload(data))
 
-- 
2.43.0


From 74ad0b328915be2a87f780918ca5f2eb81e520b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 10/46] fix: a size too large for the requested length was
 silently encoded as another size

---
 ebmlite/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/encoding.py b/ebmlite/encoding.py
index f7b9e53..742e521 100644
--- a/ebmlite/encoding.py
+++ b/ebmlite/encoding.py
@@ -87,9 +87,13 @@ def encodeSize(val: Optional[int], length: Optional[int] = None) -> bytes:
         length = 1 if (length is None or length == -1) else length
         return b'\xff' * length
 
-    length = getLength(val) if (length is None or length == -1) else length
+    explicit = not (length is None or length == -1)
+    length = length if explicit else getLength(val)
     try:
         prefix = LENGTH_PREFIXES[length]
+        if explicit and val > prefix - 2:
+            # Too large; would collide with the length prefix (or 'unknown').
+            raise ValueError("Size %s does not fit" % val)
         return encodeUInt(val | prefix, length)
     except (IndexError, TypeError, ValueError):
         raise ValueError("Cannot encode element size %s" % length)
-- 
2.43.0


From 36964ce45d91814b8cebc9b57e8f66cd291bb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:35 +0000
Subject: [PATCH 11/46] fix: 'infinite' elements with an explicit size length
 were not readable

---
 ebmlite/core.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index dcbb85f..bdf3cd4 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -265,7 +265,16 @@ class Element(object):
         payload = cls.encodePayload(value, length=length)
         length = None if infinite else (length or len(payload))
         encId = encoding.encodeId(cls.id)
-        return encId + encoding.encodeSize(length, lengthSize) + payload
+        return encId + cls._encodeSize(length, lengthSize) + payload
+
+    @classmethod
+    def _encodeSize(cls, size: Optional[int], lengthSize: Optional[int]) -> bytes:
+        """ Encode the element's size. Unlike `encoding.encodeSize()`, 'unknown'
+            sizes (`None`) longer than one byte are encoded as they are read.
+        """
+        if size is None and lengthSize is not None and lengthSize > 1:
+            return encoding.encodeUInt(2**(7 * lengthSize + 1) - 1, lengthSize)
+        return encoding.encodeSize(size, lengthSize)
 
     def dump(self):
         """ Dump this element's value as nested dictionaries, keyed by
@@ -765,7 +774,7 @@ class MasterElement(Element):
             length = cls.length if length is None else length
             length = None if infinite else (length or len(payload))
             return (encoding.encodeId(cls.id)
-                    + encoding.encodeSize(length, lengthSize) + payload)
+                    + cls._encodeSize(length, lengthSize) + payload)
 
         # TODO: Remove 'infinite' kwarg from `Element.encode()` and handle it
         # here, since it only applied to Master elements.
-- 
2.43.0


From bb96b706100d798de2738530e0e70cda75090bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 12/46] fix: importing an unrecognized XML element set its ID
 on the shared UnknownElement class

---
 ebmlite/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 8dd6b97..abc2721 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -249,9 +249,10 @@ def xmlElement2ebml(xmlEl,
         if eid is None:
             raise NameError("Unrecognized EBML element name with no 'id' "
                             "attribute in XML: %s" % xmlEl.tag)
-        cls = core.UnknownElement
-        encId = encoding.encodeId(int(eid, 16))
-        cls.id = int(eid, 16)
+        # Note: the ID is set on a subclass; `UnknownElement` itself is shared.
+        cls = type("UnknownElement", (core.UnknownElement,),
+                   {'__slots__': (), 'id': int(eid, 16)})
+        encId = encoding.encodeId(cls.id)
 
     codec = xmlEl.get('encoding', 'base64')
 
-- 
2.43.0


From 8c7d6210f9d35876829be674a380024188cef3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:03 +0000
Subject: [PATCH 13/46] fix: xml2ebml(unknown=False) allowed unrecognized
 elements below the top level

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index abc2721..9646b81 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -275,7 +275,7 @@ def xmlElement2ebml(xmlEl,
         ebmlFile.write(encoding.encodeSize(None, sl))
         size = 0
         for chEl in xmlEl:
-            size += xmlElement2ebml(chEl, ebmlFile, schema, sl)
+            size += xmlElement2ebml(chEl, ebmlFile, schema, sl, unknown)
         endPos = ebmlFile.tell()
         ebmlFile.seek(sizePos)
         ebmlFile.write(encoding.encodeSize(size, sl))
-- 
2.43.0


From f05d9986ad99372ffddb663e99a2ccf054bf277e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:12 +0000
Subject: [PATCH 14/46] fix: sizeLength attributes in XML failed if a default
 sizeLength was given

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 9646b81..c4dd98c 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -267,7 +267,7 @@ def xmlElement2ebml(xmlEl,
         else:
             sl = int(sl)
     else:
-        sl = xmlEl.get('sizeLength', sizeLength)
+        sl = int(xmlEl.get('sizeLength', sizeLength))
 
     if issubclass(cls, core.MasterElement):
         ebmlFile.write(encId)
-- 
2.43.0


From 7278c03096e3525b15b781885ddde6ce278be2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:23 +0000
Subject: [PATCH 15/46] fix: converting XML with sizes overflowed a master's
 size if its descendants grew

---
 ebmlite/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index c4dd98c..191f650 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -261,7 +261,11 @@ def xmlElement2ebml(xmlEl,
         if sl is None:
             s = xmlEl.get('size', None)
             if s is not None:
-                sl = encoding.getLength(int(s))
+                s = int(s)
+                sl = encoding.getLength(s)
+                # Descendants will use the same length, which may make them
+                # (and so this element) larger.
+                sl = encoding.getLength(s + (sl - 1) * len(list(xmlEl.iter())))
             else:
                 sl = 4
         else:
-- 
2.43.0


From b6868bda53a53c0e15f3551690ca5dcdafc1128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:34 +0000
Subject: [PATCH 16/46] fix: dates could not be converted from XML to EBML

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 191f650..deaa1e2 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -18,6 +18,7 @@ __all__ = ['createID', 'validateID', 'toXml', 'xml2ebml', 'loadXml', 'pprint',
            'printSchemata', 'flatiter']
 
 import ast
+from datetime import datetime
 from io import BytesIO
 import pathlib
 import struct
@@ -288,6 +289,8 @@ def xmlElement2ebml(xmlEl,
 
     elif issubclass(cls, core.BinaryElement):
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
+    elif issubclass(cls, core.DateElement):
+        val = datetime.fromisoformat(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From 505f7946471237be86713e250cecbe348882cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 17/46] fix: non-finite floats could not be converted from XML
 to EBML

---
 ebmlite/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index deaa1e2..74b835f 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -291,6 +291,8 @@ def xmlElement2ebml(xmlEl,
         val = xml_codecs.BINARY_CODECS[codec].decode(xmlEl.text)
     elif issubclass(cls, core.DateElement):
         val = datetime.fromisoformat(xmlEl.get('value'))
+    elif issubclass(cls, core.FloatElement) and xmlEl.get('value').strip() in ('nan', 'inf', '-inf'):
+        val = float(xmlEl.get('value'))
     elif issubclass(cls, (core.IntegerElement, core.FloatElement)):
         val = ast.literal_eval(xmlEl.get('value'))
     else:
-- 
2.43.0


From eebaf004230352a0667d0822dc5087c3fbd1bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 18/46] fix: non-ASCII strings were escaped twice in XML

---
 ebmlite/tools/ebml2xml.py | 3 ++-
 ebmlite/tools/utils.py    | 3 ++-
 ebmlite/util.py           | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 5e3ca50..39e3fce 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -69,7 +69,8 @@ def main():
         if args.single:
             out.write(s)
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n', encoding='utf-8')
+            parseString(s).writexml(out, addindent='\t', newl='\n',
+                                    encoding=getattr(out, 'encoding', None) or 'utf-8')
 
 
 if __name__ == "__main__":
diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 7169429..118cec4 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,5 +33,6 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w')) as out:
+    with open(output, ('wb' if binary_output else 'w'),
+              encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
diff --git a/ebmlite/util.py b/ebmlite/util.py
index 74b835f..da32643 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -202,7 +202,7 @@ def toXml(el: core.Element,
         xmlEl.set('encoding', binary_codec.NAME)
         xmlEl.text = binary_codec.encode(el.value, offset=el.offset)
     elif not isinstance(el, core.VoidElement):
-        xmlEl.set('value', str(el.value).encode('ascii', 'xmlcharrefreplace').decode())
+        xmlEl.set('value', str(el.value))
 
     return xmlEl
 
-- 
2.43.0


From 574ecba06313a841c727b8e494fb2aa4966e4d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 19/46] fix: zero-length integer elements could not be
 converted from XML to EBML

---
 ebmlite/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index da32643..857bba0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -305,7 +305,11 @@ def xmlElement2ebml(xmlEl,
     if sl is not None:
         sl = int(sl)
 
-    encoded = cls.encode(val, size, lengthSize=sl)
+    if size == 0 and not val and issubclass(cls, core.IntegerElement):
+        # Zero may be stored in zero bytes, but `encode()` doesn't allow it.
+        encoded = encId + encoding.encodeSize(0, sl)
+    else:
+        encoded = cls.encode(val, size, lengthSize=sl)
     ebmlFile.write(encoded)
     return len(encoded)
 
-- 
2.43.0


From 31cc2ee0073e71f574f4295930e4eef0455f9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 20/46] fix: Base64Codec(cols=0) raised an exception when
 encoding

---
 ebmlite/xml_codecs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/xml_codecs.py b/ebmlite/xml_codecs.py
index 62407ca..95712f6 100644
--- a/ebmlite/xml_codecs.py
+++ b/ebmlite/xml_codecs.py
@@ -130,7 +130,7 @@ class Base64Codec(BinaryCodec):
 
         result = result.replace('\n', '')
 
-        if self.cols is None:
+        if not self.cols:
             if stream is not None:
                 return out.write(result)
             return result
-- 
2.43.0


From 285ed823e2e2704271a0f8b224f4a0013ab14361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 21/46] fix: xml2ebml() left the EBML file open (or emptied it)
 if the conversion failed

---
 ebmlite/util.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 857bba0..69764af 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -343,12 +343,6 @@ def xml2ebml(xmlFile,
         :return: the size of the ebml file in bytes.
         :raise NameError: raises if an xml element is not present in the schema.
     """
-    if isinstance(ebmlFile, (str, Path)):
-        ebmlFile = open(ebmlFile, 'wb')
-        openedEbml = True
-    else:
-        openedEbml = False
-
     if not isinstance(schema, core.Schema):
         schema = core.loadSchema(schema)
 
@@ -366,6 +360,11 @@ def xml2ebml(xmlFile,
         raise NameError("XML element %s not an element or document in "
                         "schema %s (wrong schema)" % (xmlRoot.tag, schema.name))
 
+    if isinstance(ebmlFile, (str, Path)):
+        with open(ebmlFile, 'wb') as stream:
+            return xml2ebml(xmlRoot, stream, schema, sizeLength=sizeLength,
+                            headers=headers, unknown=unknown)
+
     headers = headers and 'EBML' in schema
     if headers and 'EBML' not in (el.tag for el in xmlRoot):
         pos = ebmlFile.tell()
@@ -383,9 +382,6 @@ def xml2ebml(xmlFile,
         numBytes += xmlElement2ebml(xmlRoot, ebmlFile, schema, sizeLength,
                                     unknown=unknown)
 
-    if openedEbml:
-        ebmlFile.close()
-
     return numBytes
 
 # ===========================================================================
-- 
2.43.0


From 1c1bbaa62b00a7dab0f46c9295d1fa84c412f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:26 +0000
Subject: [PATCH 22/46] fix: loadXml() did not accept a schema filename, as
 documented

---
 ebmlite/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 69764af..d30be5a 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -403,6 +403,9 @@ def loadXml(xmlFile,
             automatically-generated temporary file.
         :return The root node of the specified EBML file.
     """
+    if not isinstance(schema, core.Schema):
+        schema = core.loadSchema(schema)
+
     if ebmlFile == ":memory:":
         ebmlFile = BytesIO()
         xml2ebml(xmlFile, ebmlFile, schema)
-- 
2.43.0


From c632960fdbf92ba3f25d4dd3b10e911fa67b17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:09 +0000
Subject: [PATCH 23/46] fix: XML made from documents opened by Path, or of
 schemata not from files, could not be saved

---
 ebmlite/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index d30be5a..f8decc5 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -176,9 +176,9 @@ def toXml(el: core.Element,
     else:
         xmlEl = ET.SubElement(parent, elname)
     if isinstance(el, core.Document):
-        xmlEl.set('source', el.filename)
+        xmlEl.set('source', str(el.filename))
         xmlEl.set('schemaName', el.schema.name)
-        xmlEl.set('schemaFile', el.schema.filename)
+        xmlEl.set('schemaFile', str(el.schema.filename or ''))
     else:
         if ids and isinstance(el.id, int):
             xmlEl.set('id', "0x%X" % el.id)
-- 
2.43.0


From c5a97b90e1c9252947e6514958f804973ae2bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:20 +0000
Subject: [PATCH 24/46] fix: xml2ebml() added a second header if the XML root
 was the EBML element

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index f8decc5..6196597 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -366,7 +366,7 @@ def xml2ebml(xmlFile,
                             headers=headers, unknown=unknown)
 
     headers = headers and 'EBML' in schema
-    if headers and 'EBML' not in (el.tag for el in xmlRoot):
+    if headers and 'EBML' not in (xmlRoot.tag, *(el.tag for el in xmlRoot)):
         pos = ebmlFile.tell()
         cls = schema.document
         ebmlFile.write(cls.encodePayload(cls._createHeaders()))
-- 
2.43.0


From c8b85ac340fde9894bb6d02eef07de7e816cc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:03 +0000
Subject: [PATCH 25/46] fix: threads loading the same schema at once got
 different instances

---
 ebmlite/core.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index bdf3cd4..dcb18bc 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -47,11 +47,13 @@ __all__ = ['BinaryElement', 'DateElement', 'Document', 'Element',
 from ast import literal_eval
 from datetime import datetime
 import errno
+from functools import wraps
 import importlib.resources as importlib_resources
 from io import BytesIO, StringIO, IOBase
 import os.path
 from pathlib import Path
 import re
+from threading import RLock
 import types
 from typing import Any, BinaryIO, Dict, List, Optional, TextIO, Tuple, Union
 from xml.etree import ElementTree as ET
@@ -78,6 +80,7 @@ SCHEMA_PATH.extend(p for p in os.environ.get('EBMLITE_SCHEMA_PATH', '').split(os
 # SCHEMATA: A dictionary of loaded schemata, keyed by filename. Used by
 # `loadSchema()`. In most cases, SCHEMATA should not be otherwise modified.
 SCHEMATA = {}
+_schemataLock = RLock()
 
 
 # ==============================================================================
@@ -1574,6 +1577,19 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
     return schemata
 
 
+def _synchronized(func):
+    """ Decorator for functions that change `SCHEMATA`, so that only one thread
+        at a time will do so.
+    """
+    @wraps(func)
+    def wrapped(*args, **kwargs):
+        with _schemataLock:
+            return func(*args, **kwargs)
+
+    return wrapped
+
+
+@_synchronized
 def loadSchema(filename: Union[str, Path],
                reload: bool = False,
                paths: Optional[str] = None,
@@ -1635,6 +1651,7 @@ def loadSchema(filename: Union[str, Path],
     return schema
 
 
+@_synchronized
 def parseSchema(src: str,
                 name: Optional[str] = None,
                 reload: bool = False,
-- 
2.43.0


From 9f84d03421d95832b018d190e8a7ff82d7e273b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 26/46] fix: reloading a schema left the old instance in use
 under its other names

---
 ebmlite/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index dcb18bc..7b93ae7 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1647,7 +1647,10 @@ def loadSchema(filename: Union[str, Path],
     with filename.open() as fs:
         schema = Schema(fs, **kwargs)
 
-    SCHEMATA[str(filename)] = SCHEMATA[origName] = schema
+    # If reloading, also replace the old instance under any other names.
+    old = SCHEMATA.get(str(filename), schema)
+    names = [k for k, v in SCHEMATA.items() if v is old]
+    SCHEMATA.update(dict.fromkeys([str(filename), origName, *names], schema))
     return schema
 
 
-- 
2.43.0


From f2b7b42e99d6387820897096ba7015385ee24bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 27/46] fix: loading a schema by another path to the same file
 made another instance

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 7b93ae7..ff44d3b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1636,7 +1636,7 @@ def loadSchema(filename: Union[str, Path],
                     continue
 
     if hasattr(filename, 'expanduser'):
-        filename = filename.expanduser().absolute()
+        filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
         return SCHEMATA[str(filename)]
-- 
2.43.0


From ffa261a306e63419254a445a8974d3e1128bb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 28/46] fix: a schema found again by another name was not
 cached under that name

---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index ff44d3b..37bcb75 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1639,7 +1639,8 @@ def loadSchema(filename: Union[str, Path],
         filename = filename.expanduser().resolve()
 
     if str(filename) in SCHEMATA and not reload:
-        return SCHEMATA[str(filename)]
+        SCHEMATA[origName] = SCHEMATA[str(filename)]
+        return SCHEMATA[origName]
 
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
-- 
2.43.0


From 8e9765c80e77e318b7f1cff884522bfe37f74119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 29/46] fix: a document's file was left open if the document
 could not be created

---
 ebmlite/core.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 37bcb75..7b6563d 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -840,6 +840,20 @@ class Document(MasterElement):
             stream = open(stream, 'rb')
             self._ownsStream = True
 
+        try:
+            self._setStream(stream, name, size, headers)
+        except BaseException:
+            if self._ownsStream:
+                stream.close()
+            raise
+
+    def _setStream(self,
+                   stream: BinaryIO,
+                   name: Optional[str],
+                   size: Optional[int],
+                   headers: bool):
+        """ Prepare to read from a stream. For parameters, see `__init__()`.
+        """
         if not all((hasattr(stream, 'read'),
                     hasattr(stream, 'tell'),
                     hasattr(stream, 'seek'))):
-- 
2.43.0


From ff737de1020cf58dcc8e9e28c5471512acd33718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 30/46] fix: tools could overwrite a file created while they
 ran, without --clobber

---
 ebmlite/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 118cec4..865a5c3 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -33,6 +33,6 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
-    with open(output, ('wb' if binary_output else 'w'),
+    with open(output, ('w' if args.clobber else 'x') + ('b' if binary_output else ''),
               encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
-- 
2.43.0


From 50b54f055dd8169e4342a4f977ae577e8e9c4732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 31/46] fix: tools could not write binary output to stdout

---
 ebmlite/tools/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 865a5c3..5c1cff8 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -1,4 +1,5 @@
 import contextlib
+from io import BytesIO
 import sys
 import os.path
 
@@ -27,7 +28,13 @@ def load_files(args, binary_output=False):
         errPrint("Error loading schema: %s\n" % err)
 
     if not args.output:
-        yield schema, sys.stdout
+        if not binary_output:
+            yield schema, sys.stdout
+            return
+        out = BytesIO()  # (the actual output may not be seekable)
+        yield schema, out
+        sys.stdout.buffer.write(out.getvalue())
+        sys.stdout.buffer.flush()
         return
 
     output = os.path.realpath(os.path.expanduser(args.output))
-- 
2.43.0


From 9855753d93e91a02dd5bd3fdeef601457c0e1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 32/46] fix: tools with --clobber destroyed their own input if
 it was also the output

---
 ebmlite/tools/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/tools/utils.py b/ebmlite/tools/utils.py
index 5c1cff8..f511b49 100644
--- a/ebmlite/tools/utils.py
+++ b/ebmlite/tools/utils.py
@@ -40,6 +40,10 @@ def load_files(args, binary_output=False):
     output = os.path.realpath(os.path.expanduser(args.output))
     if os.path.exists(output) and not args.clobber:
         errPrint("Error: Output file already exists: %s" % args.output)
+    with contextlib.suppress(FileNotFoundError, NotADirectoryError):
+        for source in filter(None, (args.input, schema.filename)):
+            if os.path.samefile(source, output):
+                errPrint("Error: Output file is also the source: %s" % args.output)
     with open(output, ('w' if args.clobber else 'x') + ('b' if binary_output else ''),
               encoding=(None if binary_output else 'utf-8')) as out:
         yield schema, out
-- 
2.43.0


From 105dba698fce70c7fdad0fe484719fc42d6ff90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 33/46] fix: an I/O error while opening a document hid its
 header instead of being raised

---
 ebmlite/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 7b6563d..97c1a2f 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -894,10 +894,12 @@ class Document(MasterElement):
                     self.payloadOffset = pos
                 # Load 'header' info from the file
                 self.info = el.dump()
-        except Exception:
+        except Exception as err:
             # Failed to read the first element. Don't raise here; do that when
-            # the Document is actually used.
-            pass
+            # the Document is actually used (unless it was the file that
+            # failed; the Document would be without its header later).
+            if isinstance(err, OSError) and err.errno is not None:
+                raise
 
     def __repr__(self) -> str:
         """ "x.__repr__() <==> repr(x) """
-- 
2.43.0


From d7584a3765dc00a173b884b16e6fc85508274be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 34/46] fix: listSchemata() left out legacy schemata, which
 loadSchema() finds

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 97c1a2f..1e6ec00 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1584,7 +1584,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                 try:
                     # Casting to string is py35 fix. Remove in future.
                     xml = ET.parse(str(p))
-                    if xml.getroot().tag == 'Schema':
+                    if xml.getroot().tag in ('Schema', 'table'):
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
                 except (ET.ParseError, IOError, TypeError):
-- 
2.43.0


From b77785157e4cfd215be1a84b38668182155bec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 35/46] fix: listSchemata() left out schemata of zipped
 packages, which loadSchema() finds

---
 ebmlite/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 1e6ec00..8411b4b 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1582,8 +1582,8 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
             key = p.name
             if key.lower().endswith('.xml'):
                 try:
-                    # Casting to string is py35 fix. Remove in future.
-                    xml = ET.parse(str(p))
+                    with p.open('rb') as fs:
+                        xml = ET.parse(fs)
                     if xml.getroot().tag in ('Schema', 'table'):
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-- 
2.43.0


From 40ffcdce0427b8e3bad2bcf178b38156fecdde2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 36/46] fix: listSchemata(absolute=False) left out schemata of
 module instances

---
 ebmlite/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 8411b4b..f5b2e27 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1578,6 +1578,9 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
         if not fullpath.is_dir():
             continue
 
+        if isinstance(path, types.ModuleType):
+            path = '{%s}' % path.__name__
+
         for p in fullpath.iterdir():
             key = p.name
             if key.lower().endswith('.xml'):
-- 
2.43.0


From c205ff0d928324c9c0b2e16170417fb4ed8b0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 37/46] fix: loadSchema() ignored the encoding declared by the
 schema file

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index f5b2e27..3b593a2 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1664,7 +1664,7 @@ def loadSchema(filename: Union[str, Path],
     if not filename.is_file():
         raise IOError(errno.ENOENT, 'Could not find schema XML', origName)
 
-    with filename.open() as fs:
+    with filename.open('rb') as fs:
         schema = Schema(fs, **kwargs)
 
     # If reloading, also replace the old instance under any other names.
-- 
2.43.0


From b674c05e716d8848f6bbd0119837a4a34036b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 38/46] fix: one schema file in an unknown encoding made
 listSchemata() fail

---
 ebmlite/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3b593a2..a071a57 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1590,7 +1590,7 @@ def listSchemata(*paths, absolute: bool = True) -> Dict[str, List[Schema]]:
                     if xml.getroot().tag in ('Schema', 'table'):
                         value = p if absolute else Path(path) / p.name
                         schemata.setdefault(key, []).append(value)
-                except (ET.ParseError, IOError, TypeError):
+                except Exception:  # malformed, unreadable, unknown encoding, etc.
                     continue
 
     return schemata
-- 
2.43.0


From 0ab355bf494dc78d50d8b7195f6896d10df16b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 39/46] fix: printSchemata() extended its caller's list of
 paths

---
 ebmlite/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 6196597..1f1bf81 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -507,7 +507,7 @@ def printSchemata(paths: Optional[List[Union[str, Path]]] = None,
 
     try:
         if paths:
-            paths.extend(core.SCHEMA_PATH)
+            paths = [*paths, *core.SCHEMA_PATH]
         else:
             paths = core.SCHEMA_PATH
         schemata = core.listSchemata(*paths, absolute=absolute)
-- 
2.43.0


From 1b9ddbf0030dada908abc82f274ede4eaa61ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 40/46] fix: ebml2xml lost line breaks and tabs in values, and
 wrote unreadable XML

---
 ebmlite/tools/ebml2xml.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 39e3fce..7b512e1 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -1,5 +1,4 @@
 import argparse
-from xml.dom.minidom import parseString
 from xml.etree import ElementTree as ET
 
 from ebmlite.tools import utils
@@ -65,12 +64,16 @@ def main():
             root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
         else:
             root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
+        if not args.single:
+            ET.indent(root, '\t')
         s = ET.tostring(root, encoding="utf-8")
+        ET.fromstring(s)  # Fail if there are values that XML can't represent
         if args.single:
             out.write(s)
         else:
-            parseString(s).writexml(out, addindent='\t', newl='\n',
-                                    encoding=getattr(out, 'encoding', None) or 'utf-8')
+            # Note: unlike `minidom`, this keeps line breaks and tabs in values
+            out.write('<?xml version="1.0" encoding="%s"?>\n%s\n' %
+                      (getattr(out, 'encoding', None) or 'utf-8', s.decode('utf-8')))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From cd2abb005920ad34c2b691404070ffad1324b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:54 +0000
Subject: [PATCH 41/46] fix: a document's size ended at its first unlisted root
 element, and then so did its length

---
 ebmlite/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index a071a57..cf3e474 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -908,6 +908,13 @@ class Document(MasterElement):
         return "<%s %r at 0x%08X>" % (self.__class__.__name__, self.name,
                                       id(self))
 
+    @classmethod
+    def _isValidChild(cls, elId: int) -> bool:
+        """ Is the given element ID represent a valid sub-element? Anything
+            can be found at a document's root level (see `__iter__()`).
+        """
+        return True
+
     def __enter__(self):
         """ Enter context manager for this document.
         """
-- 
2.43.0


From 515c6bda0184157d61f4140624b6631211ed309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 42/46] fix: ebml2xml and view_ebml left their input file open

---
 ebmlite/tools/ebml2xml.py  | 10 +++++-----
 ebmlite/tools/view_ebml.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ebmlite/tools/ebml2xml.py b/ebmlite/tools/ebml2xml.py
index 7b512e1..ebb559e 100644
--- a/ebmlite/tools/ebml2xml.py
+++ b/ebmlite/tools/ebml2xml.py
@@ -59,11 +59,11 @@ def main():
     codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()](**codecargs)
 
     with utils.load_files(args, binary_output=args.single) as (schema, out):
-        doc = schema.load(args.input, headers=True)
-        if args.max:
-            root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
-        else:
-            root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
+        with schema.load(args.input, headers=True) as doc:
+            if args.max:
+                root = ebmlite.util.toXml(doc, offsets=True, sizes=True, types=True, ids=True, binary_codec=codec)
+            else:
+                root = ebmlite.util.toXml(doc, offsets=False, sizes=False, types=False, ids=False, binary_codec=codec)
         if not args.single:
             ET.indent(root, '\t')
         s = ET.tostring(root, encoding="utf-8")
diff --git a/ebmlite/tools/view_ebml.py b/ebmlite/tools/view_ebml.py
index 4123201..fb6eb85 100644
--- a/ebmlite/tools/view_ebml.py
+++ b/ebmlite/tools/view_ebml.py
@@ -49,8 +49,8 @@ def main():
     codec = ebmlite.xml_codecs.BINARY_CODECS[args.encoding.strip().lower()]()
 
     with utils.load_files(args, binary_output=False) as (schema, out):
-        doc = schema.load(args.input, headers=True)
-        ebmlite.util.pprint(doc, out=out, binary_codec=codec)
+        with schema.load(args.input, headers=True) as doc:
+            ebmlite.util.pprint(doc, out=out, binary_codec=codec)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 97202cbea3a4157e4806555419228540ee055e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 43/46] fix: loadXml() could overwrite a file that another
 program or thread had just created

---
 ebmlite/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ebmlite/util.py b/ebmlite/util.py
index 1f1bf81..85854b0 100644
--- a/ebmlite/util.py
+++ b/ebmlite/util.py
@@ -411,7 +411,9 @@ def loadXml(xmlFile,
         xml2ebml(xmlFile, ebmlFile, schema)
         ebmlFile.seek(0)
     else:
-        ebmlFile = tempfile.mktemp() if ebmlFile is None else ebmlFile
+        if ebmlFile is None:
+            with tempfile.NamedTemporaryFile(delete=False) as tempFile:
+                ebmlFile = tempFile.name
         xml2ebml(xmlFile, ebmlFile, schema)
 
     return schema.load(ebmlFile)
-- 
2.43.0


From 8bef3168317971099612c57f28cb2abb0266e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 44/46] fix: a master element longer than its explicit length
 was encoded with that length as its size

---
 ebmlite/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index cf3e474..df4ded0 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -265,7 +265,7 @@ class Element(object):
             for v in value:
                 result.extend(cls.encode(v, length, lengthSize, infinite))
             return result
-        payload = cls.encodePayload(value, length=length)
+        payload = cls.encodePayload(value, length=None if infinite else length)
         length = None if infinite else (length or len(payload))
         encId = encoding.encodeId(cls.id)
         return encId + cls._encodeSize(length, lengthSize) + payload
@@ -736,6 +736,10 @@ class MasterElement(Element):
             # TODO: Validation of hierarchy, multiplicity, mandate, etc.
             result.extend(cls.schema[k].encode(v))
 
+        if length and len(result) > length:
+            raise ValueError("Length of data (%d) exceeds specified length (%d)" %
+                             (len(result), length))
+
         return result
 
     @classmethod
@@ -773,8 +777,8 @@ class MasterElement(Element):
 
         if isinstance(data, (list, tuple)) and len(data) > 0 and isinstance(data[0], tuple):
             # List of name/value tuples: the contents of a single element.
-            payload = cls.encodePayload(data, length=length)
             length = cls.length if length is None else length
+            payload = cls.encodePayload(data, length=None if infinite else length)
             length = None if infinite else (length or len(payload))
             return (encoding.encodeId(cls.id)
                     + cls._encodeSize(length, lengthSize) + payload)
-- 
2.43.0


From 0374325975a0a624e4e365e35745a18061620ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 45/46] fix: load documents from streams opened by file
 descriptor

The name of such a stream (e.g. tempfile.TemporaryFile) is an integer,
which os.path.basename() does not accept.
---
 ebmlite/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index df4ded0..3420ded 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -875,6 +875,10 @@ class Document(MasterElement):
         except AttributeError:
             self.filename = ""
 
+        if isinstance(self.filename, int):
+            # The stream was opened by its file descriptor; it has no filename.
+            self.filename = ""
+
         if name is None:
             if self.filename:
                 self.name = os.path.splitext(os.path.basename(self.filename))[0]
-- 
2.43.0


From cee2ac8ff708961386494af5228bdbdbf0a02258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:24 +0000
Subject: [PATCH 46/46] fix: parse schemata from streams opened by file
 descriptor

The name of such a stream is an integer (or None), which os.path.realpath()
does not accept.
---
 ebmlite/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ebmlite/core.py b/ebmlite/core.py
index 3420ded..e22d41e 100644
--- a/ebmlite/core.py
+++ b/ebmlite/core.py
@@ -1157,7 +1157,8 @@ class Schema(object):
 
         if isinstance(source, (str, Path)):
             self.filename = os.path.realpath(source)
-        elif hasattr(source, "name"):
+        elif isinstance(getattr(source, "name", None), (str, bytes, os.PathLike)):
+            # Note: streams opened by file descriptor have an integer `name`
             self.filename = os.path.realpath(source.name)
 
         self.elements = {}    # Element types, keyed by ID
-- 
2.43.0

