From f7b698f1c65687ce3fe7069f0dba4eed76bc2dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 01/90] fix: loads() passes its extra keyword arguments on to
 the decoder

---
 mediagrains/gsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 7aff1fc..411a0b1 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -101,7 +101,7 @@ def loads(s: bytes,
     if parse_grain is None:
         parse_grain = GrainFactory
 
-    return load(BytesIO(s), cls=cls, parse_grain=parse_grain)
+    return load(BytesIO(s), cls=cls, parse_grain=parse_grain, **kwargs)
 
 
 @overload
-- 
2.43.0


From 093c58dae06778b81cb8b383d91f00a12614ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 02/90] fix: deferred grain data of asynchronously opened GSF
 files survives interleaved readers

The shared file position was moved under the decoding loop and under other
deferred reads, a grain could not be awaited twice concurrently, and leaving the
context in ALWAYS_LOAD_DEFER_IF_POSSIBLE mode changed a dictionary while
iterating over it.
---
 mediagrains/gsf.py | 75 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 411a0b1..c387425 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -30,6 +30,7 @@ from fractions import Fraction
 from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
+import asyncio
 import warnings
 
 from inspect import isawaitable
@@ -47,6 +48,7 @@ from typing import (
     IO,
     Sequence,
     AsyncIterable,
+    AsyncGenerator,
     Awaitable,
     overload,
     NamedTuple)
@@ -1030,6 +1032,39 @@ class BaseGSFDecoderSession(object):
         return cast(GrainMetadataDict, meta)
 
 
+class _DeferredGrainData():
+    """An awaitable that reads the data of one grain from an open asynchronous decoder session.
+
+    It may be awaited any number of times, including concurrently. The file position used by the session and by all
+    other deferred reads is left undisturbed.
+    """
+    def __init__(self, parent: "GSFAsyncDecoderSession", key: int, pos: int, length: int, load_on_exit: bool = False):
+        self._parent = parent
+        self._key = key
+        self._pos = pos
+        self._length = length
+        self._load_on_exit = load_on_exit
+
+    def __await__(self):
+        return self._read().__await__()
+
+    async def _read(self) -> Optional[bytes]:
+        if self._parent._exiting and not self._load_on_exit:
+            return None
+
+        file_data = self._parent.file_data
+        async with self._parent._file_lock:
+            oldpos = file_data.tell()
+            try:
+                file_data.seek(self._pos)
+                data = await file_data.read(self._length)
+            finally:
+                file_data.seek(oldpos)
+
+        self._parent._remove_lazy_grain(self._key)
+        return data
+
+
 class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     def __init__(self,
                  parse_grain: ParseGrainType,
@@ -1046,6 +1081,9 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self.file_headers: Optional[GSFFileHeaderDict] = None
 
         self._exiting = False
+        # Held whenever the file is positioned for one particular read, i.e. for the whole of each decoding step and of
+        # each deferred read of grain data
+        self._file_lock = asyncio.Lock()
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         self._next_lazy_grain_number = 0
 
@@ -1092,11 +1130,11 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         self._unloaded_lazy_grains[key] = grain
 
     def _remove_lazy_grain(self, key: int):
-        del self._unloaded_lazy_grains[key]
+        self._unloaded_lazy_grains.pop(key, None)
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in self._unloaded_lazy_grains.items():
+        for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
 
     async def _load_unused_lazy_loaders(self):
@@ -1121,23 +1159,19 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :yields: (Grain, local_id) tuple for each grain
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
-        async def _read_out_of_order(parent: GSFAsyncDecoderSession,
-                                     key: int,
-                                     file_data: OpenAsyncBinaryIO,
-                                     pos: int,
-                                     length: int,
-                                     load_on_exit=False) -> Optional[bytes]:
-            if load_on_exit or not parent._exiting:
-                parent._remove_lazy_grain(key)
-
-                oldpos = file_data.tell()
-                file_data.seek(pos)
-                data = await file_data.read(length)
-                file_data.seek(oldpos)
-                return data
-            else:
-                return None
-
+        grains = self._decode_grains(local_ids=local_ids, loading_mode=loading_mode)
+        while True:
+            async with self._file_lock:
+                try:
+                    item = await grains.__anext__()
+                except StopAsyncIteration:
+                    return
+            yield item
+
+    async def _decode_grains(self,
+                             local_ids: Optional[Sequence[int]],
+                             loading_mode: GrainDataLoadingMode) -> AsyncGenerator[Tuple[Grain, int], None]:
+        """The decoding loop of grains(), to be advanced only while holding the file lock"""
         have_concatenation = False
 
         while True:
@@ -1183,9 +1217,8 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                         # It will be awaited when the data is actually needed.
                                         load_on_exit = (
                                             loading_mode == GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
-                                        data = _read_out_of_order(self,
+                                        data = _DeferredGrainData(self,
                                                                   self._next_lazy_grain_number,
-                                                                  self.file_data,
                                                                   self.file_data.tell(),
                                                                   grdt_block.get_remaining(),
                                                                   load_on_exit=load_on_exit)
-- 
2.43.0


From 1d47db5cdfdfcb1b562499485f535c23fe66a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 03/90] fix: event grains from asynchronously opened GSF files
 can be deferred and loaded

Setting the pending length failed, and an awaited payload was never parsed.
---
 mediagrains/grains/EventGrain.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index d90ce74..9bed1bf 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -3,6 +3,8 @@ from fractions import Fraction
 from inspect import isawaitable
 
 from typing import (
+    Any,
+    Generator,
     List,
     Union,
     SupportsBytes,
@@ -204,6 +206,30 @@ append(path, pre=None, post=None)
                 d['post'] = datum['post']
             self.meta['grain']['event_payload']['data'].append(d)
 
+    def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
+        async def __inner():
+            fetcher = self._data_fetcher_coroutine
+            if fetcher is not None:
+                payload = await fetcher
+                if self._data_fetcher_coroutine is fetcher:
+                    self._data_fetcher_coroutine = None
+                    if payload is not None:
+                        self.data = payload if isinstance(payload, bytes) else bytes(cast(SupportsBytes, payload))
+            return self.data
+        return __inner().__await__()
+
+    @property
+    def length(self) -> int:
+        if self._data_fetcher_coroutine is not None and self._data_fetcher_length > 0:
+            return self._data_fetcher_length
+        return len(self.data)
+
+    @length.setter
+    def length(self, L: int) -> None:
+        if self._data_fetcher_coroutine is None:
+            raise AttributeError
+        self._data_fetcher_length = L
+
     def __repr__(self) -> str:
         return "EventGrain({!r})".format(self.meta)
 
-- 
2.43.0


From bb8a91876f44eaa91146dd6a77e03096fd053f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 04/90] fix: over-long strings are cut between characters when
 written to GSF

Cutting a multi-byte character in half made the whole file undecodable.
---
 mediagrains/gsf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index c387425..ebcabd3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1563,6 +1563,11 @@ def _encode_uint(val: int, size: int) -> bytes:
     return bytes(d)
 
 
+def _encode_utf8(val: str, max_size: int) -> bytes:
+    """Encode as UTF-8, dropping whole characters from the end if necessary to fit in max_size bytes"""
+    return val.encode("utf-8")[:max_size].decode("utf-8", errors="ignore").encode("utf-8")
+
+
 def _encode_sint(val: int, size: int) -> bytes:
     if val < 0:
         val = val + (1 << (8*size))
@@ -2173,11 +2178,11 @@ class GSFEncoderTag(object):
 
     @property
     def encoded_key(self) -> bytes:
-        return self.key.encode("utf-8")[:65535]
+        return _encode_utf8(self.key, 65535)
 
     @property
     def encoded_value(self) -> bytes:
-        return self.value.encode("utf-8")[:65535]
+        return _encode_utf8(self.value, 65535)
 
     @property
     def tag_block_size(self) -> int:
@@ -2271,7 +2276,7 @@ class GSFEncoderSegment(object):
 
                 _encode_uuid(self._gsf_flow.src_id) +
                 _encode_uuid(self._gsf_flow.flow_id) +
-                (self._gsf_flow.format.encode("utf-8") + (b"\x00" * 64))[:64] +
+                _encode_utf8(self._gsf_flow.format, 64).ljust(64, b"\x00") +
                 _encode_uint(len(self._gsf_flow.data), 4) +
                 self._gsf_flow.data
             )
@@ -2325,7 +2330,7 @@ class GSFEncoderSegment(object):
                 _encode_uint(len(grain.timelabels), 2))
 
             for label in grain.timelabels:
-                tag = (label['tag'].encode('utf-8') + (b"\x00" * 16))[:16]
+                tag = _encode_utf8(label['tag'], 16).ljust(16, b"\x00")
                 data += (
                     tag +
                     _encode_uint(label['timelabel']['frames_since_midnight'], 4) +
-- 
2.43.0


From 949866fd928f533a5a925b11f77ca5cf70a73d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 05/90] fix: a GSF encoder can dump again with correct segment
 counts and tags

The grain counts and count positions of the previous dump leaked into the next
one, and segments refused new tags for ever after.
---
 mediagrains/gsf.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index ebcabd3..6e9a7a9 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1733,6 +1733,10 @@ class OpenGSFEncoderBase(object):
 
         return (data, offsets)
 
+    def _end_segment_dumps(self) -> None:
+        for seg in self._segments.values():
+            seg._active_dump = False
+
     def _encode_all_grains(self):
         data = b''
         for seg in self._segments.values():
@@ -1817,6 +1821,8 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
                             _encode_uint(0, 4))
             self._active_dump = False
 
+        self._end_segment_dumps()
+
 
 class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
     def __init__(self,
@@ -1913,6 +1919,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
             self._active_dump = False
 
+        self._end_segment_dumps()
+
 
 class SegmentDict(TypedDict, total=False):
     id: UUID
@@ -2257,6 +2265,8 @@ class GSFEncoderSegment(object):
 
     def _encode_header(self, all_at_once: bool = False) -> Tuple[bytes, int]:
         self._active_dump = True
+        self._write_count = 0
+        self._count_pos = -1
         data = (
             b"segm" +
             _encode_uint(self.segm_block_size, 4) +
-- 
2.43.0


From 469c9e62110da7fdb3cebceed6020fa02185473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 06/90] fix: no grain or header change is silently lost while a
 GSF encoder is dumping asynchronously

Grains added through a segment (or through the encoder object itself) during an
asynchronous progressive dump were buffered and never written, file tags and
segments added then were accepted although the header had been written, and
segments created inside a session did not take part in later sessions.
---
 mediagrains/gsf.py | 49 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 6e9a7a9..dd8acbb 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1733,6 +1733,9 @@ class OpenGSFEncoderBase(object):
 
         return (data, offsets)
 
+    def _add_grains_to_active_dump(self, segment: "GSFEncoderSegment", grains: Iterable[Grain]) -> None:
+        raise NotImplementedError
+
     def _end_segment_dumps(self) -> None:
         for seg in self._segments.values():
             seg._active_dump = False
@@ -1783,11 +1786,14 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._active_dump:
-            for grain in grains:
-                self.file.write(segment.encode_grain(grain))
+            self._add_grains_to_active_dump(segment, grains)
         else:
             segment.add_grains(grains)
 
+    def _add_grains_to_active_dump(self, segment: "GSFEncoderSegment", grains: Iterable[Grain]) -> None:
+        for grain in grains:
+            self.file.write(segment.encode_grain(grain))
+
     def _truncate(self):
         if self.file.seekable():
             self.file.seek(0)
@@ -1838,6 +1844,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         super().__init__(major, minor, id, created, tags, segments, streaming, next_local)
         self.file: Optional[AsyncBinaryIO]
         self._open_file: Optional[OpenAsyncBinaryIO]
+        # Grains added without awaiting while dumping, to be written before anything else is
+        self._pending_grains: List[Tuple["GSFEncoderSegment", Grain]] = []
 
         if isinstance(file, AsyncBinaryIO):
             self.file = file
@@ -1871,11 +1879,20 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
+            await self._write_pending_grains()
             for grain in grains:
                 await self._open_file.write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
+    def _add_grains_to_active_dump(self, segment: "GSFEncoderSegment", grains: Iterable[Grain]) -> None:
+        self._pending_grains.extend((segment, grain) for grain in grains)
+
+    async def _write_pending_grains(self) -> None:
+        while len(self._pending_grains) > 0:
+            (segment, grain) = self._pending_grains.pop(0)
+            await self._open_file.write(segment.encode_grain(grain))
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -1904,6 +1921,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                                     self._encode_all_grains())
 
     async def _end_dump(self):
+        if self._active_dump:
+            await self._write_pending_grains()
+
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
                 curpos = self._open_file.tell()
@@ -2026,6 +2046,7 @@ class GSFEncoder(object):
             self._open_encoder._end_dump()
             self._next_local = self._open_encoder._next_local
             self._open_encoder = None
+            self._adopt_segments()
 
     async def __aenter__(self):
         if not isinstance(self.file, AsyncBinaryIO) and not isinstance(self.file, OpenAsyncBinaryIO):
@@ -2052,6 +2073,15 @@ class GSFEncoder(object):
             await self._open_async_encoder._end_dump()
             self._next_local = self._open_async_encoder._next_local
             self._open_async_encoder = None
+            self._adopt_segments()
+
+    def _adopt_segments(self) -> None:
+        """Take over the segments added through an open encoder that is no longer in use"""
+        for seg in self._segments.values():
+            seg._parent = self
+
+    def _is_dumping_asynchronously(self) -> bool:
+        return self._open_async_encoder is not None and self._open_async_encoder._active_dump
 
     @property
     def tags(self) -> Tuple["GSFEncoderTag", ...]:
@@ -2063,7 +2093,7 @@ class GSFEncoder(object):
 
     def add_tag(self, key: str, value: str):
         """Add a tag to the file"""
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._is_dumping_asynchronously():
             raise GSFEncodeAddToActiveDump("Cannot add a new tag to an encoder that is currently dumping")
 
         self._tags.append(GSFEncoderTag(key, value))
@@ -2075,7 +2105,7 @@ class GSFEncoder(object):
         integer, otherwise the next available integer will be used. Returns the newly
         created segment."""
 
-        if self._open_encoder is not None:
+        if self._open_encoder is not None or self._is_dumping_asynchronously():
             raise GSFEncodeAddToActiveDump(
                 "Cannot add a new segment {} ({!s}) to an encoder that is currently dumping".format(local_id, id))
 
@@ -2161,6 +2191,7 @@ class GSFEncoder(object):
             self._open_encoder._end_dump()
             self._next_local = self._open_encoder._next_local
             self._open_encoder = None
+            self._adopt_segments()
 
 
 class GSFEncoderFlow(NamedTuple):
@@ -2234,11 +2265,11 @@ class GSFEncoderSegment(object):
                 except (TypeError, IndexError):
                     raise GSFEncodeError("No idea how to turn {!r} into a tag".format(tag))
 
-    def _get_parent_open_encoder(self) -> Optional[OpenGSFEncoder]:
-        if isinstance(self._parent, OpenGSFEncoder):
+    def _get_parent_open_encoder(self) -> Optional[OpenGSFEncoderBase]:
+        if isinstance(self._parent, OpenGSFEncoderBase):
             return self._parent
         elif isinstance(self._parent, GSFEncoder):
-            return self._parent._open_encoder
+            return self._parent._open_encoder or self._parent._open_async_encoder
         else:
             return None
 
@@ -2519,7 +2550,7 @@ class GSFEncoderSegment(object):
         """Add a grain to the segment, which should be a Grain object"""
         parent = self._get_parent_open_encoder()
         if parent is not None and parent._active_dump:
-            parent.add_grain(grain, segment_id=self.id, segment_local_id=self.local_id)
+            parent._add_grains_to_active_dump(self, (grain,))
         else:
             self._grains.append(grain)
 
@@ -2528,7 +2559,7 @@ class GSFEncoderSegment(object):
         iterable of grain objects"""
         parent = self._get_parent_open_encoder()
         if parent is not None and parent._active_dump:
-            parent.add_grains(grains, segment_id=self.id, segment_local_id=self.local_id)
+            parent._add_grains_to_active_dump(self, grains)
         else:
             for grain in grains:
                 self.add_grain(grain)
-- 
2.43.0


From 97d3b596bd7bfe25231a57ed9600e6f3427f38bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 07/90] fix: tasks adding grains concurrently to an
 asynchronous progressive GSF dump cannot corrupt it

Their writes to the one file raced with each other in the executor's threads.
---
 mediagrains/gsf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index dd8acbb..e3c1888 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1846,6 +1846,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         self._open_file: Optional[OpenAsyncBinaryIO]
         # Grains added without awaiting while dumping, to be written before anything else is
         self._pending_grains: List[Tuple["GSFEncoderSegment", Grain]] = []
+        # Keeps the grains of concurrent callers apart and in order
+        self._write_lock = asyncio.Lock()
 
         if isinstance(file, AsyncBinaryIO):
             self.file = file
@@ -1879,9 +1881,10 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         segment = self._get_segment(segment_id, segment_local_id)
 
         if self._open_file is not None and self._active_dump:
-            await self._write_pending_grains()
-            for grain in grains:
-                await self._open_file.write(segment.encode_grain(grain))
+            async with self._write_lock:
+                await self._write_pending_grains()
+                for grain in grains:
+                    await self._open_file.write(segment.encode_grain(grain))
         else:
             segment.add_grains(grains)
 
-- 
2.43.0


From 10884731757d794d8fec657b989642b82fc4fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 08/90] fix: writing a grain whose deferred data has not been
 loaded no longer corrupts the GSF file

Its block was given the size of data that was never written. Asynchronous
encoders now load it first, synchronous ones refuse it.
---
 mediagrains/gsf.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index e3c1888..60bde05 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1884,9 +1884,12 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
             async with self._write_lock:
                 await self._write_pending_grains()
                 for grain in grains:
+                    await grain
                     await self._open_file.write(segment.encode_grain(grain))
         else:
-            segment.add_grains(grains)
+            for grain in grains:
+                await grain
+                segment.add_grain(grain)
 
     def _add_grains_to_active_dump(self, segment: "GSFEncoderSegment", grains: Iterable[Grain]) -> None:
         self._pending_grains.extend((segment, grain) for grain in grains)
@@ -1894,6 +1897,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
     async def _write_pending_grains(self) -> None:
         while len(self._pending_grains) > 0:
             (segment, grain) = self._pending_grains.pop(0)
+            await grain
             await self._open_file.write(segment.encode_grain(grain))
 
     async def _truncate(self) -> None:
@@ -2342,6 +2346,10 @@ class GSFEncoderSegment(object):
         return data
 
     def encode_grain(self, grain: Grain) -> bytes:
+        grain_data = bytes(grain.data) if grain.data is not None else b""
+        if len(grain_data) < grain.length:
+            raise GSFEncodeError("The data of grain {!r} has not been loaded".format(grain))
+
         gbhd_size = self._gbhd_size_for_grain(grain)
 
         encode_ts_f = _encode_ts
@@ -2352,7 +2360,7 @@ class GSFEncoderSegment(object):
 
         data = (
             b"grai" +
-            _encode_uint(10 + gbhd_size + 8 + grain.length, 4) +
+            _encode_uint(10 + gbhd_size + 8 + len(grain_data), 4) +
             _encode_uint(self.local_id, 2) +
 
             b"gbhd" +
@@ -2397,10 +2405,8 @@ class GSFEncoderSegment(object):
 
         data += (
             b"grdt" +
-            _encode_uint(8 + grain.length, 4))
-
-        if grain.data is not None:
-            data += bytes(grain.data)
+            _encode_uint(8 + len(grain_data), 4) +
+            grain_data)
 
         self._write_count += 1
 
-- 
2.43.0


From 5c67b3f4e4222dcabf9bd9d36a9405a880b2cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 09/90] fix: a GSF grain without data, or a block larger than
 its parent, no longer disturbs what follows

The search for the wanted child block ran on through the following grains.
---
 mediagrains/gsf.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 60bde05..726b5c5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -257,9 +257,12 @@ class AsyncGSFBlock():
         :param raise_on_wrong_tag: Set to True to raise a GSFDecodeError if the next block isn't `want_tag`
         """
         self.file_data: OpenAsyncBinaryIO
+        self.parent_end: Optional[int] = None
         if isinstance(file_data, AsyncGSFBlock):
             block = file_data
             self.file_data = block.file_data
+            if block.size is not None:
+                self.parent_end = block.block_start + block.size
         else:
             self.file_data = file_data
         self.want_tag = want_tag
@@ -282,6 +285,7 @@ class AsyncGSFBlock():
         assert self.file_data.tell() == self.block_start, "Can't enter context manager after the block start"
 
         while True:
+            self._check_fits_in_parent(8)
             self.tag = await self.read_tag()
 
             if self.tag == "SSBB":
@@ -296,6 +300,7 @@ class AsyncGSFBlock():
                 self.size = 8
             else:
                 self.size = await self.read_uint(4)
+            self._check_fits_in_parent(self.size)
 
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
@@ -326,6 +331,16 @@ class AsyncGSFBlock():
         except Exception:
             pass
 
+    def _check_fits_in_parent(self, size: int) -> None:
+        """Check that a block of the given size at block_start ends within the parent block, if there is one
+
+        :raises GSFDecodeError: If it doesn't, i.e. the sizes are inconsistent or the parent lacks the wanted block
+        """
+        if self.parent_end is not None and self.block_start + size > self.parent_end:
+            raise GSFDecodeError("Block {} at {} does not fit in its parent block".format(self.want_tag or "",
+                                                                                          self.block_start),
+                                 self.block_start)
+
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
 
@@ -466,9 +481,12 @@ class SyncGSFBlock():
         """
         self.file_data: IO[bytes]
         self.file_data_start: int
+        self.parent_end: Optional[int] = None
         if isinstance(file_data, SyncGSFBlock):
             block = file_data
             self.file_data = block.file_data
+            if block.size is not None:
+                self.parent_end = block.block_start + block.size
             self.file_data_start = block.file_data_start
         else:
             self.file_data = cast(IO[bytes], file_data)
@@ -499,6 +517,7 @@ class SyncGSFBlock():
         # NOTE: Ensure that changes to the state set here is also changed in read_remaining_block
         # in SyncGSFBlock and AsyncGSFBlock
         while True:
+            self._check_fits_in_parent(8)
             self.tag = self.read_tag()
 
             if self.tag == "SSBB":
@@ -513,6 +532,7 @@ class SyncGSFBlock():
                 self.size = 8
             else:
                 self.size = self.read_uint(4)
+            self._check_fits_in_parent(self.size)
 
             if self.want_tag is None or self.tag == self.want_tag:
                 return self
@@ -543,6 +563,16 @@ class SyncGSFBlock():
         except Exception:
             pass
 
+    def _check_fits_in_parent(self, size: int) -> None:
+        """Check that a block of the given size at block_start ends within the parent block, if there is one
+
+        :raises GSFDecodeError: If it doesn't, i.e. the sizes are inconsistent or the parent lacks the wanted block
+        """
+        if self.parent_end is not None and self.block_start + size > self.parent_end:
+            raise GSFDecodeError("Block {} at {} does not fit in its parent block".format(self.want_tag or "",
+                                                                                          self.block_start),
+                                 self.block_start)
+
     def has_child_block(self, strict_blocks=True):
         """Checks if there is space for another child block in this block
 
@@ -858,7 +888,7 @@ class BaseGSFDecoderSession(object):
 
                 # Segment blocks can have child tags as well
                 while head_child.has_child_block():
-                    with SyncGSFBlock(head_block) as segm_child:
+                    with SyncGSFBlock(head_child) as segm_child:
                         if segm_child.tag == "flow":
                             src_id = segm_child.read_uuid()
                             flow_id = segm_child.read_uuid()
-- 
2.43.0


From a512798aea782511db0b5f2e2068a0f5cbb232c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 10/90] fix: a GSF file too short or too garbled to hold a file
 signature is reported as a decoding error

---
 mediagrains/gsf.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 726b5c5..61049b5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1128,14 +1128,20 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         """
         ssb_block = AsyncGSFBlock(self.file_data)
 
-        if not head_tag:
-            head_tag = await ssb_block.read_string(8)
+        try:
+            if not head_tag:
+                head_tag = await ssb_block.read_string(8)
+        except (EOFError, GSFDecodeError):
+            head_tag = ""
 
         if head_tag != "SSBBgrsg":
             raise GSFDecodeBadFileTypeError("File lacks correct header", ssb_block.block_start, head_tag)
 
-        major = await ssb_block.read_uint(2)
-        minor = await ssb_block.read_uint(2)
+        try:
+            major = await ssb_block.read_uint(2)
+            minor = await ssb_block.read_uint(2)
+        except EOFError:
+            raise GSFDecodeError("No version found in file", ssb_block.block_start)
 
         return (major, minor)
 
@@ -1301,14 +1307,20 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
         """
         ssb_block = SyncGSFBlock(self.file_data)
 
-        if not head_tag:
-            head_tag = ssb_block.read_string(8)
+        try:
+            if not head_tag:
+                head_tag = ssb_block.read_string(8)
+        except (EOFError, GSFDecodeError):
+            head_tag = ""
 
         if head_tag != "SSBBgrsg":
             raise GSFDecodeBadFileTypeError("File lacks correct header", ssb_block.block_start, head_tag)
 
-        major = ssb_block.read_uint(2)
-        minor = ssb_block.read_uint(2)
+        try:
+            major = ssb_block.read_uint(2)
+            minor = ssb_block.read_uint(2)
+        except EOFError:
+            raise GSFDecodeError("No version found in file", ssb_block.block_start)
 
         return (major, minor)
 
-- 
2.43.0


From 38a35eceb26d7352f8f0c4707dc17e5b6bc91e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 11/90] fix: strings in GSF files end at the first null byte

The file format defines fixed and variable length strings to be terminated by
the first null byte, but only trailing null bytes were removed on reading, so
that whatever follows the terminator became part of the string.
---
 mediagrains/gsf.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 61049b5..92758f2 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -436,7 +436,7 @@ class AsyncGSFBlock():
         return r
 
     async def read_string(self, length: int) -> str:
-        """Read a fixed-length string, treating it as UTF-8
+        """Read a fixed-length string, treating it as UTF-8. The string ends at the first null byte, if there is one
 
         :param length: Number of bytes in the string
         :returns: String
@@ -447,10 +447,7 @@ class AsyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
@@ -714,7 +711,7 @@ class SyncGSFBlock():
         return r
 
     def read_string(self, length: int) -> str:
-        """Read a fixed-length string, treating it as UTF-8
+        """Read a fixed-length string, treating it as UTF-8. The string ends at the first null byte, if there is one
 
         :param length: Number of bytes in the string
         :returns: String
@@ -725,10 +722,7 @@ class SyncGSFBlock():
             raise EOFError("Unable to read enough bytes from source")
 
         try:
-            string = string_data.decode(encoding='utf-8').rstrip('\x00')
-            if not string or string[0] == '\x00':
-                return ""
-            return string
+            return string_data.split(b'\x00', 1)[0].decode(encoding='utf-8')
         except UnicodeDecodeError:
             raise GSFDecodeError(
                 f"Failed to decode bytes in block starting at {self.block_start} to a valid string",
-- 
2.43.0


From 6a099bc573a47e51762b65bac5f5e987b54e177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 12/90] fix: invalid header fields of GSF files are reported as
 decoding errors, null dates read as None

An impossible creation date raised a ValueError, as did the null date that the
format allows, and flow data that isn't UTF-8 raised a UnicodeDecodeError. A
byte array cut short by the end of its block was accepted.
---
 mediagrains/gsf.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 92758f2..75143cd 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -753,11 +753,12 @@ class SyncGSFBlock():
 
         return UUID(bytes=uuid_data)
 
-    def read_datetime(self) -> datetime:
+    def read_datetime(self) -> Optional[datetime]:
         """Read a date-time (with seconds resolution) stored in 7 bytes
 
-        :returns: Datetime
+        :returns: Datetime, or None if it is null (i.e. all of its members are 0)
         :raises EOFError: If there are fewer than 7 bytes left in the source
+        :raises GSFDecodeError: If there is no such date or time
         """
         year = self.read_sint(2)
         month = self.read_uint(1)
@@ -765,7 +766,12 @@ class SyncGSFBlock():
         hour = self.read_uint(1)
         minute = self.read_uint(1)
         second = self.read_uint(1)
-        return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        if not any((year, month, day, hour, minute, second)):
+            return None
+        try:
+            return datetime(year, month, day, hour, minute, second, tzinfo=timezone.utc)
+        except ValueError:
+            raise GSFDecodeError(f"Invalid date-time in block starting at {self.block_start}", self.block_start)
 
     def read_timestamp_v7(self) -> Timestamp:
         """Read a version 7 mediatimestamp.Timestamp with no sign
@@ -815,7 +821,10 @@ class SyncGSFBlock():
         :raises EOFError: If there are too few bytes left in the source
         """
         length = self.read_uint(4)
-        return self.file_data.read(length)
+        data = self.file_data.read(length)
+        if len(data) != length:
+            raise EOFError("Unable to read enough bytes from source")
+        return data
 
     def skip(self, length: int) -> None:
         """Skip length bytes
@@ -887,12 +896,18 @@ class BaseGSFDecoderSession(object):
                             src_id = segm_child.read_uuid()
                             flow_id = segm_child.read_uuid()
                             format = segm_child.read_string(64)
-                            data = segm_child.read_varbytes()
+                            try:
+                                data = segm_child.read_varbytes().decode('utf-8')
+                            except UnicodeDecodeError:
+                                raise GSFDecodeError(
+                                    f"Invalid flow data in block starting at {segm_child.block_start}",
+                                    segm_child.block_start
+                                )
                             segm['flow'] = {
                                 'source_id': src_id,
                                 'flow_id': flow_id,
                                 'format': format,
-                                'data': data.decode('utf-8')
+                                'data': data
                             }
                         elif segm_child.tag == "tag ":
                             key = segm_child.read_varstring()
-- 
2.43.0


From af7039bf21079b544e7951ddecdd031022c7c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:27 +0000
Subject: [PATCH 13/90] fix: grain data cut short by the end of a GSF file is
 never passed off as whole

The data of a grain that a truncated file only contains in part was returned as
if it was all there. Decoding now ends before such a grain, and deferred data
that turns out to be cut short raises a GSFDecodeError when it is loaded.
---
 mediagrains/gsf.py | 49 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 75143cd..69edc30 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1071,6 +1071,28 @@ class BaseGSFDecoderSession(object):
         return cast(GrainMetadataDict, meta)
 
 
+class _GrainDataIOBytes(IOBytes):
+    """Grain data read from the file when first accessed, which raises a GSFDecodeError if it isn't all there"""
+    def __init__(self, istream: IO[bytes], start: int, length: int):
+        super().__init__(istream, start, length)
+        load = self._loader
+
+        def __loadall() -> bytes:
+            return _all_grain_data(load(), start, length)
+
+        self._loader = __loadall
+
+
+def _all_grain_data(data: bytes, start: int, length: int) -> bytes:
+    """Check that the data read for a grain has not been cut short
+
+    :raises GSFDecodeError: If it has
+    """
+    if len(data) != length:
+        raise GSFDecodeError("Grain data at {} is cut short".format(start), start, length)
+    return data
+
+
 class _DeferredGrainData():
     """An awaitable that reads the data of one grain from an open asynchronous decoder session.
 
@@ -1097,11 +1119,13 @@ class _DeferredGrainData():
             try:
                 file_data.seek(self._pos)
                 data = await file_data.read(self._length)
+            except EOFError:
+                data = b""
             finally:
                 file_data.seek(oldpos)
 
         self._parent._remove_lazy_grain(self._key)
-        return data
+        return _all_grain_data(data, self._pos, self._length)
 
 
 class GSFAsyncDecoderSession(BaseGSFDecoderSession):
@@ -1270,16 +1294,20 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                         data_length = grdt_block.get_remaining()
                                     else:
                                         # This is compatibility mode with the old code
-                                        data = IOBytes(cast(OpenAsyncFileWrapper, self.file_data).getsync(),
-                                                       self.file_data.tell(),
-                                                       grdt_block.get_remaining())
+                                        data = _GrainDataIOBytes(
+                                            cast(OpenAsyncFileWrapper, self.file_data).getsync(),
+                                            self.file_data.tell(),
+                                            grdt_block.get_remaining())
                                 elif loading_mode == GrainDataLoadingMode.LOAD_NEVER:
                                     if self.file_data.seekable_forwards():
                                         self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                     else:
                                         await self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = await self.file_data.read(grdt_block.get_remaining())
+                                    data_length = grdt_block.get_remaining()
+                                    data = await self.file_data.read(data_length)
+                                    if len(data) != data_length:
+                                        raise EOFError("Unable to read enough grain data from source")
 
                 grain = self.Grain(meta, data)
 
@@ -1407,16 +1435,19 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                 if self.file_data.seekable() and loading_mode in [
                                  GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
                                  GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
-                                    data = IOBytes(self.file_data,
-                                                   self.file_data.tell(),
-                                                   grdt_block.get_remaining())
+                                    data = _GrainDataIOBytes(self.file_data,
+                                                             self.file_data.tell(),
+                                                             grdt_block.get_remaining())
                                 elif loading_mode == GrainDataLoadingMode.LOAD_NEVER:
                                     if self.file_data.seekable():
                                         self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                     else:
                                         self.file_data.read(grdt_block.get_remaining())
                                 else:
-                                    data = self.file_data.read(grdt_block.get_remaining())
+                                    data_length = grdt_block.get_remaining()
+                                    data = self.file_data.read(data_length)
+                                    if len(data) != data_length:
+                                        raise EOFError("Unable to read enough grain data from source")
 
                 grain = self.Grain(meta, data)
 
-- 
2.43.0


From 40962db0744a5ebfb517ee7d9c133dfe1172dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 14/90] fix: malformed event payloads are rejected as a whole,
 and by GSF decoders as decoding errors

Assigning a malformed payload to an event grain could raise KeyError or
TypeError and leave part of the payload applied; it now raises ValueError and
changes nothing. A GSF file with such a payload raises GSFDecodeError. So that
this happens on decoding in every case, the payload of event grains is no longer
deferred when reading asynchronously, as was already the case synchronously.
---
 mediagrains/grains/EventGrain.py | 25 ++++++++++++--------
 mediagrains/gsf.py               | 39 ++++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 9bed1bf..8a5ea68 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -188,23 +188,30 @@ append(path, pre=None, post=None)
 
     @data.setter
     def data(self, value: Union[str, bytes]):
-        if not isinstance(value, str):
-            payload = json.loads(value.decode('utf-8'))
-        else:
-            payload = json.loads(value)
+        try:
+            if not isinstance(value, str):
+                payload = json.loads(value.decode('utf-8'))
+            else:
+                payload = json.loads(value)
+        except RecursionError:
+            raise ValueError("incorrectly formated event payload")
 
-        if 'type' not in payload or 'topic' not in payload or 'data' not in payload:
+        if (not isinstance(payload, dict) or
+                'type' not in payload or 'topic' not in payload or not isinstance(payload.get('data'), list)):
             raise ValueError("incorrectly formated event payload")
-        self.event_type = payload['type']
-        self.topic = payload['topic']
-        self.meta['grain']['event_payload']['data'] = []
+        data = []
         for datum in payload['data']:
+            if not isinstance(datum, dict) or 'path' not in datum:
+                raise ValueError("incorrectly formated event payload")
             d: EventGrainDatumDict = {'path': datum['path']}
             if 'pre' in datum:
                 d['pre'] = datum['pre']
             if 'post' in datum:
                 d['post'] = datum['post']
-            self.meta['grain']['event_payload']['data'].append(d)
+            data.append(d)
+        self.event_type = payload['type']
+        self.topic = payload['topic']
+        self.meta['grain']['event_payload']['data'] = data
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 69edc30..af8bf20 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -861,7 +861,8 @@ class GrainDataLoadingMode (Enum):
 
 class BaseGSFDecoderSession(object):
     """Base class that provides methods for parsing header metadata from a buffered SyncGSFBlock"""
-    def __init__(self):
+    def __init__(self, parse_grain: ParseGrainType):
+        self.Grain = parse_grain
         self.major = 0
         self.minor = 0
 
@@ -924,6 +925,23 @@ class BaseGSFDecoderSession(object):
 
         return cast(GSFFileHeaderDict, head)
 
+    def _parse_grain(self,
+                     meta: GrainMetadataDict,
+                     data: Optional[Union[bytes, Awaitable[Optional[bytes]]]],
+                     pos: int) -> Grain:
+        """Make a grain from its decoded metadata and its data
+
+        :param pos: Position of the grain's block in the file
+        :returns: Grain
+        :raises GSFDecodeError: If it is an event grain with an invalid payload
+        """
+        if meta['grain'].get('grain_type') != 'event':
+            return self.Grain(meta, data)
+        try:
+            return self.Grain(meta, data)
+        except ValueError as e:
+            raise GSFDecodeError("Invalid event payload in grain at {}".format(pos), pos) from e
+
     def _sync_decode_tils(self, tils_block: SyncGSFBlock) -> List[dict]:
         """Decode timelabels (tils) block
 
@@ -1134,13 +1152,12 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                  file_data: OpenAsyncBinaryIO,
                  sync_compatibility_mode: bool,
                  support_concatenation: bool = True):
-        super().__init__()
+        super().__init__(parse_grain)
         self.file_data = file_data
 
         if not self.file_data.seekable_forwards():
             raise RuntimeError("Cannot decode a stream that is not at least forward seekable")
 
-        self.Grain = parse_grain
         self.file_headers: Optional[GSFFileHeaderDict] = None
 
         self._exiting = False
@@ -1278,9 +1295,12 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                     if grai_block.has_child_block():
                         async with AsyncGSFBlock(grai_block, want_tag="grdt") as grdt_block:
                             if grdt_block.get_remaining() > 0:
-                                if self.file_data.seekable_backwards() and loading_mode in [
-                                 GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
-                                 GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]:
+                                # The payload of an event grain is part of its metadata, so is never deferred
+                                if (self.file_data.seekable_backwards() and
+                                    meta['grain'].get('grain_type') != 'event' and
+                                    loading_mode in [
+                                        GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE,
+                                        GrainDataLoadingMode.ALWAYS_LOAD_DEFER_IF_POSSIBLE]):
                                     if not self._sync_compatibility_mode:
                                         # It is correct that this is not awaited here
                                         # It will be awaited when the data is actually needed.
@@ -1309,7 +1329,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
                                     if len(data) != data_length:
                                         raise EOFError("Unable to read enough grain data from source")
 
-                grain = self.Grain(meta, data)
+                grain = self._parse_grain(meta, data, grai_block.block_start)
 
                 if isawaitable(data):
                     grain.length = data_length
@@ -1326,10 +1346,9 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                  parse_grain: ParseGrainType,
                  file_data: IO[bytes],
                  support_concatenation: bool = True):
-        super().__init__()
+        super().__init__(parse_grain)
         self.file_data = file_data
 
-        self.Grain = parse_grain
         self.file_headers: Optional[GSFFileHeaderDict] = None
 
         self._support_concatenation = support_concatenation
@@ -1449,7 +1468,7 @@ class GSFSyncDecoderSession(BaseGSFDecoderSession):
                                     if len(data) != data_length:
                                         raise EOFError("Unable to read enough grain data from source")
 
-                grain = self.Grain(meta, data)
+                grain = self._parse_grain(meta, data, grai_block.block_start)
 
                 yield (grain, local_id)
             except EOFError:
-- 
2.43.0


From b6e303e7f2fbf9b8664bc2da9679eaf3783a3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 15/90] fix: data assigned to a grain while its deferred data
 is being awaited is kept

When the deferred data arrived it replaced whatever had been assigned to the
grain in the meantime.
---
 mediagrains/grains/Grain.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index b438d44..679f7a4 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -383,8 +383,11 @@ media_rate
 
     def __await__(self) -> Generator[Any, None, Optional[GrainDataType]]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self._data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self._data = data
             return self._data
         return __inner().__await__()
 
-- 
2.43.0


From 22ece53d7b5c8adc481a1b3f3f6ab3ab083c8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 16/90] fix: short reads from asynchronous binary files return
 what there is, without allocating for more

---
 mediagrains/utils/asyncbinaryio.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 15fdfc6..00f80ac 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -30,20 +30,26 @@ from asyncio import StreamReader, StreamWriter
 import asyncio
 from functools import wraps
 
+READ_CHUNK_SIZE = 1024*1024
+
 
 class OpenAsyncBinaryIO(metaclass=ABCMeta):
     async def read(self, size: int = -1) -> bytes:
-        if size == -1:
+        if size is None or size < 0:
             return await self.readall()
         else:
-            while True:
-                b = bytearray(size)
+            # As for io.BufferedIOBase fewer bytes are returned only where the stream ends before there are enough. The
+            # bytes are fetched piecewise, so that no more memory is used than a stream shorter than size can fill.
+            out = bytearray()
+            while len(out) < size:
+                b = bytearray(min(size - len(out), READ_CHUNK_SIZE))
                 s = await self.readinto(b)
                 if s is None:
                     continue
-                if s < size:
-                    raise EOFError
-                return bytes(b)
+                if s == 0:
+                    break
+                out += b[:s]
+            return bytes(out)
 
     @abstractmethod
     async def readinto(self, b: bytearray) -> Union[int, None]: ...
-- 
2.43.0


From 86c8d8c173315d7ef071c3a80f410a04cac5dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 17/90] fix: asynchronous in-memory files seek, truncate, write
 and read to the end as BytesIO does

---
 mediagrains/utils/asyncbinaryio.py | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index 00f80ac..b45205d 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -138,44 +138,53 @@ class OpenAsyncBytesIO(OpenAsyncBinaryIO):
     @wrap_in_executor
     def readall(self) -> bytes:
         if self._pos >= 0 and self._pos < self._len:
-            return bytes(self._buffer[self._pos:self._len])
+            data = bytes(self._buffer[self._pos:self._len])
+            self._pos = self._len
+            return data
         else:
             return bytes()
 
     @wrap_in_executor
     def write(self, b: bytes) -> int:
-        if self._pos < 0:
+        length = len(b)
+        if self._pos < 0 or length == 0:
             return 0
 
-        if self._pos + len(b) > len(self._buffer):
-            newbuf = bytearray(max(self._pos + len(b), 2*len(self._buffer)))
+        if self._pos + length > len(self._buffer):
+            newbuf = bytearray(max(self._pos + length, 2*len(self._buffer)))
             newbuf[:self._len] = self._buffer[:self._len]
             self._buffer = newbuf
+        elif self._pos > self._len:
+            # What has been truncated must not reappear in the gap
+            self._buffer[self._len:self._pos] = bytes(self._pos - self._len)
 
-        length = len(b)
         self._buffer[self._pos:self._pos + length] = b[:length]
         self._pos += length
         self._len = max(self._pos, self._len)
         return length
 
     async def truncate(self, size: Optional[int] = None) -> int:
-        if size is not None:
-            self._len = size
-        else:
-            self._len = max(self._pos, 0)
+        if size is None:
+            size = max(self._pos, 0)
+        elif size < 0:
+            raise ValueError("negative size value {}".format(size))
 
-        return self._len
+        self._len = min(self._len, size)
+        return size
 
     def tell(self) -> int:
         return self._pos
 
     def seek(self, offset: int, whence: int = SEEK_SET):
         if whence == SEEK_SET:
+            if offset < 0:
+                raise ValueError("negative seek value {}".format(offset))
             self._pos = offset
         elif whence == SEEK_CUR:
-            self._pos += offset
+            self._pos = max(self._pos + offset, 0)
         else:
-            self._pos = self._len + offset
+            self._pos = max(self._len + offset, 0)
+        return self._pos
 
     def seekable(self) -> bool:
         return True
-- 
2.43.0


From bd910eedcd691cc6748ffad1286bdb54a2a38a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 18/90] fix: readall() of asynchronous file and stream wrappers
 works for every file and counts bytes once

---
 mediagrains/utils/asyncbinaryio.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mediagrains/utils/asyncbinaryio.py b/mediagrains/utils/asyncbinaryio.py
index b45205d..65b8a4f 100644
--- a/mediagrains/utils/asyncbinaryio.py
+++ b/mediagrains/utils/asyncbinaryio.py
@@ -238,7 +238,7 @@ class OpenAsyncFileWrapper(OpenAsyncBinaryIO):
         return await wrap_in_executor(self.fp.readinto)(b)
 
     async def readall(self) -> bytes:
-        return await wrap_in_executor(self.fp.readall)()
+        return await self.read(-1)
 
     async def write(self, b: bytes) -> Optional[int]:
         return await wrap_in_executor(self.fp.write)(b)
@@ -292,7 +292,7 @@ class OpenAsyncBytesIOWrapper(OpenAsyncBinaryIO):
         return self.fp.readinto(b)
 
     async def readall(self) -> bytes:
-        return self.fp.readall()
+        return await self.read(-1)
 
     async def write(self, b: bytes) -> Optional[int]:
         return self.fp.write(b)
@@ -382,9 +382,7 @@ class OpenAsyncStreamWrapper(OpenAsyncBinaryIO):
             return len(d)
 
     async def readall(self) -> bytes:
-        d = await self.read()
-        self._pos += len(d)
-        return d
+        return await self.read()
 
     async def write(self, b: bytes) -> Optional[int]:
         if self.writer is None:
-- 
2.43.0


From 7c59c445d9edc8e44aa9a4cc9e56346f154747cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 19/90] fix: lazily read byte ranges compare with each other
 and with all bytes-like objects by content

---
 mediagrains/utils/iobytes.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/mediagrains/utils/iobytes.py b/mediagrains/utils/iobytes.py
index 8ae825b..be72196 100644
--- a/mediagrains/utils/iobytes.py
+++ b/mediagrains/utils/iobytes.py
@@ -154,6 +154,32 @@ class IOBytes (LazyLoader, Sequence):
             self._object = object.__getattribute__(self, '_loader')()
         return self._object
 
+    # The special methods of bytes objects know nothing of this class, and leave comparison with other bytes-like classes
+    # to the special methods of those, so whole operations are passed on, with the bytes of any other object of this class
+    def __lt__(self, other):
+        return bytes(self) < _plain_bytes(other)
+
+    def __le__(self, other):
+        return bytes(self) <= _plain_bytes(other)
+
+    def __gt__(self, other):
+        return bytes(self) > _plain_bytes(other)
+
+    def __ge__(self, other):
+        return bytes(self) >= _plain_bytes(other)
+
+    def __eq__(self, other):
+        return bytes(self) == _plain_bytes(other)
+
+    def __ne__(self, other):
+        return bytes(self) != _plain_bytes(other)
+
+    def __contains__(self, item):
+        return _plain_bytes(item) in bytes(self)
+
+    # Defining __eq__ would otherwise make objects of this class unhashable
+    __hash__ = LazyLoader.__hash__
+
     def __len__(self):
         if self._object is None:
             return self._length
@@ -165,3 +191,7 @@ class IOBytes (LazyLoader, Sequence):
             return "IOBytes({!r}, {!r}, {!r})".format(self._istream, self._start, self._length)
         else:
             return repr(self._object)
+
+
+def _plain_bytes(obj):
+    return bytes(obj) if isinstance(obj, IOBytes) else obj
-- 
2.43.0


From 2055f873d3f364f66683f52f94b8a0217dd5d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 20/90] fix: tools reading a pipe get the bytes before the end
 of the stream instead of an EOFError

---
 mediagrains/tools/_file_or_pipe.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/mediagrains/tools/_file_or_pipe.py b/mediagrains/tools/_file_or_pipe.py
index 40f08b0..9c1e2d1 100644
--- a/mediagrains/tools/_file_or_pipe.py
+++ b/mediagrains/tools/_file_or_pipe.py
@@ -18,6 +18,8 @@ from io import BufferedIOBase
 import sys
 from contextlib import contextmanager
 
+READ_CHUNK_SIZE = 1024*1024
+
 
 class InputStreamWrapper(BufferedIOBase):
     def __init__(self, fp: typing.IO[bytes]):
@@ -28,17 +30,19 @@ class InputStreamWrapper(BufferedIOBase):
         return self._pos
 
     def read(self, size=-1) -> bytes:
-        out = b""
-        if size == -1:
+        if size is None or size < 0:
             out = self._file.read(-1)
         else:
-            s = size
-            while len(out) < size:
-                b = self._file.read(s)
-                if len(b) == 0:
-                    raise EOFError
-                s -= len(b)
-                out += b
+            # As for any other buffered file fewer bytes are returned only where the stream ends before there are enough
+            chunks = []
+            remaining = size
+            while remaining > 0:
+                b = self._file.read(min(remaining, READ_CHUNK_SIZE))
+                if not b:
+                    break
+                chunks.append(b)
+                remaining -= len(b)
+            out = b"".join(chunks)
 
         self._pos += len(out)
         return out
@@ -51,9 +55,11 @@ class InputStreamWrapper(BufferedIOBase):
 
         if offset < 0:
             raise NotImplementedError("Cannot seek backwards in a stream")
-        if offset > 0:
-            self._file.read(offset)
-        self._pos += offset
+
+        target = self._pos + offset
+        while self._pos < target and self.read(min(target - self._pos, READ_CHUNK_SIZE)):
+            pass
+        self._pos = target
         return self._pos
 
 
-- 
2.43.0


From 312494b2c5e7c6210a7d70ebd9df027fa940676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 21/90] fix: raw essence is wrapped in whole frames however few
 bytes the input delivers at once

---
 mediagrains/utils/grain_wrapper.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/grain_wrapper.py b/mediagrains/utils/grain_wrapper.py
index 7b941fc..67c6999 100644
--- a/mediagrains/utils/grain_wrapper.py
+++ b/mediagrains/utils/grain_wrapper.py
@@ -25,6 +25,25 @@ from mediatimestamp.immutable import TimeRange
 from mediagrains.grains import Grain
 
 
+def read_whole(input_data: typing.IO[bytes], size: int) -> bytes:
+    """Read size bytes, however few of them the input delivers at once
+
+    :param input_data: An object to read from
+    :param size: The number of bytes to read
+    :returns: The bytes read, fewer than size only if the input ended
+    """
+    data = b""
+    while len(data) < size:
+        try:
+            more = input_data.read(size - len(data))
+        except EOFError:
+            break
+        if not more:
+            break
+        data = data + more if data else more
+    return data
+
+
 class GrainWrapper():
     """Raw input and wrap it in Grains"""
     def __init__(
@@ -55,10 +74,7 @@ class GrainWrapper():
             new_grain = copy.deepcopy(self.template_grain)
             new_grain.origin_timestamp = timestamp
 
-            try:
-                grain_data = self.input_data.read(self.frame_size)
-            except EOFError:
-                break
+            grain_data = read_whole(self.input_data, self.frame_size)
 
             if grain_data:
                 new_grain.data = grain_data
-- 
2.43.0


From 6c4ee4ee1b483a6e9cb15ab0ca3fb81e32814e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:24 +0000
Subject: [PATCH 22/90] fix: ADTS frames are read whole from any input, and
 incomplete or impossible frames are never wrapped

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 8 ++++++--
 mediagrains/utils/adts_aac_parser.py        | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index b137da5..023c94e 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -23,6 +23,7 @@ from fractions import Fraction
 from mediatimestamp.immutable import TimeRange
 
 from ..grains import Grain, CodedAudioGrain
+from .grain_wrapper import read_whole
 from .adts_aac_parser import ADTSAACParser, FrameInfo, MIN_ADTS_HEADER_SIZE
 
 
@@ -47,16 +48,19 @@ class ADTSAACGrainWrapper(object):
         """Generator that yields ADTS AAC frame bytes read from the input given
 
         :yields: ADTS AAC frame bytes objects read from the raw input supplied and the frame info
+        :raises ValueError: if the input does not consist of complete ADTS frames
         """
         adts_aac_parser = ADTSAACParser()
 
         while True:
-            frame_data = self.input_data.read(MIN_ADTS_HEADER_SIZE)
+            frame_data = read_whole(self.input_data, MIN_ADTS_HEADER_SIZE)
             if not frame_data:
                 break
 
             frame_info = adts_aac_parser.parse_header(frame_data)
-            frame_data += self.input_data.read(frame_info.frame_size - len(frame_data))
+            frame_data += read_whole(self.input_data, frame_info.frame_size - len(frame_data))
+            if len(frame_data) < frame_info.frame_size:
+                raise ValueError("Insufficient data for the ADTS frame")
 
             yield (frame_data, frame_info)
 
diff --git a/mediagrains/utils/adts_aac_parser.py b/mediagrains/utils/adts_aac_parser.py
index eb96a71..1773aa0 100644
--- a/mediagrains/utils/adts_aac_parser.py
+++ b/mediagrains/utils/adts_aac_parser.py
@@ -41,8 +41,8 @@ class ADTSAACParser(object):
         """
         if len(frame_data) < MIN_ADTS_HEADER_SIZE:
             raise ValueError("Insufficient data size to parse the ADTS header")
-        elif frame_data[0] != 0xff or (frame_data[1] & 0xf0) != 0xf0:
-            raise ValueError("Missing ADTS header - invalid sync word")
+        elif frame_data[0] != 0xff or (frame_data[1] & 0xf6) != 0xf0:
+            raise ValueError("Missing ADTS header - invalid sync word or layer")
 
         try:
             # Object type - 2 bits from bit 16
@@ -60,6 +60,9 @@ class ADTSAACParser(object):
                 ((frame_data[5] >> 5) & 0x07)
             )
 
+            if frame_size < MIN_ADTS_HEADER_SIZE:
+                raise ValueError("Invalid ADTS frame size {}".format(frame_size))
+
             frame_info = FrameInfo(frame_size, object_type, sample_rate, channels)
 
         except IndexError as e:
-- 
2.43.0


From 9398b7ba44c2254b896516e21824c5fdd77137e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 23/90] fix: slices of one H.264 picture may differ in
 nal_ref_idc as long as none of them is zero

---
 mediagrains/utils/h264_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 4b53589..79e185a 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -201,7 +201,7 @@ class H264Parser(object):
                                     (slice_header.field_pic_flag and
                                         slice_header.bottom_field_flag != first_slice_header.bottom_field_flag) or
                                     (slice_header.nal_ref_idc != first_slice_header.nal_ref_idc and
-                                        (slice_header.nal_ref_idc != 0 or first_slice_header.nal_ref_idc != 0)) or
+                                        (slice_header.nal_ref_idc == 0 or first_slice_header.nal_ref_idc == 0)) or
                                     slice_header.idr_pic_flag != first_slice_header.idr_pic_flag or
                                     (slice_header.idr_pic_flag == 1 and
                                         slice_header.idr_pic_id != first_slice_header.idr_pic_id) or
-- 
2.43.0


From 7015e28fb3765476f6672faa925d8da5acad9f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 24/90] fix: the slice group identifiers of an H.264 picture
 parameter set have the coded number of bits

---
 mediagrains/utils/h264_parser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index 79e185a..b0127f0 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -592,11 +592,8 @@ class H264Parser(object):
                 rbsp_bits.read('ue')  # slice_group_change_rate_minus1
             elif slice_group_map_type == 6:
                 pic_size_in_map_units_minus1 = rbsp_bits.read('ue')
+                bits_required = num_slice_groups_minus1.bit_length()  # Ceil(Log2(num_slice_groups_minus1 + 1))
                 for _ in range(0, pic_size_in_map_units_minus1 + 1):
-                    value = pic_size_in_map_units_minus1 + 1
-                    bits_required = 63
-                    while bits_required and not (value & (1 << bits_required)):
-                        bits_required -= 1
                     rbsp_bits.read('uint:{}'.format(bits_required))  # slice_group_id[]
         rbsp_bits.read('ue')  # num_ref_idx_l0_default_active_minus1
         rbsp_bits.read('ue')  # num_ref_idx_l1_default_active_minus1
-- 
2.43.0


From fd0a1bf783ca965bd59c1dcac980c97586b7c674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 25/90] fix: H.264 streams with an unspecified extended sample
 aspect ratio can be wrapped

---
 mediagrains/utils/h264_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index b0127f0..cb0e2db 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -429,6 +429,8 @@ class H264Parser(object):
         ]
 
         if sps.aspect_ratio_idc == 255:  # extended SAR
+            if sps.sar_width == 0 or sps.sar_height == 0:
+                return None  # unspecified
             return Fraction(sps.sar_width, sps.sar_height)
         elif sps.aspect_ratio_idc < len(aspect_ratios):
             return Fraction(aspect_ratios[sps.aspect_ratio_idc][0], aspect_ratios[sps.aspect_ratio_idc][1])
-- 
2.43.0


From a2929b9f0045d584a00523461fc8c26e8049f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 26/90] fix: the duration of wrapped H.264 grains follows the
 frame rate coded in the stream

---
 mediagrains/utils/h264_grain_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/utils/h264_grain_wrapper.py b/mediagrains/utils/h264_grain_wrapper.py
index 86cde04..1b83093 100644
--- a/mediagrains/utils/h264_grain_wrapper.py
+++ b/mediagrains/utils/h264_grain_wrapper.py
@@ -136,6 +136,7 @@ class H264GrainWrapper(object):
                         self.template_grain.coded_height = 0
                 if frame_info.frame_rate is not None:
                     self.template_grain.rate = frame_info.frame_rate
+                    self.template_grain.duration = 1/frame_info.frame_rate
 
         rate = self.template_grain.rate
         norm_origin_ts = self.template_grain.origin_timestamp.normalise(rate.numerator, rate.denominator)
-- 
2.43.0


From ec4eec9b6030fdf17478730b793255174f574251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 27/90] fix: raw audio, and AAC without further options, can be
 wrapped by the wrap_audio_in_gsf tool

---
 mediagrains/tools/wrap_in_gsf.py | 39 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/mediagrains/tools/wrap_in_gsf.py b/mediagrains/tools/wrap_in_gsf.py
index dd508d3..8f8d646 100644
--- a/mediagrains/tools/wrap_in_gsf.py
+++ b/mediagrains/tools/wrap_in_gsf.py
@@ -147,35 +147,34 @@ def wrap_audio_in_gsf():
     flow_id = args.flow_id if args.flow_id else uuid.uuid4()
     source_id = args.source_id if args.source_id else uuid.uuid4()
 
-    if args.format == CogAudioFormat.AAC:
-        duration = fractions.Fraction(args.samples_per_grain, args.sample_rate)
+    channels = args.channels
+    if channels is None:
+        channels = 2
+
+    samples_per_grain = args.samples_per_grain
+    if samples_per_grain is None:
+        samples_per_grain = 1024 if args.format == CogAudioFormat.AAC else 1920
+
+    sample_rate = args.sample_rate
+    if sample_rate is None:
+        sample_rate = 48000
 
+    rate = fractions.Fraction(sample_rate, samples_per_grain)
+    duration = 1/rate
+
+    if args.format == CogAudioFormat.AAC:
         template_grain = CodedAudioGrain(
-            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=args.sample_rate,
-            duration=duration, channels=args.channels, samples=args.samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
+            duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
+            rate=rate
         )
         Wrapper = ADTSAACGrainWrapper
 
     else:
-        channels = args.channels
-        if channels is None:
-            channels = 2
-
-        samples_per_grain = args.samples_per_grain
-        if samples_per_grain is None:
-            samples_per_grain = 1920
-
-        sample_rate = args.sample_rate
-        if sample_rate is None:
-            sample_rate = 48000
-
-        duration = fractions.Fraction(samples_per_grain, sample_rate)
-
         template_grain = AudioGrain(
             flow_id=flow_id, src_id=source_id, origin_timestamp=args.start_ts, sample_rate=sample_rate,
             duration=duration, channels=channels, samples=samples_per_grain, cog_audio_format=args.format,
-            rate=fractions.Fraction(0, 1)
+            rate=rate
         )
         Wrapper = GrainWrapper
 
-- 
2.43.0


From d8c8fc0fda98f08c3f05099a6f945d01bf2de3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 28/90] fix: essence can be extracted from GSF files with
 grains that have no data

---
 mediagrains/tools/extract_from_gsf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index d54b2eb..ba45726 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -45,7 +45,8 @@ def extract_gsf_essence():
         for grain, local_id in decoder.grains(local_ids=args.only_id):
             print("Got grain with local_id {} at {}".format(local_id, grain.origin_timestamp.to_sec_nsec()),
                   file=sys.stderr)
-            output_data.write(grain.data)
+            if grain.data is not None:
+                output_data.write(grain.data)
 
 
 def gsf_probe():
-- 
2.43.0


From 4a1e6820f70b73faa8419a9fced1ba03d7288aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 29/90] fix: AAC can be wrapped with a template that doesn't
 give the samples per frame

---
 mediagrains/utils/adts_aac_grain_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/utils/adts_aac_grain_wrapper.py b/mediagrains/utils/adts_aac_grain_wrapper.py
index 023c94e..02d9f50 100644
--- a/mediagrains/utils/adts_aac_grain_wrapper.py
+++ b/mediagrains/utils/adts_aac_grain_wrapper.py
@@ -80,7 +80,7 @@ class ADTSAACGrainWrapper(object):
         else:
             self.template_grain.channels = frame_info.channels
             self.template_grain.sample_rate = frame_info.sample_rate
-            if self.template_grain.samples is None:
+            if not self.template_grain.samples:
                 # Assuming 1024 samples per coded frame.
                 # Use the --samples-per-grain option to override it to be 2048
                 self.template_grain.samples = 1024
-- 
2.43.0


From d07ceb846c1189a62fba3a4ada41916fce2c36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 30/90] fix: all slices of an H.264 picture in data partitions
 count for whether it is a key frame

---
 mediagrains/utils/h264_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/utils/h264_parser.py b/mediagrains/utils/h264_parser.py
index cb0e2db..5786574 100644
--- a/mediagrains/utils/h264_parser.py
+++ b/mediagrains/utils/h264_parser.py
@@ -309,7 +309,9 @@ class H264Parser(object):
 
                 primary_slice_headers.append(slice_header)
 
-            elif nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT:
+            elif (nal_unit_type <= NALUnitTypes.CODED_SLICE_IDR_PICT and
+                    nal_unit_type != NALUnitTypes.CODED_SLICE_DATA_PART_B and
+                    nal_unit_type != NALUnitTypes.CODED_SLICE_DATA_PART_C):
                 # No primary slices
                 break
 
-- 
2.43.0


From d427338f0af459444306441e775dc739437f30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 31/90] fix: the presentation times of coded video grains
 without a rate are their origin times

---
 mediagrains/grains/CodedVideoGrain.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index b45e5a7..57b7e78 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -415,27 +415,27 @@ unit_offsets
 
     @property
     def presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
-            return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.rate)
+        if self.media_rate is not None and self.temporal_offset is not None:
+            return self.origin_timestamp + Timestamp.from_count(self.temporal_offset, self.media_rate)
         else:
             return self.origin_timestamp
 
     def final_presentation_origin_timestamp(self) -> Timestamp:
-        if self.rate is not None and self.temporal_offset is not None:
-            return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.rate)
+        if self.media_rate is not None and self.temporal_offset is not None:
+            return self.final_origin_timestamp() + Timestamp.from_count(self.temporal_offset, self.media_rate)
         else:
             return self.final_origin_timestamp()
 
     def presentation_origin_timerange(self) -> TimeRange:
         origin_tr = self.origin_timerange()
-        if self.rate is not None and self.temporal_offset is not None:
+        if self.media_rate is not None and self.temporal_offset is not None:
             if origin_tr.start is not None:
-                start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.rate)
+                start = origin_tr.start + Timestamp.from_count(self.temporal_offset, self.media_rate)
             else:
                 start = None
 
             if origin_tr.end is not None:
-                end = origin_tr.end + Timestamp.from_count(self.temporal_offset, self.rate)
+                end = origin_tr.end + Timestamp.from_count(self.temporal_offset, self.media_rate)
             else:
                 end = None
 
-- 
2.43.0


From 06110a49443f5c9f71e8399d0795888c92935281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 32/90] fix: the final origin timestamp of audio grains without
 a sample rate is their origin timestamp

---
 mediagrains/grains/AudioGrain.py      | 2 ++
 mediagrains/grains/CodedAudioGrain.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index f3f588f..9befa33 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -174,6 +174,8 @@ sample_rate
         self.meta['grain']['cog_audio']['format'] = int(self.meta['grain']['cog_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if self.media_rate is None:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index b60caaa..b0f635d 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -179,6 +179,8 @@ remainder
         self.meta['grain']['cog_coded_audio']['format'] = int(self.meta['grain']['cog_coded_audio']['format'])
 
     def final_origin_timestamp(self) -> Timestamp:
+        if self.media_rate is None:
+            return self.origin_timestamp
         return (self.origin_timestamp + TimeOffset.from_count(self.samples - 1, self.sample_rate, 1))
 
     @property
-- 
2.43.0


From 7685dec67884f086cb5f90373e1e49ed5896c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 33/90] fix: channel views of planar 24-bit audio do not alter
 the grain's data

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 05f9082..e6cf531 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -65,9 +65,8 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
             data = wide_data.view(np.int32)
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
-            # significant bits end to produce int32 samples
-            data = data.view(np.int32)
-            data <<= 8
+            # significant bits end to produce int32 samples, leaving the grain's data as it is
+            data = np.left_shift(data.view(np.int32), 8)
         sample_bytes = 4
     else:
         sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
-- 
2.43.0


From d93b0adf3ca5f9ad7de852ad7bcd9c7d93a9a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 34/90] fix: time labels of a grain can be sliced, extended,
 assigned and added to as a list without losing labels

---
 mediagrains/grains/Grain.py | 41 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 679f7a4..de1224a 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -536,8 +536,9 @@ media_rate
 
     @timelabels.setter
     def timelabels(self, value: "Union[List[Grain.TIMELABEL], Grain.TIMELABELS]") -> None:
+        labels = list(value)
         cast(EmptyGrainMetadataDict, self.meta)['grain']['timelabels'] = []
-        for x in value:
+        for x in labels:
             self.timelabels.append(x)
 
     def add_timelabel(self, tag: str, count: int, rate: Fraction, drop_frame: bool = False) -> None:
@@ -634,12 +635,11 @@ media_rate
         def __getitem__(self, key: slice) -> "List[Grain.TIMELABEL]": ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list index out of range")
-            if isinstance(key, int):
-                return Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][key])
+            labels = self.parent.meta['grain'].get('timelabels', [])
+            if isinstance(key, slice):
+                return [Grain.TIMELABEL(label) for label in labels[key]]
             else:
-                return [Grain.TIMELABEL(self.parent.meta['grain']['timelabels'][n]) for n in range(len(self))[key]]
+                return Grain.TIMELABEL(labels[key])
 
         @overload
         def __setitem__(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None: ...
@@ -648,22 +648,27 @@ media_rate
         def __setitem__(self, key: slice, value: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
-            if isinstance(key, int):
-                self.parent.meta['grain']['timelabels'][key] = dict(Grain.TIMELABEL(value))
+            labels = self.parent.meta['grain'].get('timelabels', [])
+            if isinstance(key, slice):
+                labels[key] = [dict(Grain.TIMELABEL(label)) for label in value]
+                self._store(labels)
             else:
-                values = iter(value)
-                for n in key:
-                    self.parent.meta['grain']['timelabels'][n] = dict(Grain.TIMELABEL(next(values)))
+                labels[key] = dict(Grain.TIMELABEL(value))
 
         def __delitem__(self, key: Union[int, slice]) -> None:
-            if 'timelabels' not in self.parent.meta['grain']:
-                raise IndexError("list assignment index out of range")
+            labels = self.parent.meta['grain'].get('timelabels', [])
+            del labels[key]
+            self._store(labels)
+
+        def _store(self, labels: List[TimeLabel]) -> None:
+            if len(labels) > 0:
+                cast(EmptyGrainMetadataDict, self.parent.meta)['grain']['timelabels'] = labels
+            else:
+                cast(dict, self.parent.meta['grain']).pop('timelabels', None)
 
-            del self.parent.meta['grain']['timelabels'][key]
-            if len(self.parent.meta['grain']['timelabels']) == 0:
-                del self.parent.meta['grain']['timelabels']
+        def extend(self, values: "Iterable[Grain.TIMELABEL.GrainMetadataDict]") -> None:
+            # The values may be another view of this same list
+            super().extend(list(values))
 
         def insert(self, key: int, value: "Grain.TIMELABEL.GrainMetadataDict") -> None:
             if 'timelabels' not in self.parent.meta['grain']:
-- 
2.43.0


From 2891624e7c0c2eb774370f94f6bbcdbf3657911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 35/90] fix: the components of a video grain can be edited and
 assigned as a list and stay plain metadata

---
 mediagrains/grains/VideoGrain.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 340b3d3..586f460 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -223,18 +223,22 @@ length
 
         def __setitem__(self, key, value):  # noqa: F811
             if isinstance(key, int):
-                self.parent.meta['grain']['cog_frame']['components'][key] = type(self.parent).COMPONENT(value)
+                self.parent.meta['grain']['cog_frame']['components'][key] = cast(
+                    VideoGrainComponentDict, dict(value))
             else:
-                values = iter(value)
-                for n in range(len(self))[key]:
-                    self.parent.meta['grain']['cog_frame']['components'][n] = type(self.parent).COMPONENT(next(values))
+                self.parent.meta['grain']['cog_frame']['components'][key] = [
+                    cast(VideoGrainComponentDict, dict(component)) for component in value]
 
         def __delitem__(self, key: Union[int, slice]) -> None:
             del self.parent.meta['grain']['cog_frame']['components'][key]
 
         def insert(self, key: int, value: VideoGrainComponentDict) -> None:
             self.parent.meta['grain']['cog_frame']['components'].insert(
-                key, type(self.parent).COMPONENT(value))  # type: ignore
+                key, cast(VideoGrainComponentDict, dict(value)))
+
+        def extend(self, values: Iterable[VideoGrainComponentDict]) -> None:
+            # The values may be another view of this same list
+            super().extend(list(values))
 
         def __len__(self) -> int:
             return len(self.parent.meta['grain']['cog_frame']['components'])
@@ -444,7 +448,15 @@ length
             }
         self.meta['grain']['cog_frame']['format'] = int(self.meta['grain']['cog_frame']['format'])
         self.meta['grain']['cog_frame']['layout'] = int(self.meta['grain']['cog_frame']['layout'])
-        self.components = VideoGrain.COMPONENT_LIST(self)
+
+    @property
+    def components(self) -> "VideoGrain.COMPONENT_LIST":
+        return VideoGrain.COMPONENT_LIST(self)
+
+    @components.setter
+    def components(self, value: Iterable[VideoGrainComponentDict]) -> None:
+        self.meta['grain']['cog_frame']['components'] = [
+            cast(VideoGrainComponentDict, dict(component)) for component in value]
 
     @property
     @deprecated(version="4.0.0", reason="Referencing `format` directly is deprecated in favour of `cog_frame_format`")
-- 
2.43.0


From df0d1c8b7faa2b161c8814a6225ea8453d58d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 36/90] fix: unit offsets of a coded grain can be sliced,
 extended and deleted as a list, also when there are none

---
 mediagrains/grains/CodedVideoGrain.py | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 57b7e78..e32b391 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -344,10 +344,7 @@ unit_offsets
         def __getitem__(self, key: slice) -> List[int]: ...
 
         def __getitem__(self, key):  # noqa: F811
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                return self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key]
-            else:
-                raise IndexError("list index out of range")
+            return self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])[key]
 
         @overload
         def __setitem__(self, key: int, value: int) -> None: ...
@@ -356,18 +353,24 @@ unit_offsets
         def __setitem__(self, key: slice, value: Iterable[int]) -> None: ...
 
         def __setitem__(self, key, value):  # noqa: F811
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                self.parent.meta['grain']['cog_coded_frame']['unit_offsets'][key] = value
-            else:
-                raise IndexError("list assignment index out of range")
+            offsets = self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])
+            offsets[key] = value
+            self._store(offsets)
 
         def __delitem__(self, key: Union[int, slice]) -> None:
-            if 'unit_offsets' in self.parent.meta['grain']['cog_coded_frame']:
-                del cast(List[int], self.parent.meta['grain']['cog_coded_frame']['unit_offsets'])[key]
-                if len(self.parent.meta['grain']['cog_coded_frame']['unit_offsets']) == 0:
-                    del self.parent.meta['grain']['cog_coded_frame']['unit_offsets']
+            offsets = self.parent.meta['grain']['cog_coded_frame'].get('unit_offsets', [])
+            del offsets[key]
+            self._store(offsets)
+
+        def _store(self, offsets: List[int]) -> None:
+            if len(offsets) > 0:
+                self.parent.meta['grain']['cog_coded_frame']['unit_offsets'] = offsets
             else:
-                raise IndexError("list assignment index out of range")
+                self.parent.meta['grain']['cog_coded_frame'].pop('unit_offsets', None)
+
+        def extend(self, values: Iterable[int]) -> None:
+            # The values may be another view of this same list
+            super().extend(list(values))
 
         def insert(self, key: int, value: int) -> None:
             if 'unit_offsets' not in self.parent.meta['grain']['cog_coded_frame']:
-- 
2.43.0


From 6fd387c7f9699f7057088595e2eb03a35c9df28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 37/90] fix: the absent pre value of an event can be set to
 None

---
 mediagrains/grains/EventGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 8a5ea68..940d47a 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -322,7 +322,7 @@ post
         def pre(self, value: Optional[MediaJSONSerialisable]) -> None:
             if value is not None:
                 self.meta['pre'] = value
-            else:
+            elif 'pre' in self.meta:
                 del self.meta['pre']
 
         @property
-- 
2.43.0


From e47a193bc0dc94bd294477d5c90ac7553d956a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 38/90] fix: unit offsets given to a coded grain are stored as
 a list of its own

---
 mediagrains/grains/CodedVideoGrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index e32b391..3718df8 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -183,7 +183,7 @@ unit_offsets
             data = bytearray(length)
 
         if "grain" in meta and "cog_coded_frame" in meta['grain'] and unit_offsets is not None:
-            meta['grain']['cog_coded_frame']['unit_offsets'] = unit_offsets
+            meta['grain']['cog_coded_frame']['unit_offsets'] = list(unit_offsets)
 
         super().__init__(meta, data)
         self.meta: CodedVideoGrainMetadataDict
-- 
2.43.0


From 76968963dd7de7b66a7c1020609515d5552e00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 39/90] fix: grains whose data is a memoryview can be deep
 copied

---
 mediagrains/grains/Grain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index de1224a..90674d6 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -369,7 +369,11 @@ media_rate
         return GrainFactory(copy(self.meta), self.data)
 
     def __deepcopy__(self, memo) -> "Grain":
-        return GrainFactory(deepcopy(self.meta), deepcopy(self.data))
+        data = self.data
+        if isinstance(data, memoryview):
+            # memoryviews cannot be copied themselves
+            data = bytes(data) if data.readonly else bytearray(data)
+        return GrainFactory(deepcopy(self.meta), deepcopy(data))
 
     def __bytes__(self) -> Optional[bytes]:
         if isinstance(self._data, bytes):
-- 
2.43.0


From cc329fecdb33cdd754c7ae711932630f96b5a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 40/90] fix: numpy grains can be compared for equality

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  4 ++++
 mediagrains/numpy/numpy_grains/VideoGrain.py |  4 ++++
 mediagrains/numpy/numpy_grains/equality.py   | 22 ++++++++++++++++++++
 3 files changed, 30 insertions(+)
 create mode 100644 mediagrains/numpy/numpy_grains/equality.py

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index e6cf531..4e6acb2 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -12,6 +12,7 @@ from numpy.lib.stride_tricks import as_strided
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
 
+from .equality import grain_equals
 from ...cogenums import (
     CogAudioFormat,
     COG_AUDIO_IS_INT,
@@ -188,6 +189,9 @@ class AudioGrain (bytesgrain.AudioGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return grain_equals(self, other)
+
     def __copy__(self) -> "AudioGrain":
         return AudioGrain(meta=copy(self.meta), data=self.data)
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 99be2a0..e27c66a 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -5,6 +5,7 @@ from ...cogenums import (
     COG_FRAME_FORMAT_BYTES_PER_VALUE,
     COG_FRAME_IS_PLANAR_RGB)
 import mediagrains.grains as bytesgrain
+from .equality import grain_equals
 from copy import copy, deepcopy
 import uuid
 
@@ -301,6 +302,9 @@ class VideoGrain (bytesgrain.VideoGrain):
             return bytes()
         return bytes(self._data)
 
+    def __eq__(self, other: object) -> bool:
+        return grain_equals(self, other)
+
     def __copy__(self) -> "VideoGrain":
         return VideoGrain(meta=copy(self.meta), data=self.data)
 
diff --git a/mediagrains/numpy/numpy_grains/equality.py b/mediagrains/numpy/numpy_grains/equality.py
new file mode 100644
index 0000000..5e7d834
--- /dev/null
+++ b/mediagrains/numpy/numpy_grains/equality.py
@@ -0,0 +1,22 @@
+from typing import SupportsBytes
+
+import numpy as np
+
+from ...grains import Grain
+
+
+def grain_equals(grain: Grain, other: object) -> bool:
+    """Compare a grain to another grain or to a (meta, data) tuple.
+
+    Numpy arrays do not compare to a single truth value, so the data is compared as bytes.
+    """
+    if not isinstance(other, (tuple, Grain)) or len(other) != 2:
+        return False
+    (meta, data) = other
+    if grain.meta != meta:
+        return False
+    if grain.data is None or data is None:
+        return grain.data is None and data is None
+    if not isinstance(data, (bytes, bytearray, memoryview, np.ndarray, SupportsBytes)):
+        return False
+    return bytes(grain.data) == bytes(data)
-- 
2.43.0


From cf8aeffa5ca55e235d1343f7d14ff16352e02156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 41/90] fix: AYUV frames have four bytes for each pixel

---
 mediagrains/grains/VideoGrain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 586f460..331cfc0 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -317,7 +317,7 @@ length
                     bpv = 4
                 return (w*h + 2*((w*h) >> (h_shift + v_shift)))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     return w*h*2
                 elif fmt in (CogFrameFormat.RGBx,
                              CogFrameFormat.RGBA,
@@ -326,7 +326,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     return w*h*4
                 elif fmt == CogFrameFormat.RGB:
                     return w*h*3
@@ -378,7 +379,7 @@ length
                 })
                 offset += ((w*h) >> (h_shift + v_shift))*bpv
             else:
-                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY, CogFrameFormat.AYUV):
+                if fmt in (CogFrameFormat.YUYV, CogFrameFormat.UYVY):
                     components.append({
                         'stride': w*2,
                         'offset': 0,
@@ -393,7 +394,8 @@ length
                              CogFrameFormat.BGRx,
                              CogFrameFormat.BGRA,
                              CogFrameFormat.xBGR,
-                             CogFrameFormat.ABGR):
+                             CogFrameFormat.ABGR,
+                             CogFrameFormat.AYUV):
                     components.append({
                         'stride': w*4,
                         'offset': 0,
-- 
2.43.0


From 8b3a8d2b2aff53e1532fa7ae0bfd055d689a4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 42/90] fix: numpy video grains can be BGRA

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index e27c66a..2ab1eb2 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -45,7 +45,7 @@ def _dtype_from_cogframeformat(fmt: CogFrameFormat) -> np.dtype:
                  CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx,
+                 CogFrameFormat.BGRA,
                  CogFrameFormat.ARGB,
                  CogFrameFormat.xRGB,
                  CogFrameFormat.ABGR,
@@ -184,7 +184,7 @@ def _component_arrays_for_data_and_type(
     elif fmt in [CogFrameFormat.RGBx,
                  CogFrameFormat.RGBA,
                  CogFrameFormat.BGRx,
-                 CogFrameFormat.BGRx]:
+                 CogFrameFormat.BGRA]:
         # 8 bit 4:4:4:4 four components interleave dropping the fourth component
         return _component_arrays_for_interleaved_444_take_three(data,
                                                                 data[1:],
-- 
2.43.0


From e32acf050673770c7b68e8d39e37786c92c5ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 43/90] fix: numpy grains without data, or with data still to
 come, report their length and can have their data removed

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  6 +++++-
 mediagrains/numpy/numpy_grains/VideoGrain.py | 11 ++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 4e6acb2..3dda639 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -154,7 +154,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         if self._data is not None:
             return self._data.nbytes
         else:
-            return 0
+            return super().length
 
     @length.setter
     def length(self, L: int) -> None:
@@ -174,6 +174,10 @@ class AudioGrain (bytesgrain.AudioGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.channel_data = []
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 2ab1eb2..6304d9b 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -265,9 +265,10 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     @property
     def length(self) -> int:
-        if self._data is None:
-            return 0
-        return self._data.nbytes
+        if self._data is not None:
+            return self._data.nbytes
+        else:
+            return super().length
 
     @length.setter
     def length(self, L: int) -> None:
@@ -287,6 +288,10 @@ class VideoGrain (bytesgrain.VideoGrain):
             self._data_fetcher_coroutine = cast(Awaitable[GrainDataType], value)
             self._data = None
             self.component_data = ComponentDataList([])
+        elif value is None:
+            self._data_fetcher_coroutine = None
+            self._data = None
+            self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
             self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
-- 
2.43.0


From 4692bd6efe7a6f939052d009c92b8237cb13442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:23 +0000
Subject: [PATCH 44/90] fix: numpy grains can be made from lazily loaded grains
 and any other data that converts to bytes

---
 mediagrains/numpy/numpy_grains/AudioGrain.py |  5 +++--
 mediagrains/numpy/numpy_grains/VideoGrain.py |  5 +++--
 mediagrains/numpy/numpy_grains/buffer.py     | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 4 deletions(-)
 create mode 100644 mediagrains/numpy/numpy_grains/buffer.py

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 3dda639..2c22d0d 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -12,6 +12,7 @@ from numpy.lib.stride_tricks import as_strided
 from mediatimestamp.immutable import SupportsMediaTimestamp
 import mediagrains.grains as bytesgrain
 
+from .buffer import array_from_grain_data
 from .equality import grain_equals
 from ...cogenums import (
     CogAudioFormat,
@@ -141,7 +142,7 @@ class AudioGrain (bytesgrain.AudioGrain):
         self.channel_data: List[np.ndarray]
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = array_from_grain_data(self._data, _dtype_from_cogaudioformat(self.format))
         if self._data is not None:
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
@@ -180,7 +181,7 @@ class AudioGrain (bytesgrain.AudioGrain):
             self.channel_data = []
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogaudioformat(self.format))
+            self._data = array_from_grain_data(cast(GrainDataType, value), _dtype_from_cogaudioformat(self.format))
             self.channel_data = _channel_arrays_for_data_and_type(
                 self._data, self.format, self.samples, self.channels
             )
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 6304d9b..56cd46d 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -5,6 +5,7 @@ from ...cogenums import (
     COG_FRAME_FORMAT_BYTES_PER_VALUE,
     COG_FRAME_IS_PLANAR_RGB)
 import mediagrains.grains as bytesgrain
+from .buffer import array_from_grain_data
 from .equality import grain_equals
 from copy import copy, deepcopy
 import uuid
@@ -256,7 +257,7 @@ class VideoGrain (bytesgrain.VideoGrain):
         self.component_data: ComponentDataList
 
         if self._data is not None:
-            self._data = np.frombuffer(self._data, dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = array_from_grain_data(self._data, _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
@@ -294,7 +295,7 @@ class VideoGrain (bytesgrain.VideoGrain):
             self.component_data = ComponentDataList([])
         else:
             self._data_fetcher_coroutine = None
-            self._data = np.frombuffer(cast(bytes, value), dtype=_dtype_from_cogframeformat(self.cog_frame_format))
+            self._data = array_from_grain_data(cast(GrainDataType, value), _dtype_from_cogframeformat(self.cog_frame_format))
             self.component_data = ComponentDataList(
                 _component_arrays_for_data_and_type(self._data, self.cog_frame_format, self.components),
                 arrangement=_component_arrangement_from_format(self.cog_frame_format))
diff --git a/mediagrains/numpy/numpy_grains/buffer.py b/mediagrains/numpy/numpy_grains/buffer.py
new file mode 100644
index 0000000..9361ceb
--- /dev/null
+++ b/mediagrains/numpy/numpy_grains/buffer.py
@@ -0,0 +1,14 @@
+from typing import SupportsBytes, cast
+
+import numpy as np
+
+from ...typing import GrainDataType
+
+
+def array_from_grain_data(data: GrainDataType, dtype: np.dtype) -> np.ndarray:
+    """Return an array that shares memory with the grain data if that has a buffer, and holds a copy otherwise."""
+    try:
+        memoryview(cast(bytes, data))
+    except TypeError:
+        data = bytes(cast(SupportsBytes, data))
+    return np.frombuffer(cast(bytes, data), dtype=dtype)
-- 
2.43.0


From 21612847ac55b30a2aeae25546d0f7201ac104a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 45/90] fix: numpy grains made from grains still awaiting their
 data get that data, and keep data assigned meanwhile

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 11 +++++++++--
 mediagrains/numpy/numpy_grains/VideoGrain.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 2c22d0d..861bddc 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -128,7 +128,11 @@ class AudioGrain (bytesgrain.AudioGrain):
         if grain and isinstance(grain, bytesgrain.AudioGrain):
             meta = grain.meta
             data = grain.data
+            if data is None and grain._data_fetcher_coroutine is not None:
+                # Awaiting this grain will await the data of the original
+                data = grain
             super().__init__(meta=meta, data=data)
+            self._data_fetcher_length = grain._data_fetcher_length
         else:
             if args and len(args) == 2:
                 meta = cast(AudioGrainMetadataDict, args[0])
@@ -212,8 +216,11 @@ class AudioGrain (bytesgrain.AudioGrain):
 
     def __await__(self) -> Generator[Any, None, np.ndarray]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self.data = data
             return self.data
         return __inner().__await__()
 
diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index 56cd46d..ebea37d 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -242,7 +242,11 @@ class VideoGrain (bytesgrain.VideoGrain):
         if grain and isinstance(grain, bytesgrain.VideoGrain):
             meta = grain.meta
             data = grain.data
+            if data is None and grain._data_fetcher_coroutine is not None:
+                # Awaiting this grain will await the data of the original
+                data = grain
             super().__init__(meta, data)
+            self._data_fetcher_length = grain._data_fetcher_length
         else:
             if args and len(args) == 2:
                 meta = cast(VideoGrainMetadataDict, args[0])
@@ -326,8 +330,11 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     def __await__(self) -> Generator[Any, None, np.ndarray]:
         async def __inner():
-            if self._data is None and self._data_fetcher_coroutine is not None:
-                self.data = await self._data_fetcher_coroutine
+            fetcher = self._data_fetcher_coroutine
+            if self._data is None and fetcher is not None:
+                data = await fetcher
+                if self._data is None and self._data_fetcher_coroutine is fetcher:
+                    self.data = data
             return self.data
         return __inner().__await__()
 
-- 
2.43.0


From cd7a29c931b201ff536c028d129cdef1b03f79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 46/90] fix: component views of numpy video grains start at the
 component's offset and never reach outside the data

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 47 ++++++++++----------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index ebea37d..bf1e165 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -69,6 +69,8 @@ class ComponentDataList(list):
 
     def __init__(self, data: list, arrangement: ComponentOrder = ComponentOrder.X):
         super().__init__(data)
+        if len(self) == 0:
+            return
         if arrangement == ComponentDataList.ComponentOrder.YUV:
             self.Y = self[0]
             self.U = self[1]
@@ -109,18 +111,19 @@ def _component_arrangement_from_format(fmt: CogFrameFormat):
         return ComponentDataList.ComponentOrder.X
 
 
+def _component_view(data: np.ndarray, width: int, height: int, stride: int, step: int) -> np.ndarray:
+    """Returns a view of data as lines of samples, which is never allowed to reach beyond the end of the data."""
+    if width > 0 and height > 0 and (height - 1)*stride + (width - 1)*step + data.itemsize > data.nbytes:
+        raise ValueError("The grain data is too short for the size of its components")
+    return as_strided(data, shape=(height, width), strides=(stride, step)).transpose()
+
+
 def _component_arrays_for_interleaved_422(
  data0: np.ndarray, data1: np.ndarray, data2: np.ndarray, width: int, height: int, stride: int, itemsize: int):
     return [
-        as_strided(data0,
-                   shape=(height, width),
-                   strides=(stride, itemsize*2)).transpose(),
-        as_strided(data1,
-                   shape=(height, width//2),
-                   strides=(stride, itemsize*4)).transpose(),
-        as_strided(data2,
-                   shape=(height, width//2),
-                   strides=(stride, itemsize*4)).transpose()]
+        _component_view(data0, width, height, stride, itemsize*2),
+        _component_view(data1, width//2, height, stride, itemsize*4),
+        _component_view(data2, width//2, height, stride, itemsize*4)]
 
 
 def _component_arrays_for_interleaved_444_take_three(data0: np.ndarray,
@@ -132,15 +135,9 @@ def _component_arrays_for_interleaved_444_take_three(data0: np.ndarray,
                                                      itemsize: int,
                                                      num_components: int = 3):
     return [
-        as_strided(data0,
-                   shape=(height, width),
-                   strides=(stride, itemsize*num_components)).transpose(),
-        as_strided(data1,
-                   shape=(height, width),
-                   strides=(stride, itemsize*num_components)).transpose(),
-        as_strided(data2,
-                   shape=(height, width),
-                   strides=(stride, itemsize*num_components)).transpose()]
+        _component_view(data0, width, height, stride, itemsize*num_components),
+        _component_view(data1, width, height, stride, itemsize*num_components),
+        _component_view(data2, width, height, stride, itemsize*num_components)]
 
 
 def _component_arrays_for_data_and_type(
@@ -156,16 +153,20 @@ def _component_arrays_for_data_and_type(
     For weird packed formats like v210 nothing can be done, an empty list is returned since no individual component
     access is possible.
     """
-    if data is None:
+    if data is None or len(data) == 0:
         return []
 
     if COG_FRAME_IS_PLANAR(fmt):
         return [
-            as_strided(data[component.offset//data.itemsize:(component.offset + component.length)//data.itemsize],
-                       shape=(component.height, component.width),
-                       strides=(component.stride, data.itemsize)).transpose()
+            _component_view(data[component.offset//data.itemsize:],
+                            component.width, component.height, component.stride, data.itemsize)
             for component in components]
-    elif fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
+
+    if len(components) > 0:
+        # The packed formats have a single component
+        data = data[components[0].offset//data.itemsize:]
+
+    if fmt in [CogFrameFormat.UYVY, CogFrameFormat.v216]:
         # Either 8 or 16 bits 4:2:2 interleavedd in UYVY order
         return _component_arrays_for_interleaved_422(
             data[1:], data, data[2:], components[0].width, components[0].height, components[0].stride, data.itemsize)
-- 
2.43.0


From bc9c2aca2a253b90ee922e5c8fbf3d2f821f216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 47/90] fix: channel views of numpy audio grains never reach
 outside the data

---
 mediagrains/numpy/numpy_grains/AudioGrain.py | 42 ++++++--------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/AudioGrain.py b/mediagrains/numpy/numpy_grains/AudioGrain.py
index 861bddc..5de7e20 100644
--- a/mediagrains/numpy/numpy_grains/AudioGrain.py
+++ b/mediagrains/numpy/numpy_grains/AudioGrain.py
@@ -47,6 +47,13 @@ def _dtype_from_cogaudioformat(format: CogAudioFormat) -> np.dtype:
     raise NotImplementedError("Cog Audio Format not amongst those supported for numpy array interpretation")
 
 
+def _channel_view(data: np.ndarray, first: int, samples: int, step: int) -> np.ndarray:
+    """Returns a view of every step-th value, which is never allowed to reach beyond the end of the data."""
+    if samples > 0 and first + (samples - 1)*step >= len(data):
+        raise ValueError("The grain data is too short for its samples and channels")
+    return as_strided(data[first:], shape=(samples,), strides=(data.itemsize*step,))
+
+
 def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
                                       format: CogAudioFormat,
                                       samples: int,
@@ -57,53 +64,30 @@ def _channel_arrays_for_data_and_type(data: Optional[np.ndarray],
     24-bit samples are widened to 32-bit. Planar 24-bit samples held in the lower part of 32-bit are shifted to the
     upper part.
     """
-    if data is None:
+    if data is None or (len(data) == 0 and samples > 0):
         return []
     if COG_AUDIO_IS_INT(format) and COG_AUDIO_FORMAT_DEPTH(format) == COG_AUDIO_FORMAT_DEPTH_S24:
         if COG_AUDIO_FORMAT_SAMPLEBYTES(format) == 3:
             # Widen samples to int32
             wide_data = np.zeros((len(data) // 3, 4), dtype=np.uint8)
             wide_data[:, 1:] = data.reshape((-1, 3))
-            data = wide_data.view(np.int32)
+            data = wide_data.view(np.int32)[:, 0]
         else:
             # The 24 bits are stored in the least significant bits. Shift to the most
             # significant bits end to produce int32 samples, leaving the grain's data as it is
             data = np.left_shift(data.view(np.int32), 8)
-        sample_bytes = 4
-    else:
-        sample_bytes = COG_AUDIO_FORMAT_SAMPLEBYTES(format)
 
     channel_data: List[np.ndarray] = []
     if COG_AUDIO_IS_PLANES(format):
         for channel in range(channels):
-            plane_offset = channel * samples
-            next_plane_offset = (channel + 1) * samples
-            channel_data.append(
-                data[plane_offset:next_plane_offset]
-            )
+            channel_data.append(_channel_view(data, channel * samples, samples, 1))
     elif COG_AUDIO_IS_INTERLEAVED(format):
         for channel in range(channels):
-            interleave_offset = channel
-            next_interleave_offset = channel + samples
-            channel_data.append(
-                as_strided(
-                    data[interleave_offset:next_interleave_offset],
-                    shape=(samples,),
-                    strides=(sample_bytes * channels,)
-                )
-            )
+            channel_data.append(_channel_view(data, channel, samples, channels))
     elif COG_AUDIO_IS_PAIRS(format):
         for channel in range(channels):
-            channel_pair = channel // 2
-            pair_offset = 2 * channel_pair * samples
-            next_pair_offset = 2 * (channel_pair + 1) * samples
-            channel_data.append(
-                as_strided(
-                    data[pair_offset+(channel % 2):next_pair_offset],
-                    shape=(samples,),
-                    strides=(sample_bytes * 2,)
-                )
-            )
+            pair_offset = 2 * (channel // 2) * samples
+            channel_data.append(_channel_view(data, pair_offset + (channel % 2), samples, 2))
 
     return channel_data
 
-- 
2.43.0


From 074775dbfb1f47dd375d05b97b881d6d0be71111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:06 +0000
Subject: [PATCH 48/90] fix: a grain whose awaited data turns out to be None
 can be awaited again

---
 mediagrains/grains/Grain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 90674d6..71586bd 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -392,6 +392,7 @@ media_rate
                 data = await fetcher
                 if self._data is None and self._data_fetcher_coroutine is fetcher:
                     self._data = data
+                    self._data_fetcher_coroutine = None
             return self._data
         return __inner().__await__()
 
-- 
2.43.0


From b03af2d71f8e667a38dcdc478edcb161da611d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:03 +0000
Subject: [PATCH 49/90] fix: grains whose data is a numpy array can be compared
 for equality

---
 mediagrains/grains/Grain.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mediagrains/grains/Grain.py b/mediagrains/grains/Grain.py
index 71586bd..17ae218 100644
--- a/mediagrains/grains/Grain.py
+++ b/mediagrains/grains/Grain.py
@@ -12,6 +12,7 @@ from collections.abc import Sequence, MutableSequence, Mapping
 from fractions import Fraction
 from copy import copy, deepcopy
 from inspect import isawaitable
+from numpy import ndarray
 
 from typing import (
     List,
@@ -360,6 +361,15 @@ media_rate
             return "{}({!r},< binary data of length {} >)".format(self._factory, self.meta, len(cast(Sized, self.data)))
 
     def __eq__(self, other: object) -> bool:
+        if isinstance(other, (tuple, Grain)) and len(other) == 2:
+            (data, other_data) = (self.data, other[1])
+            if isinstance(data, ndarray) or isinstance(other_data, ndarray):
+                # Arrays do not compare to a single truth value, so compare them as bytes
+                types = (ndarray, bytes, bytearray, memoryview, SupportsBytes)
+                return (self.meta == other[0] and
+                        isinstance(data, types) and
+                        isinstance(other_data, types) and
+                        bytes(data) == bytes(other_data))
         return tuple(self) == other
 
     def __ne__(self, other: object) -> bool:
-- 
2.43.0


From b14eacb05c2897c1dbde70f8f8883a997aecc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 50/90] fix: data assigned to an event grain is kept when data
 it was awaiting arrives

---
 mediagrains/grains/EventGrain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index 940d47a..b96aac9 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -209,6 +209,7 @@ append(path, pre=None, post=None)
             if 'post' in datum:
                 d['post'] = datum['post']
             data.append(d)
+        self._data_fetcher_coroutine = None
         self.event_type = payload['type']
         self.topic = payload['topic']
         self.meta['grain']['event_payload']['data'] = data
-- 
2.43.0


From 264a94eb2a8ebbf67d003d8672b3582f4de70dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:12 +0000
Subject: [PATCH 51/90] fix: event data set from bytes keeps the order of its
 keys, so that rebuilt event grains are equal

---
 mediagrains/grains/EventGrain.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index b96aac9..bf6c6d4 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -203,12 +203,8 @@ append(path, pre=None, post=None)
         for datum in payload['data']:
             if not isinstance(datum, dict) or 'path' not in datum:
                 raise ValueError("incorrectly formated event payload")
-            d: EventGrainDatumDict = {'path': datum['path']}
-            if 'pre' in datum:
-                d['pre'] = datum['pre']
-            if 'post' in datum:
-                d['post'] = datum['post']
-            data.append(d)
+            # Keep the order of the keys, so that the grain's data stays the same
+            data.append(cast(EventGrainDatumDict, {k: v for (k, v) in datum.items() if k in ('path', 'pre', 'post')}))
         self._data_fetcher_coroutine = None
         self.event_type = payload['type']
         self.topic = payload['topic']
-- 
2.43.0


From 51ae080f0e13d6342e9aa4d4776a76b240b23357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 52/90] fix: reducing the bit depth of video never wraps the
 highest values round to black

---
 mediagrains/numpy/convert.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index 2a0c925..c010d5d 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -100,8 +100,9 @@ def _simple_duplicate_convert_yuv420__yuv422(grain_in: VideoGrain, grain_out: Vi
 
 
 # Bit depth conversions
-def _unbiased_right_shift(a: np.ndarray, n: int) -> np.ndarray:
-    return (a >> n) + ((a >> (n - 1)) & 0x1)
+def _unbiased_right_shift(a: np.ndarray, n: int, bd: int) -> np.ndarray:
+    """Shift right by n bits, rounding to the nearest value which fits in bd bits"""
+    return np.minimum((a >> n) + ((a >> (n - 1)) & 0x1), (1 << bd) - 1)
 
 
 def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -109,10 +110,11 @@ def _bitdepth_down_convert_yuv(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    bd = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
 
-    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift)
-    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift)
-    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift)
+    grain_out.component_data[0][:] = _unbiased_right_shift(grain_in.component_data[0][:], bitshift, bd)
+    grain_out.component_data[1][:] = _unbiased_right_shift(grain_in.component_data[1][:], bitshift, bd)
+    grain_out.component_data[2][:] = _unbiased_right_shift(grain_in.component_data[2][:], bitshift, bd)
 
 
 def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
@@ -120,10 +122,11 @@ def _bitdepth_down_convert_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> N
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_in.cog_frame_format) -
         COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
     )
+    bd = COG_FRAME_FORMAT_ACTIVE_BITS(grain_out.cog_frame_format)
 
-    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift)
-    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift)
-    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift)
+    grain_out.component_data.R[:] = _unbiased_right_shift(grain_in.component_data.R[:], bitshift, bd)
+    grain_out.component_data.G[:] = _unbiased_right_shift(grain_in.component_data.G[:], bitshift, bd)
+    grain_out.component_data.B[:] = _unbiased_right_shift(grain_in.component_data.B[:], bitshift, bd)
 
 
 def _noisy_left_shift(a: np.ndarray, n: int) -> np.ndarray:
-- 
2.43.0


From 64167b5818e93056fd60d28926e0a2d64676b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 53/90] fix: conversion to RGB clips bright colours to the
 highest value instead of wrapping them round

---
 mediagrains/numpy/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mediagrains/numpy/convert.py b/mediagrains/numpy/convert.py
index c010d5d..e47f014 100644
--- a/mediagrains/numpy/convert.py
+++ b/mediagrains/numpy/convert.py
@@ -184,11 +184,11 @@ def _convert_yuv444_to_rgb(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
 
     # Note that NumPy requires the `unsafe` cast here due to the slight loss of precision in RGB<->YUV conversion
     np.clip((Y + V*1.5748),
-            0, 1 << bd, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.R, casting="unsafe")  # type: ignore
     np.clip((Y - U*0.187324 - V*0.468124),
-            0, 1 << bd, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.G, casting="unsafe")  # type: ignore
     np.clip((Y + U*1.8556),
-            0, 1 << bd, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
+            0, (1 << bd) - 1, out=grain_out.component_data.B, casting="unsafe")  # type: ignore
 
 
 def _convert_v210_to_yuv422_10bit(grain_in: VideoGrain, grain_out: VideoGrain) -> None:
-- 
2.43.0


From afc02d45736bc7d95c3d1ed43e0d9ca398aeb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:55 +0000
Subject: [PATCH 54/90] fix: converted video keeps the time labels and aspect
 ratios of its source

---
 mediagrains/numpy/numpy_grains/VideoGrain.py | 27 ++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/mediagrains/numpy/numpy_grains/VideoGrain.py b/mediagrains/numpy/numpy_grains/VideoGrain.py
index bf1e165..ea95a5f 100644
--- a/mediagrains/numpy/numpy_grains/VideoGrain.py
+++ b/mediagrains/numpy/numpy_grains/VideoGrain.py
@@ -379,16 +379,23 @@ class VideoGrain (bytesgrain.VideoGrain):
 
     def _similar_grain(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Returns a new empty grain that has the specified format, but other parameters identical to this grain."""
-        return VideoGrain(src_id=self.source_id,
-                          flow_id=self.flow_id_for_converted_flow(fmt),
-                          origin_timestamp=self.origin_timestamp,
-                          sync_timestamp=self.sync_timestamp,
-                          cog_frame_format=fmt,
-                          width=self.width,
-                          height=self.height,
-                          rate=self.rate,
-                          duration=self.duration,
-                          cog_frame_layout=self.cog_frame_layout)
+        grain = VideoGrain(src_id=self.source_id,
+                        flow_id=self.flow_id_for_converted_flow(fmt),
+                        origin_timestamp=self.origin_timestamp,
+                        sync_timestamp=self.sync_timestamp,
+                        cog_frame_format=fmt,
+                        width=self.width,
+                        height=self.height,
+                        rate=self.rate,
+                        duration=self.duration,
+                        cog_frame_layout=self.cog_frame_layout)
+        if self.source_aspect_ratio is not None:
+            grain.source_aspect_ratio = self.source_aspect_ratio
+        if self.pixel_aspect_ratio is not None:
+            grain.pixel_aspect_ratio = self.pixel_aspect_ratio
+        if 'timelabels' in self.meta['grain']:
+            grain.meta['grain']['timelabels'] = deepcopy(self.meta['grain']['timelabels'])
+        return grain
 
     def convert(self, fmt: CogFrameFormat) -> "VideoGrain":
         """Used to convert this grain to a different cog format. Always produces a new grain.
-- 
2.43.0


From 483c5b968500b6975fd5b0b686ab44a973200817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 55/90] fix: grains whose data does not consist of whole
 samples can be compared, to the last byte

---
 mediagrains/comparison/_internal.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index e8a7516..30ff906 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -247,11 +247,6 @@ class DataEqualityComparisonResult(ComparisonResult):
                           unsigned bytes.
         :param force_signed: If set to True the final assembled value will be forced to be signed even if it was read
                              from unsigned values"""
-        self.words_per_sample = words_per_sample
-        self.alignment = alignment
-        self.word_code = word_code
-        self.d: Optional[SequenceMatcher] = None
-
         # a and b might be various types of objects that can be converted into bytes objects, this ensures they are
         # simple bytes objects
         if a is not None:
@@ -259,6 +254,17 @@ class DataEqualityComparisonResult(ComparisonResult):
         if b is not None:
             b = bytes(b)
 
+        # Data which does not consist of whole samples is compared byte by byte
+        sample_size = words_per_sample*struct.calcsize(alignment + word_code)
+        if any(x is not None and len(x) % sample_size != 0 for x in (a, b)):
+            words_per_sample = 1
+            word_code = 'B'
+
+        self.words_per_sample = words_per_sample
+        self.alignment = alignment
+        self.word_code = word_code
+        self.d: Optional[SequenceMatcher] = None
+
         def _signer(n):
             OFL = 1 << (words_per_sample*8)
             MAX = OFL >> 1
-- 
2.43.0


From 6d345ba5c1d1fbccf637a1a22fec8e0b56d33cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 56/90] fix: comparing floating point data with itself succeeds
 also when it contains NaN

---
 mediagrains/comparison/_internal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 30ff906..082c9c0 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -254,6 +254,9 @@ class DataEqualityComparisonResult(ComparisonResult):
         if b is not None:
             b = bytes(b)
 
+        # Floating point samples may be NaN, which is not equal to itself
+        self.identical = a is not None and a == b
+
         # Data which does not consist of whole samples is compared byte by byte
         sample_size = words_per_sample*struct.calcsize(alignment + word_code)
         if any(x is not None and len(x) % sample_size != 0 for x in (a, b)):
@@ -320,6 +323,9 @@ class DataEqualityComparisonResult(ComparisonResult):
             return (False, "For speed reasons not comparing {} and {} when this would be excluded".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
+        if self.identical:
+            return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
+
         self.d = SequenceMatcher(None, a, b)
         if self.d.ratio() == 1.0:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
-- 
2.43.0


From cd06a4d122996e3af40ac8df08af50754c61b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:22 +0000
Subject: [PATCH 57/90] fix: the report of a comparison names the first
 position at which data really differs

---
 mediagrains/comparison/_internal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 082c9c0..6585099 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -330,8 +330,7 @@ class DataEqualityComparisonResult(ComparisonResult):
         if self.d.ratio() == 1.0:
             return (True, "Binary data {} are equal".format(self._identifier.format('<a/b>')), [])
         else:
-            first_op = [x for x in self.d.get_opcodes() if x[0] != 'equal'][0]
-            i = first_op[1]
+            i = next((n for (n, (x, y)) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
             if i < len(a) and i < len(b):
                 msg = ("Binary data {} has similarity {} to {}, " +
                        "first different values are {}[{}] == {} and {}[{}] == {}").format(self._identifier.format('a'),
-- 
2.43.0


From 9bb496c80b0e3a36405cec32583583381c4f6b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 58/90] fix: PSNR is refused for grains whose samples do not
 correspond or cannot be accessed

---
 mediagrains/comparison/psnr.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mediagrains/comparison/psnr.py b/mediagrains/comparison/psnr.py
index 63cffe3..1adf2d2 100644
--- a/mediagrains/comparison/psnr.py
+++ b/mediagrains/comparison/psnr.py
@@ -32,6 +32,7 @@ from mediagrains.cogenums import (
 from mediagrains.grains.Grain import Grain
 from mediagrains.numpy.numpy_grains import VideoGrain as numpy_VideoGrain
 from mediagrains.numpy.numpy_grains import AudioGrain as numpy_AudioGrain
+from mediagrains.numpy.numpy_grains.VideoGrain import _component_arrangement_from_format
 
 __all__ = ["compute_psnr"]
 
@@ -86,6 +87,9 @@ def _compute_audio_psnr(grain_a: Union[AudioGrain, numpy_AudioGrain],
     if not isinstance(grain_b, numpy_AudioGrain):
         grain_b = numpy_AudioGrain(grain=grain_b)
 
+    if len(grain_a.channel_data) != grain_a.channels or len(grain_b.channel_data) != grain_b.channels:
+        raise NotImplementedError("PSNR is not supported without access to the channels")
+
     if max_val is None:
         if COG_AUDIO_IS_FLOAT(grain_a.format) or COG_AUDIO_IS_DOUBLE(grain_a.format):
             max_val = 1.0
@@ -125,6 +129,15 @@ def _compute_video_psnr(grain_a: Union[VideoGrain, numpy_VideoGrain],
     if not isinstance(grain_b, numpy_VideoGrain):
         grain_b = numpy_VideoGrain(grain=grain_b)
 
+    if len(grain_a.component_data) == 0 or len(grain_b.component_data) == 0:
+        raise NotImplementedError("PSNR is not supported without access to the components")
+    if (_component_arrangement_from_format(grain_a.cog_frame_format) !=
+            _component_arrangement_from_format(grain_b.cog_frame_format) or
+            COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format) !=
+            COG_FRAME_FORMAT_ACTIVE_BITS(grain_b.cog_frame_format) or
+            [c.shape for c in grain_a.component_data] != [c.shape for c in grain_b.component_data]):
+        raise NotImplementedError("PSNR over components of different formats is not supported")
+
     if max_val is None:
         max_val = (1 << COG_FRAME_FORMAT_ACTIVE_BITS(grain_a.cog_frame_format)) - 1
 
-- 
2.43.0


From 6b8eeaeea9e47873c63af017dd57a8cdada2e6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 59/90] fix: expected differences are applied to integer
 attributes, as documented

---
 mediagrains/comparison/_internal.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 6585099..907b27c 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -146,6 +146,15 @@ class ComparisonResult(Generic[CR]):
         """Return any ComparisonOptions to do with what is being compared in the ComparisonResult (identifier)."""
         return [option for option in self._options if self._identifier == option.path]
 
+    def _compare_difference(self, diff, opts: list[ComparisonExpectDifferenceMatches]) -> tuple[bool, str, list[CR]]:
+        """Compare the difference between a and b with the expectations set in options"""
+        if all(opt.matcher(diff) for opt in opts):
+            return (True, "{} - {} == {!r}, meets requirements set in options".format(
+                self._identifier.format('a'), self._identifier.format('b'), diff), [])
+        else:
+            return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
+                self._identifier.format('a'), self._identifier.format('b'), diff), [])
+
     def compare(self, a, b) -> tuple[bool, str, list[CR]]:
         """Override in subclasses to return a triple:
         (equal, msg, children)
@@ -224,7 +233,10 @@ class ComparisonResult(Generic[CR]):
 
 class EqualityComparisonResult(ComparisonResult):
     def compare(self, a, b) -> tuple[bool, str, list[ComparisonResult]]:
-        if a == b:
+        opts = [option for option in self.ownoptions() if isinstance(option, ComparisonExpectDifferenceMatches)]
+        if len(opts) > 0 and isinstance(a, int) and isinstance(b, int):
+            return self._compare_difference(a - b, opts)
+        elif a == b:
             return (True, "{} == {!r}".format(self._identifier.format('<a/b>'), a), [])
         else:
             return (False, "{} == {!r}, {} == {!r} no match".format(
@@ -411,12 +423,7 @@ class DifferenceComparisonResult(ComparisonResult):
                 return (False, "{} - {} == {!r}, not the expected {!r}".format(
                     self._identifier.format('a'), self._identifier.format('b'), diff, self._expected_difference), [])
         else:
-            if all(opt.matcher(diff) for opt in opts):
-                return (True, "{} - {} == {!r}, meets requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
-            else:
-                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
-                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
+            return self._compare_difference(diff, opts)
 
 
 class TimestampDifferenceComparisonResult(DifferenceComparisonResult):
-- 
2.43.0


From a1a840bb6585fc422d123a5a0905d7271cef031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 60/90] fix: a PSNR comparison is found as the data of its
 result, like any other comparison of data

---
 mediagrains/comparison/_internal.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 907b27c..984028a 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -669,7 +669,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 words_per_sample = 1
                 force_signed = False
@@ -760,7 +761,8 @@ class GrainComparisonResult(ComparisonResult):
                 children['data'] = PSNRComparisonResult(path,
                                                         a,
                                                         b,
-                                                        options=self._options)
+                                                        options=self._options,
+                                                        attr="data")
             else:
                 if COG_FRAME_IS_COMPRESSED(a.cog_frame_format):
                     word_code = 'B'
-- 
2.43.0


From 780be2f5301ce5dac93239f00d22f756abdb70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:36 +0000
Subject: [PATCH 61/90] fix: an expected difference of creation timestamps is
 not ignored

---
 mediagrains/comparison/_internal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 984028a..821c84d 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -832,7 +832,9 @@ class GrainComparisonResult(ComparisonResult):
     def compare(self, a: Grain, b: Grain) -> tuple[bool, str, list[ComparisonResult]]:
         children: dict[str, ComparisonResult] = {}
 
-        if Include.creation_timestamp not in self._options:
+        if Include.creation_timestamp not in self._options and not any(
+                isinstance(option, ComparisonExpectDifferenceMatches) and
+                option.path == self._identifier + '.creation_timestamp' for option in self._options):
             self._options.append(Exclude.creation_timestamp)
 
         for key in ['grain_type',
-- 
2.43.0


From 68ff2b091f9f7be1e2e053f42b3f2932d0415330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 62/90] fix: a PSNR comparison of grains which PSNR refuses
 fails instead of raising

---
 mediagrains/comparison/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 821c84d..99427d2 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -459,7 +459,7 @@ class PSNRComparisonResult(ComparisonResult):
 
         try:
             psnr = compute_psnr(a, b)
-        except NotImplementedError:
+        except (NotImplementedError, AttributeError):
             return (False, "Grain is not supported for PSNR comparison of {} and {}".format(
                 self._identifier.format('a'), self._identifier.format('b')), [])
 
-- 
2.43.0


From 9f6bebbad3bd01c3688a838f4cfa6d41ab93aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 63/90] fix: pairwise comparison returning only the last result
 works for streams of any length

---
 mediagrains/comparison/_internal.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 99427d2..01d3c98 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -568,18 +568,17 @@ class GrainIteratorComparisonResult(ComparisonResult):
                 comparison_result = GrainComparisonResult(
                     "{}", A, B, options=self._options, key=self.compared_item_count)
                 self.compared_item_count += 1
-
-                if self.return_last_only:
-                    last_comparison = comparison_result
-                else:
-                    children.append(comparison_result)
+                children.append(comparison_result)
 
                 if not comparison_result:
                     all_success = False
                     break
 
-        if self.return_last_only and last_comparison is not None:
-            children.append(last_comparison)
+                if self.return_last_only:
+                    del children[:-1]
+
+        if self.return_last_only:
+            del children[:-1]
 
         if all_success:
             return (
-- 
2.43.0


From f1d575e28b8297d813dabe8e625b998d7c4c27e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 64/90] fix: the report of a pairwise comparison names the
 entry at which the streams differ

---
 mediagrains/comparison/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 01d3c98..9529f2f 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -589,7 +589,7 @@ class GrainIteratorComparisonResult(ComparisonResult):
         else:
             return (
                 False,
-                "Iterators differ first at entry {}".format(self.compared_item_count),
+                "Iterators differ first at entry {}".format(children[-1].key),
                 children
             )
 
-- 
2.43.0


From a45fecaf9e4ba6823519b6d79e70b6c1772db305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 65/90] fix: video patterns can be requested by count, and not
 at times between their grains

---
 mediagrains/patterngenerators/video/movingbaroverlay.py | 8 ++++----
 mediagrains/patterngenerators/video/still.py            | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index 1df7f13..d1acb64 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -67,9 +67,7 @@ class MovingBarOverlay (VideoPatternGenerator):
         self._bar = bar
 
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
-        tv = TimeValue(key, rate=self.rate)
-
-        grain = self._source[tv]
+        grain = self._source.get(key)
 
         if grain is not None:
             fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))
@@ -95,4 +93,6 @@ class MovingBarOverlay (VideoPatternGenerator):
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
 
-        return grain
+            return grain
+        else:
+            return default
diff --git a/mediagrains/patterngenerators/video/still.py b/mediagrains/patterngenerators/video/still.py
index fc3f7bc..9e4d589 100644
--- a/mediagrains/patterngenerators/video/still.py
+++ b/mediagrains/patterngenerators/video/still.py
@@ -40,9 +40,12 @@ class StillPatternGenerator (VideoPatternGenerator):
     def get(self, key: TimeValue, default: Optional[VideoGrain] = None) -> Optional[VideoGrain]:
         tv = TimeValue(key, rate=self.rate)
 
-        if tv == key:
+        timestamp = tv.as_timestamp()
+
+        # A count without a rate is a count at the rate of this generator
+        if (key.rate is None and isinstance(key.value, int)) or key.as_timestamp() == timestamp:
             grain = deepcopy(self._template_grain)
-            grain.origin_timestamp = key.as_timestamp()
+            grain.origin_timestamp = timestamp
             grain.sync_timestamp = grain.origin_timestamp
             return grain
         else:
-- 
2.43.0


From cbaa1e4eade5013dee6ab190ea8b038934ae7e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 66/90] fix: the default passed to get of a tone generator is
 returned

---
 mediagrains/patterngenerators/audio/tone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index f0c38fe..8d2dfcc 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -162,7 +162,7 @@ class Tone(AudioPatternGenerator):
         sample_count = tv.as_count()
 
         if sample_count % self.samples != 0:
-            return None
+            return default
 
         offs = sample_count % self.looplen
 
-- 
2.43.0


From 0c7b748216b16d61220c4df6c29b80da214ee90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 67/90] fix: the duration of generated grains is that of one
 grain at every rate

---
 mediagrains/patterngenerators/audio/tone.py       | 1 +
 mediagrains/patterngenerators/video/colourbars.py | 1 +
 mediagrains/patterngenerators/video/lumasteps.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 8d2dfcc..c9dc1e4 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -174,6 +174,7 @@ class Tone(AudioPatternGenerator):
             samples=self.samples,
             channels=self.channels,
             rate=self.rate,
+            duration=1/self.rate,
             sample_rate=self.sample_rate)
 
         ag.data = bytearray(self._get_samples(offs)[:ag.expected_length])
diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 78ec154..9bb4a16 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -48,6 +48,7 @@ class ColourBars(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 5c39ed1..342709c 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -40,6 +40,7 @@ class LumaSteps(StillPatternGenerator):
         vg = VideoGrain(src_id=src_id,
                         flow_id=flow_id,
                         rate=rate,
+                        duration=1/Fraction(rate),
                         cog_frame_format=cog_frame_format,
                         cog_frame_layout=CogFrameLayout.FULL_FRAME,
                         width=width,
-- 
2.43.0


From c9110856a2e41869c050c553292ee209f6fd2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 68/90] fix: luma steps and colour bars can be drawn at every
 width

---
 mediagrains/patterngenerators/video/colourbars.py | 2 +-
 mediagrains/patterngenerators/video/lumasteps.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/video/colourbars.py b/mediagrains/patterngenerators/video/colourbars.py
index 9bb4a16..6c40981 100644
--- a/mediagrains/patterngenerators/video/colourbars.py
+++ b/mediagrains/patterngenerators/video/colourbars.py
@@ -60,7 +60,7 @@ class ColourBars(StillPatternGenerator):
             bytearray(vg.components[2].width*_bpp)]
         for c in range(0, 3):
             for x in range(0, vg.components[c].width):
-                pos = x//(vg.components[c].width//_steps)
+                pos = x*_steps//vg.components[c].width
                 if _bpp == 1:
                     lines[c][x] = values[pos][c]
                 elif _bpp == 2:
diff --git a/mediagrains/patterngenerators/video/lumasteps.py b/mediagrains/patterngenerators/video/lumasteps.py
index 342709c..cf1c430 100644
--- a/mediagrains/patterngenerators/video/lumasteps.py
+++ b/mediagrains/patterngenerators/video/lumasteps.py
@@ -48,7 +48,7 @@ class LumaSteps(StillPatternGenerator):
 
         line = bytearray(width*_bpp)
         for x in range(0, width):
-            pos = x//(width//_steps)
+            pos = x*_steps//width
             if _bpp == 1:
                 line[x] = (_offset + ((pos * _range)//_steps)) & 0xFF
             elif _bpp == 2:
-- 
2.43.0


From 1a537005746cfd6530db1b3df01f14ec2179ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 69/90] fix: tones of an odd number of channels can be
 generated in pairs formats

---
 mediagrains/patterngenerators/audio/tone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index c9dc1e4..5e8e53b 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -140,20 +140,20 @@ class Tone(AudioPatternGenerator):
             if planes:
                 line = line * self.channels
             elif pairs:
-                line = [x for x in line for _ in range(0, 2)] * (self.channels//2)
+                line = [x for x in line for _ in range(0, 2)] * ((self.channels + 1)//2)
             elif interleaved:
                 line = [x for x in line for _ in range(0, self.channels)]
 
             if depth == 16:
-                self.data_samples[offs] = struct.pack('@' + ('h'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-                self.data_samples[offs] = struct.pack('@' + ('i'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 'f':
-                self.data_samples[offs] = struct.pack('@' + ('f'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('f'*len(line)), *line)
             elif depth == 'd':
-                self.data_samples[offs] = struct.pack('@' + ('d'*self.samples*self.channels), *line)
+                self.data_samples[offs] = struct.pack('@' + ('d'*len(line)), *line)
 
         return self.data_samples[offs]
 
-- 
2.43.0


From c93b625be4801ab79b72bc2c563b514f51478823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 70/90] fix: tones at full volume are limited to the largest
 sample value

---
 mediagrains/patterngenerators/audio/tone.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 5e8e53b..1455146 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -90,17 +90,20 @@ class Tone(AudioPatternGenerator):
             if self.cog_audio_format in [CogAudioFormat.S16_PLANES,
                                          CogAudioFormat.S16_PAIRS,
                                          CogAudioFormat.S16_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 15)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 15)), (1 << 15) - 1) for x in self._sample_values]
                 depth = 16
             elif self.cog_audio_format in [CogAudioFormat.S24_PLANES,
                                            CogAudioFormat.S24_PAIRS,
                                            CogAudioFormat.S24_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 23)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 23)), (1 << 23) - 1) for x in self._sample_values]
                 depth = 24
             elif self.cog_audio_format in [CogAudioFormat.S32_PLANES,
                                            CogAudioFormat.S32_PAIRS,
                                            CogAudioFormat.S32_INTERLEAVED]:
-                formatted_sample_data = [round(x*self.volume*(1 << 31)) for x in self._sample_values]
+                formatted_sample_data = [
+                    min(round(x*self.volume*(1 << 31)), (1 << 31) - 1) for x in self._sample_values]
                 depth = 32
             elif self.cog_audio_format in [CogAudioFormat.FLOAT_PLANES,
                                            CogAudioFormat.FLOAT_PAIRS,
-- 
2.43.0


From 69145e8e0a1610303e303887fbdd54a102e2aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 71/90] fix: tones in S24_PLANES have 32-bit samples, as the
 format says

---
 mediagrains/patterngenerators/audio/tone.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mediagrains/patterngenerators/audio/tone.py b/mediagrains/patterngenerators/audio/tone.py
index 1455146..3d5222f 100644
--- a/mediagrains/patterngenerators/audio/tone.py
+++ b/mediagrains/patterngenerators/audio/tone.py
@@ -149,6 +149,9 @@ class Tone(AudioPatternGenerator):
 
             if depth == 16:
                 self.data_samples[offs] = struct.pack('@' + ('h'*len(line)), *line)
+            elif depth == 24 and planes:
+                # Planar 24-bit samples are held in the lower part of 32-bit
+                self.data_samples[offs] = struct.pack('@' + ('i'*len(line)), *line)
             elif depth == 24:
                 self.data_samples[offs] = b''.join(struct.pack('@i', x)[:3] for x in line)
             elif depth == 32:
-- 
2.43.0


From 60e38e378fad26dbdfad0a0ba1d0a4633c5c981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 72/90] fix: a bar can be overlaid on stills of read-only or
 numpy data

---
 .../patterngenerators/video/movingbaroverlay.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mediagrains/patterngenerators/video/movingbaroverlay.py b/mediagrains/patterngenerators/video/movingbaroverlay.py
index d1acb64..ef81396 100644
--- a/mediagrains/patterngenerators/video/movingbaroverlay.py
+++ b/mediagrains/patterngenerators/video/movingbaroverlay.py
@@ -74,21 +74,25 @@ class MovingBarOverlay (VideoPatternGenerator):
             _bpp = pixel_ranges[self.cog_frame_format][0]
             v_shift = COG_FRAME_FORMAT_V_SHIFT(self.cog_frame_format)
 
+            if isinstance(grain.data, bytes):
+                grain.data = bytearray(grain.data)
+            data = memoryview(cast(bytearray, grain.data)).cast("B")
+
             for y in range(0, self._bar_height):
                 line_no = ((fnum + y) % grain.components[0].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[0].offset + line_no*grain.components[0].stride:
                     grain.components[0].offset+line_no*grain.components[0].stride+grain.components[0].width*_bpp] = (
                         self._bar[0][y*grain.components[0].width * _bpp: (y+1)*grain.components[0].width * _bpp])
             for y in range(0, self._bar_height >> v_shift):
                 line_no = (((fnum >> v_shift) + y) % grain.components[1].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[1].offset + line_no*grain.components[1].stride:
                     grain.components[1].offset+line_no*grain.components[1].stride+grain.components[1].width*_bpp] = (
                         self._bar[1][y*grain.components[1].width * _bpp: (y+1)*grain.components[1].width * _bpp])
 
                 line_no = (((fnum >> v_shift) + y) % grain.components[2].height)
-                cast(bytearray, grain.data)[
+                data[
                     grain.components[2].offset + line_no*grain.components[2].stride:
                     grain.components[2].offset+line_no*grain.components[2].stride+grain.components[2].width*_bpp] = (
                         self._bar[2][y*grain.components[2].width * _bpp: (y+1)*grain.components[2].width * _bpp])
-- 
2.43.0


From 35df27cd330287b1b720a677405cc8616a1b7559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 73/90] fix: pattern generators accept objects that have a time
 range

---
 mediagrains/patterngenerators/abc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mediagrains/patterngenerators/abc.py b/mediagrains/patterngenerators/abc.py
index bbe260d..c75a8da 100644
--- a/mediagrains/patterngenerators/abc.py
+++ b/mediagrains/patterngenerators/abc.py
@@ -30,7 +30,8 @@ from mediatimestamp import (
     SupportsMediaTimestamp,
     TimeRange,
     CountRange,
-    SupportsMediaTimeRange)
+    SupportsMediaTimeRange,
+    mediatimerange)
 
 from mediagrains.grains.Grain import Grain
 
@@ -87,7 +88,7 @@ class PatternGenerator (Generic[G], metaclass=ABCMeta):
         elif isinstance(key, (Timestamp, TimeOffset, int, SupportsMediaTimeOffset, SupportsMediaTimestamp)):
             val = TimeValue(key)
         elif isinstance(key, SupportsMediaTimeRange):
-            rng = TimeValueRange(key)
+            rng = TimeValueRange(mediatimerange(key))
         else:
             raise ValueError(f"Invalid key: {key!r}")
 
-- 
2.43.0


From 281af0e728bd03a48f28fc690877683e58ea83af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 74/90] fix: the format given to a strategy for grains is the
 format of the grains drawn

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 55f7648..31e6f01 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -252,7 +252,7 @@ def audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate)
@@ -317,7 +317,7 @@ def coded_audio_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_audio_format=format,
                            samples=samples,
                            channels=channels,
                            sample_rate=sample_rate,
@@ -377,7 +377,7 @@ def video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            width=width,
                            height=height,
                            cog_frame_layout=cog_frame_layout)
@@ -449,7 +449,7 @@ def coded_video_grains(src_id=None,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
                            duration=duration,
-                           format=format,
+                           cog_frame_format=format,
                            origin_width=origin_width,
                            origin_height=origin_height,
                            coded_width=coded_width,
-- 
2.43.0


From cd9558c9720958b8c2fd1b146dc195aec361dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 75/90] fix: strategies for coded grains don't produce grains
 of unknown format by default

---
 mediagrains/hypothesis/strategies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index 31e6f01..f47362a 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -93,11 +93,11 @@ def strategy_for_grain_attribute(attr, grain_type=None):
             # Uncompressed audio formats
             return sampled_from(CogAudioFormat).filter(lambda x: x < 0x200)
         elif grain_type == "coded_audio":
-            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x != CogAudioFormat.INVALID)
+            return sampled_from(CogAudioFormat).filter(lambda x: (x & 0x200) != 0 and x < 0x400)
         elif grain_type == "video":
             return sampled_from(CogFrameFormat).filter(lambda x: ((x >> 9) & 0x1) == 0)
         elif grain_type == "coded_video":
-            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x != CogFrameFormat.INVALID)
+            return sampled_from(CogFrameFormat).filter(lambda x: (x & 0x200) != 0 and x < 0x400)
         else:
             return ValueError("Cannot generate formats for grain type: {!r}".format(grain_type))
 
-- 
2.43.0


From 9d416927a4b8a81ee104435e537888dd87ba6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 76/90] fix: unit offsets are drawn in increasing order

---
 mediagrains/hypothesis/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index f47362a..fa50fc6 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -131,7 +131,7 @@ def strategy_for_grain_attribute(attr, grain_type=None):
               'is_key_frame': booleans(),
               'temporal_offset': integers(min_value=0, max_value=16),
               'unit_offsets': just(None) | lists(
-                integers(min_value=0, max_value=256), min_size=0, max_size=16).filter(sorted)}
+                integers(min_value=0, max_value=256), min_size=0, max_size=16, unique=True).map(sorted)}
     if attr not in strats:
         raise ValueError("No strategy known for grain attribute: {!r}".format(attr))
     if isinstance(strats[attr], Exception):
-- 
2.43.0


From 90856b2bd90195d61fb665ea67a43ea4520b1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 77/90] fix: timestamps of event grains drawn from a strategy
 can be left unset

---
 mediagrains/hypothesis/strategies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index fa50fc6..adb89ab 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -589,14 +589,14 @@ def event_grains(src_id=None,
     def event_grain(
      src_id,
      flow_id,
-     origin_timestamp,
-     sync_timestamp,
      rate,
      duration,
-     creation_timestamp,
      event_type,
      topic,
-     event_data):
+     event_data,
+     creation_timestamp=None,
+     origin_timestamp=None,
+     sync_timestamp=None):
         grain = EventGrain(
             src_id=src_id,
             flow_id=flow_id,
-- 
2.43.0


From 825504f07434b900ad5c84ff3c2ef4a7403b2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 78/90] fix: the creation timestamp given to the strategy for
 coded audio grains is used

---
 mediagrains/hypothesis/strategies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediagrains/hypothesis/strategies.py b/mediagrains/hypothesis/strategies.py
index adb89ab..994e86b 100644
--- a/mediagrains/hypothesis/strategies.py
+++ b/mediagrains/hypothesis/strategies.py
@@ -313,6 +313,7 @@ def coded_audio_grains(src_id=None,
     return _grain_strategy(CodedAudioGrain, "coded_audio",
                            src_id=src_id,
                            flow_id=flow_id,
+                           creation_timestamp=creation_timestamp,
                            origin_timestamp=origin_timestamp,
                            sync_timestamp=sync_timestamp,
                            rate=rate,
-- 
2.43.0


From 728f646b0825287d2e6c3a7821eb408ad77bd116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 79/90] fix: a grain made without identifiers could not be read
 or converted

---
 mediagrains/grains/AudioGrain.py      | 4 ++--
 mediagrains/grains/CodedAudioGrain.py | 4 ++--
 mediagrains/grains/CodedVideoGrain.py | 4 ++--
 mediagrains/grains/EventGrain.py      | 4 ++--
 mediagrains/grains/VideoGrain.py      | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mediagrains/grains/AudioGrain.py b/mediagrains/grains/AudioGrain.py
index 9befa33..522bed6 100644
--- a/mediagrains/grains/AudioGrain.py
+++ b/mediagrains/grains/AudioGrain.py
@@ -130,8 +130,8 @@ sample_rate
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedAudioGrain.py b/mediagrains/grains/CodedAudioGrain.py
index b0f635d..d6be806 100644
--- a/mediagrains/grains/CodedAudioGrain.py
+++ b/mediagrains/grains/CodedAudioGrain.py
@@ -130,8 +130,8 @@ remainder
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "coded_audio",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/CodedVideoGrain.py b/mediagrains/grains/CodedVideoGrain.py
index 3718df8..b16264c 100644
--- a/mediagrains/grains/CodedVideoGrain.py
+++ b/mediagrains/grains/CodedVideoGrain.py
@@ -151,8 +151,8 @@ unit_offsets
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "coded_video",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(creation_timestamp)),
diff --git a/mediagrains/grains/EventGrain.py b/mediagrains/grains/EventGrain.py
index bf6c6d4..af2e28f 100644
--- a/mediagrains/grains/EventGrain.py
+++ b/mediagrains/grains/EventGrain.py
@@ -132,8 +132,8 @@ append(path, pre=None, post=None)
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     "grain_type": "event",
-                    "source_id": str(src_id),
-                    "flow_id": str(flow_id),
+                    "source_id": str(src_id if src_id is not None else UUID(int=0)),
+                    "flow_id": str(flow_id if flow_id is not None else UUID(int=0)),
                     "origin_timestamp": str(mediatimestamp(origin_timestamp)),
                     "sync_timestamp": str(mediatimestamp(sync_timestamp)),
                     "creation_timestamp": str(mediatimestamp(cts)),
diff --git a/mediagrains/grains/VideoGrain.py b/mediagrains/grains/VideoGrain.py
index 331cfc0..af1f359 100644
--- a/mediagrains/grains/VideoGrain.py
+++ b/mediagrains/grains/VideoGrain.py
@@ -280,8 +280,8 @@ length
                 "@_ns": "urn:x-ipstudio:ns:0.1",
                 "grain": {
                     'grain_type': "video",
-                    'source_id': str(src_id),
-                    'flow_id': str(flow_id),
+                    'source_id': str(src_id if src_id is not None else UUID(int=0)),
+                    'flow_id': str(flow_id if flow_id is not None else UUID(int=0)),
                     'origin_timestamp': str(mediatimestamp(origin_timestamp)),
                     'sync_timestamp': str(mediatimestamp(sync_timestamp)),
                     'creation_timestamp': str(mediatimestamp(creation_timestamp)),
-- 
2.43.0


From a99464de546ff3eaa18699d0b6707fa672787e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:40 +0000
Subject: [PATCH 80/90] fix: cancelling a task that waits for GSF data left the
 file in use at the wrong position

---
 mediagrains/gsf.py | 63 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index af8bf20..83bbc6a 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -50,6 +50,9 @@ from typing import (
     AsyncIterable,
     AsyncGenerator,
     Awaitable,
+    Callable,
+    Set,
+    TypeVar,
     overload,
     NamedTuple)
 from typing_extensions import TypedDict
@@ -71,6 +74,8 @@ __all__ = ["GSFDecoder", "load", "loads", "GSFError", "GSFDecodeError",
            "GSFEncoder", "dump", "dumps", "GSFEncodeError",
            "GSFEncodeAddToActiveDump"]
 
+T = TypeVar("T")
+
 
 @contextmanager
 def no_deprecation_warnings():
@@ -1131,20 +1136,22 @@ class _DeferredGrainData():
         if self._parent._exiting and not self._load_on_exit:
             return None
 
-        file_data = self._parent.file_data
-        async with self._parent._file_lock:
-            oldpos = file_data.tell()
-            try:
-                file_data.seek(self._pos)
-                data = await file_data.read(self._length)
-            except EOFError:
-                data = b""
-            finally:
-                file_data.seek(oldpos)
+        data = await self._parent._use_file(self._read_file)
 
         self._parent._remove_lazy_grain(self._key)
         return _all_grain_data(data, self._pos, self._length)
 
+    async def _read_file(self) -> bytes:
+        file_data = self._parent.file_data
+        oldpos = file_data.tell()
+        try:
+            file_data.seek(self._pos)
+            return await file_data.read(self._length)
+        except EOFError:
+            return b""
+        finally:
+            file_data.seek(oldpos)
+
 
 class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     def __init__(self,
@@ -1164,6 +1171,7 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         # Held whenever the file is positioned for one particular read, i.e. for the whole of each decoding step and of
         # each deferred read of grain data
         self._file_lock = asyncio.Lock()
+        self._file_users: Set[asyncio.Future] = set()
         self._unloaded_lazy_grains: Dict[int, Grain] = {}
         self._next_lazy_grain_number = 0
 
@@ -1218,10 +1226,30 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
     def _remove_lazy_grain(self, key: int):
         self._unloaded_lazy_grains.pop(key, None)
 
+    async def _use_file(self, operation: Callable[[], Awaitable[T]]) -> T:
+        """Carry out an operation that positions the file while nothing else uses the file
+
+        A file on which data can be deferred may be read in another thread, which cannot be cancelled. So where the
+        calling task is cancelled the operation still runs to its end before anything else may use the file.
+        """
+        async def __locked() -> T:
+            async with self._file_lock:
+                return await operation()
+
+        if not self.file_data.seekable_backwards():
+            return await __locked()
+
+        user = asyncio.ensure_future(__locked())
+        self._file_users.add(user)
+        user.add_done_callback(self._file_users.discard)
+        return await asyncio.shield(user)
+
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
             await grain
+        while self._file_users:
+            await asyncio.wait(self._file_users)
 
     async def _load_unused_lazy_loaders(self):
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
@@ -1246,12 +1274,17 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
         :raises GSFDecodeError: If grain is invalid (e.g. no "gbhd" child)
         """
         grains = self._decode_grains(local_ids=local_ids, loading_mode=loading_mode)
+
+        async def __next() -> Optional[Tuple[Grain, int]]:
+            try:
+                return await grains.__anext__()
+            except StopAsyncIteration:
+                return None
+
         while True:
-            async with self._file_lock:
-                try:
-                    item = await grains.__anext__()
-                except StopAsyncIteration:
-                    return
+            item = await self._use_file(__next)
+            if item is None:
+                return
             yield item
 
     async def _decode_grains(self,
-- 
2.43.0


From 2eb9b6af2504f4bbb2c7295a7278ac82215258fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 81/90] fix: GSF files written to unbuffered files that take
 less than they are given were incomplete

---
 mediagrains/gsf.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 83bbc6a..2e076a3 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1926,7 +1926,15 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
 
     def _add_grains_to_active_dump(self, segment: "GSFEncoderSegment", grains: Iterable[Grain]) -> None:
         for grain in grains:
-            self.file.write(segment.encode_grain(grain))
+            self._write(segment.encode_grain(grain))
+
+    def _write(self, data: bytes) -> None:
+        """Write all of the data, however little of it the file takes at once"""
+        while True:
+            written = self.file.write(data)
+            if written is None or written >= len(data):
+                return
+            data = data[written:]
 
     def _truncate(self):
         if self.file.seekable():
@@ -1944,21 +1952,21 @@ class OpenGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self.file.seekable():
             self._set_segment_offsets(segment_offsets, self.file.tell() + len(file_header))
 
-        self.file.write(file_header +
-                        head_block +
-                        self._encode_all_grains())
+        self._write(file_header +
+                    head_block +
+                    self._encode_all_grains())
 
     def _end_dump(self):
         for seg in self._segments.values():
             if self.file.seekable() and seg._count_pos != -1:
                 curpos = self.file.tell()
                 self.file.seek(seg._count_pos)
-                self.file.write(_encode_sint(seg.get_write_count(), 8))
+                self._write(_encode_sint(seg.get_write_count(), 8))
                 self.file.seek(curpos)
 
         if self._active_dump:
-            self.file.write(b"grai" +
-                            _encode_uint(0, 4))
+            self._write(b"grai" +
+                        _encode_uint(0, 4))
             self._active_dump = False
 
         self._end_segment_dumps()
@@ -2019,7 +2027,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 await self._write_pending_grains()
                 for grain in grains:
                     await grain
-                    await self._open_file.write(segment.encode_grain(grain))
+                    await self._write(segment.encode_grain(grain))
         else:
             for grain in grains:
                 await grain
@@ -2032,7 +2040,15 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         while len(self._pending_grains) > 0:
             (segment, grain) = self._pending_grains.pop(0)
             await grain
-            await self._open_file.write(segment.encode_grain(grain))
+            await self._write(segment.encode_grain(grain))
+
+    async def _write(self, data: bytes) -> None:
+        """Write all of the data, however little of it the file takes at once"""
+        while True:
+            written = await self._open_file.write(data)
+            if written is None or written >= len(data):
+                return
+            data = data[written:]
 
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
@@ -2057,9 +2073,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         if not all_at_once and self._open_file.seekable():
             self._set_segment_offsets(segment_offsets, self._open_file.tell() + len(file_header))
 
-        await self._open_file.write(file_header +
-                                    head_block +
-                                    self._encode_all_grains())
+        await self._write(file_header +
+                          head_block +
+                          self._encode_all_grains())
 
     async def _end_dump(self):
         if self._active_dump:
@@ -2070,13 +2086,13 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 curpos = self._open_file.tell()
                 self._open_file.seek(seg._count_pos)
 
-                await self._open_file.write(_encode_sint(seg.get_write_count(), 8))
+                await self._write(_encode_sint(seg.get_write_count(), 8))
 
                 self._open_file.seek(curpos)
 
         if self._active_dump:
-            await self._open_file.write(b"grai" +
-                                        _encode_uint(0, 4))
+            await self._write(b"grai" +
+                              _encode_uint(0, 4))
 
             self._active_dump = False
 
-- 
2.43.0


From 69102e3de41a0591e6bf62a55d964298d91f0f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 82/90] fix: cancelling a task that adds grains to a GSF file
 could lose other grains or corrupt the file

---
 mediagrains/gsf.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 2e076a3..99c4fc5 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1990,6 +1990,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         self._pending_grains: List[Tuple["GSFEncoderSegment", Grain]] = []
         # Keeps the grains of concurrent callers apart and in order
         self._write_lock = asyncio.Lock()
+        # Where the task that waits for a write is cancelled the write may still go on, in another thread for example
+        self._write_in_progress: Optional[asyncio.Future] = None
 
         if isinstance(file, AsyncBinaryIO):
             self.file = file
@@ -2027,6 +2029,7 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 await self._write_pending_grains()
                 for grain in grains:
                     await grain
+                    await self._end_write()
                     await self._write(segment.encode_grain(grain))
         else:
             for grain in grains:
@@ -2039,10 +2042,30 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
     async def _write_pending_grains(self) -> None:
         while len(self._pending_grains) > 0:
             (segment, grain) = self._pending_grains.pop(0)
-            await grain
+            try:
+                await grain
+                await self._end_write()
+            except asyncio.CancelledError:
+                self._pending_grains.insert(0, (segment, grain))
+                raise
             await self._write(segment.encode_grain(grain))
 
     async def _write(self, data: bytes) -> None:
+        await self._end_write()
+        self._write_in_progress = asyncio.ensure_future(self._write_all(data))
+        await self._end_write()
+
+    async def _end_write(self) -> None:
+        """Wait for the end of the last write. Nothing else may be done with the file before that"""
+        write = self._write_in_progress
+        if write is not None:
+            try:
+                await asyncio.shield(write)
+            finally:
+                if write.done():
+                    self._write_in_progress = None
+
+    async def _write_all(self, data: bytes) -> None:
         """Write all of the data, however little of it the file takes at once"""
         while True:
             written = await self._open_file.write(data)
@@ -2079,7 +2102,9 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
     async def _end_dump(self):
         if self._active_dump:
-            await self._write_pending_grains()
+            async with self._write_lock:
+                await self._write_pending_grains()
+        await self._end_write()
 
         for seg in self._segments.values():
             if self._open_file.seekable() and seg._count_pos != -1:
-- 
2.43.0


From 6be9fc07d5f09bdcf408233093e470925177a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 83/90] fix: leaving the context of a GSF encoder while tasks
 add grains corrupted the file

---
 mediagrains/gsf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 99c4fc5..9914310 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2026,6 +2026,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
         if self._open_file is not None and self._active_dump:
             async with self._write_lock:
+                if not self._active_dump:
+                    raise GSFEncodeError("Cannot add a grain to a dump that has ended")
                 await self._write_pending_grains()
                 for grain in grains:
                     await grain
@@ -2101,9 +2103,12 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                           self._encode_all_grains())
 
     async def _end_dump(self):
+        async with self._write_lock:
+            await self._end_dump_locked()
+
+    async def _end_dump_locked(self):
         if self._active_dump:
-            async with self._write_lock:
-                await self._write_pending_grains()
+            await self._write_pending_grains()
         await self._end_write()
 
         for seg in self._segments.values():
-- 
2.43.0


From 9e652083eba16fa29ca60ab9491c4f97111ae487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 84/90] fix: the report on differing data shows the values of
 the second grain at its own positions

---
 mediagrains/comparison/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediagrains/comparison/_internal.py b/mediagrains/comparison/_internal.py
index 9529f2f..62c9452 100644
--- a/mediagrains/comparison/_internal.py
+++ b/mediagrains/comparison/_internal.py
@@ -392,7 +392,7 @@ class DataEqualityComparisonResult(ComparisonResult):
             prefix += "  "
             opstrings = [prefix + "{:7}   a[{}:{}] --> b[{}:{}] {:>8} --> {}".format(
                             tag, i1, i2, j1, j2, '(' + ', '.join(str(x) for x in self.a[i1:i2]) + ')',  # type: ignore
-                            '(' + ', '.join(str(x) for x in self.b[i1:i2]) + ')')  # type: ignore
+                            '(' + ', '.join(str(x) for x in self.b[j1:j2]) + ')')  # type: ignore
                          for (tag, i1, i2, j1, j2) in self.d.get_opcodes()[:5]]
             r += '\n' + opstrings[0]
             if len(opstrings) > 1:
-- 
2.43.0


From ec0f4a953e6810265e2c7dfc9bd53db01eb5dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:38 +0000
Subject: [PATCH 85/90] fix: expected differences of an attribute can be
 combined with & and |

---
 mediagrains/comparison/options.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/mediagrains/comparison/options.py b/mediagrains/comparison/options.py
index c55637a..96fa228 100644
--- a/mediagrains/comparison/options.py
+++ b/mediagrains/comparison/options.py
@@ -84,30 +84,6 @@ class _ExpectedDifference(object):
         return ComparisonExpectDifferenceMatches(
             self.path, lambda x: x >= other, "{} >= {!r}".format('ExpectedDifference', other))
 
-    def __and__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} & {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with & they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
-
-    def __or__(self, other):
-        if not isinstance(other, ComparisonExpectDifferenceMatches):
-            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
-        elif other.path != self.path:
-            raise ValueError(("{!r} | {!r} is not a valid operation: " +
-                              "When combining ExpectedDifference operations with | they must refer to the same " +
-                              "attribute"
-                              ).format(self, other))
-        else:
-            return ComparisonExpectDifferenceMatches(
-                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
-
     def __getattr__(self, attr):
         if attr.startswith('__') and attr.endswith('__'):
             raise AttributeError
@@ -196,6 +172,30 @@ class ComparisonExpectDifferenceMatches(ComparisonOption):
     def __repr__(self):
         return self._repr
 
+    def __and__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} & {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} & {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with & they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) and other.matcher(x), "{!r} & {!r}".format(self, other))
+
+    def __or__(self, other):
+        if not isinstance(other, ComparisonExpectDifferenceMatches):
+            raise ValueError("{!r} | {!r} is not a valid operation".format(self, other))
+        elif other.path != self.path:
+            raise ValueError(("{!r} | {!r} is not a valid operation: " +
+                              "When combining ExpectedDifference operations with | they must refer to the same " +
+                              "attribute"
+                              ).format(self, other))
+        else:
+            return ComparisonExpectDifferenceMatches(
+                self.path, lambda x: self.matcher(x) or other.matcher(x), "{!r} | {!r}".format(self, other))
+
 
 class ComparisonPSNR(ComparisonOption):
     def __init__(self, path, matcher, _repr):
-- 
2.43.0


From c9a0c2ba70ca8ece97578ac379e32695a6c6a5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 86/90] fix: gsf_probe describes the segments of every file in
 a concatenation

---
 mediagrains/tools/extract_from_gsf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mediagrains/tools/extract_from_gsf.py b/mediagrains/tools/extract_from_gsf.py
index ba45726..2f72be8 100644
--- a/mediagrains/tools/extract_from_gsf.py
+++ b/mediagrains/tools/extract_from_gsf.py
@@ -63,14 +63,18 @@ def gsf_probe():
 
     args = parser.parse_args()
 
-    with file_or_pipe(args.input_file, "rb") as input_data:
-        decoder = GSFDecoder(file_data=input_data)
-        file_data = decoder.decode_file_headers()
+    with file_or_pipe(args.input_file, "rb") as input_data, GSFDecoder(file_data=input_data) as decoder:
+        file_data = dict(decoder.file_headers)
 
         file_data["segments"] = {segment["local_id"]: segment for segment in file_data["segments"]}
         file_data["created"] = str(file_data["created"])  # Work around mediajson's inability to serialize datetimes
 
-        for grain, local_id in decoder.grains(load_lazily=True):
+        for grain, local_id in decoder.grains():
+            if local_id not in file_data["segments"]:
+                # Described in the header of a file that is concatenated to the first, or nowhere
+                file_data["segments"][local_id] = next(
+                    (segment for segment in decoder.file_headers["segments"] if segment["local_id"] == local_id),
+                    {"local_id": local_id})
             this_segment = file_data["segments"][local_id]
 
             if args.all_grains:
-- 
2.43.0


From 804e8582d5f495885899892aa2a1911a80bc0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 87/90] fix: values that do not fit their fields in a GSF file
 are refused instead of being cut

---
 mediagrains/gsf.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 9914310..76446c8 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -1690,6 +1690,12 @@ class GSFEncodeAddToActiveDump(GSFEncodeError):
 
 
 def _encode_uint(val: int, size: int) -> bytes:
+    """Encode as an unsigned integer of size bytes
+
+    :raises GSFEncodeError: If it doesn't fit
+    """
+    if not 0 <= val < (1 << (8*size)):
+        raise GSFEncodeError("{} does not fit in an unsigned integer of {} bytes".format(val, size))
     d = bytearray(size)
     for i in range(0, size):
         d[i] = (val & 0xFF)
@@ -1703,6 +1709,12 @@ def _encode_utf8(val: str, max_size: int) -> bytes:
 
 
 def _encode_sint(val: int, size: int) -> bytes:
+    """Encode as a 2's complement signed integer of size bytes
+
+    :raises GSFEncodeError: If it doesn't fit
+    """
+    if not -(1 << (8*size - 1)) <= val < (1 << (8*size - 1)):
+        raise GSFEncodeError("{} does not fit in a signed integer of {} bytes".format(val, size))
     if val < 0:
         val = val + (1 << (8*size))
     return _encode_uint(val, size)
@@ -1717,6 +1729,8 @@ def _encode_uuid(val: UUID) -> bytes:
 
 
 def _encode_ts_v7(ts: Timestamp) -> bytes:
+    if ts.sign < 0:
+        raise GSFEncodeError("Version 7 files cannot contain the negative timestamp {}".format(ts))
     return (_encode_uint(ts.sec, 6) +
             _encode_uint(ts.ns, 4))
 
-- 
2.43.0


From a8212453fb587db4f83a24d3664ba76235c991eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:49 +0000
Subject: [PATCH 88/90] fix: a failure to seek past a block while decoding was
 swallowed and decoding carried on at the wrong position

---
 mediagrains/gsf.py | 54 +++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 76446c8..3d34064 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -24,7 +24,7 @@ for documentation of the GSF format.
 from .grains import Grain, GrainFactory
 from uuid import UUID, uuid1
 from datetime import datetime, timezone
-from io import BytesIO, RawIOBase, BufferedIOBase
+from io import BytesIO, RawIOBase, BufferedIOBase, UnsupportedOperation
 from mediatimestamp.immutable import Timestamp
 from fractions import Fraction
 from frozendict import frozendict
@@ -325,16 +325,26 @@ class AsyncGSFBlock():
 
     async def __aexit__(self, *args):
         """When used as a context manager, exiting context should seek to the block end"""
+        failing = any(args)
+        if self.size is not None:
+            # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
+            # If the size is special value then the actual size is 8
+            actual_size = max(8, self.size)
+        else:
+            actual_size = 0
+        block_end = self.block_start + actual_size
+
+        # Only where another error is on its way already is a failure to seek left unreported: decoding must not carry on
+        # from the wrong position
         try:
-            if self.size is not None:
-                # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
-                # If the size is special value then the actual size is 8
-                actual_size = max(8, self.size)
-            else:
-                actual_size = 0
-            self.file_data.seek(self.block_start + actual_size, SEEK_SET)
+            self.file_data.seek(block_end, SEEK_SET)
+        except (NotImplementedError, UnsupportedOperation) as e:
+            if not failing and self.file_data.tell() != block_end:
+                raise GSFDecodeError("Cannot seek to the end of block '{}' at {}".format(self.tag, self.block_start),
+                                     self.block_start) from e
         except Exception:
-            pass
+            if not failing:
+                raise
 
     def _check_fits_in_parent(self, size: int) -> None:
         """Check that a block of the given size at block_start ends within the parent block, if there is one
@@ -554,16 +564,26 @@ class SyncGSFBlock():
 
     def __exit__(self, *args):
         """When used as a context manager, exiting context should seek to the block end"""
+        failing = any(args)
+        if self.size is not None:
+            # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
+            # If the size is special value then the actual size is 8
+            actual_size = max(8, self.size)
+        else:
+            actual_size = 0
+        block_end = self.block_start + actual_size - self.file_data_start
+
+        # Only where another error is on its way already is a failure to seek left unreported: decoding must not carry on
+        # from the wrong position
         try:
-            if self.size is not None:
-                # If size is < 8 bytes then it is a special value, e.g. a terminator grai.
-                # If the size is special value then the actual size is 8
-                actual_size = max(8, self.size)
-            else:
-                actual_size = 0
-            self.file_data.seek(self.block_start + actual_size - self.file_data_start, SEEK_SET)
+            self.file_data.seek(block_end, SEEK_SET)
+        except (NotImplementedError, UnsupportedOperation) as e:
+            if not failing and self.file_data.tell() != block_end:
+                raise GSFDecodeError("Cannot seek to the end of block '{}' at {}".format(self.tag, self.block_start),
+                                     self.block_start) from e
         except Exception:
-            pass
+            if not failing:
+                raise
 
     def _check_fits_in_parent(self, size: int) -> None:
         """Check that a block of the given size at block_start ends within the parent block, if there is one
-- 
2.43.0


From 7583ceeed0628348427956175bd8094d4f1a599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 89/90] fix: an asynchronous decoder left the file it had
 opened open when entering or leaving its context failed

---
 mediagrains/gsf.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index 3d34064..ca6a136 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -31,6 +31,7 @@ from frozendict import frozendict
 from .utils import IOBytes
 from os import SEEK_SET, SEEK_CUR
 import asyncio
+import sys
 import warnings
 
 from inspect import isawaitable
@@ -1266,10 +1267,12 @@ class GSFAsyncDecoderSession(BaseGSFDecoderSession):
 
     async def _kill_unused_lazy_loaders(self):
         self._exiting = True
-        for (key, grain) in list(self._unloaded_lazy_grains.items()):
-            await grain
-        while self._file_users:
-            await asyncio.wait(self._file_users)
+        try:
+            for (key, grain) in list(self._unloaded_lazy_grains.items()):
+                await grain
+        finally:
+            while self._file_users:
+                await asyncio.wait(self._file_users)
 
     async def _load_unused_lazy_loaders(self):
         for (key, grain) in list(self._unloaded_lazy_grains.items()):
@@ -1604,21 +1607,28 @@ class GSFDecoder(object):
                 raise TypeError(
                     "file_data must be an asynchronous binary file to use this class as an async context manager")
 
-        self._open_asession = GSFAsyncDecoderSession(file_data=self._open_afile,
-                                                     parse_grain=self.Grain,
-                                                     sync_compatibility_mode=self._sync_compatibility_mode,
-                                                     support_concatenation=self._support_concatenation)
-        await self._open_asession._decode_file_headers()
+        try:
+            self._open_asession = GSFAsyncDecoderSession(file_data=self._open_afile,
+                                                         parse_grain=self.Grain,
+                                                         sync_compatibility_mode=self._sync_compatibility_mode,
+                                                         support_concatenation=self._support_concatenation)
+            await self._open_asession._decode_file_headers()
+        except BaseException:
+            # The context has not been entered, so nothing else will close the file
+            await self.__aexit__(*sys.exc_info())
+            raise
         return self._open_asession
 
     async def __aexit__(self, *args, **kwargs):
-        if self._open_asession is not None:
-            await self._open_asession._kill_unused_lazy_loaders()
+        try:
+            if self._open_asession is not None:
+                await self._open_asession._kill_unused_lazy_loaders()
+        finally:
             self._open_asession = None
 
-        if self._open_afile is not None and self._afile_data is not None:
-            await self._afile_data.__aexit__(*args, **kwargs)
-            self._open_afile = None
+            if self._open_afile is not None and self._afile_data is not None:
+                self._open_afile = None
+                await self._afile_data.__aexit__(*args, **kwargs)
 
     @deprecated(version="2.7.0", reason="This method is old, use the class as a context manager instead")
     def decode_file_headers(self) -> GSFFileHeaderDict:
-- 
2.43.0


From 72dacdc81054b40272707f85ecb0bff7a1f02d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:05 +0000
Subject: [PATCH 90/90] fix: an asynchronous encoder never closed the file it
 had opened

---
 mediagrains/gsf.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/mediagrains/gsf.py b/mediagrains/gsf.py
index ca6a136..1af95fc 100644
--- a/mediagrains/gsf.py
+++ b/mediagrains/gsf.py
@@ -2036,6 +2036,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
         self._write_lock = asyncio.Lock()
         # Where the task that waits for a write is cancelled the write may still go on, in another thread for example
         self._write_in_progress: Optional[asyncio.Future] = None
+        # Grains still being added when the context is left early must not be written to a file that is closed by then
+        self._closed = False
 
         if isinstance(file, AsyncBinaryIO):
             self.file = file
@@ -2098,6 +2100,8 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
 
     async def _write(self, data: bytes) -> None:
         await self._end_write()
+        if self._closed:
+            raise GSFEncodeError("Cannot add a grain to a dump that has ended")
         self._write_in_progress = asyncio.ensure_future(self._write_all(data))
         await self._end_write()
 
@@ -2119,6 +2123,15 @@ class OpenAsyncGSFEncoder(OpenGSFEncoderBase):
                 return
             data = data[written:]
 
+    async def _close_file(self, *args) -> None:
+        """Close the file if it has been opened here. One that was passed in already open is left so."""
+        self._closed = True
+        if self._write_in_progress is not None:
+            await asyncio.wait((self._write_in_progress,))
+
+        if self.file is not None and self._open_file is not None:
+            await self.file.__aexit__(*args)
+
     async def _truncate(self) -> None:
         if self._open_file is not None and self._open_file.seekable():
             self._open_file.seek(0)
@@ -2294,14 +2307,22 @@ class GSFEncoder(object):
                                                        self.streaming,
                                                        self._next_local)
         if self.streaming:
-            await self._open_async_encoder._start_dump(all_at_once=False)
+            try:
+                await self._open_async_encoder._start_dump(all_at_once=False)
+            except BaseException:
+                # The context has not been entered, so nothing else will close the file
+                await self._open_async_encoder._close_file(*sys.exc_info())
+                raise
         return self._open_async_encoder
 
     async def __aexit__(self, *args, **kwargs):
         if self._open_async_encoder is not None:
-            if not self.streaming:
-                await self._open_async_encoder._start_dump(all_at_once=True)
-            await self._open_async_encoder._end_dump()
+            try:
+                if not self.streaming:
+                    await self._open_async_encoder._start_dump(all_at_once=True)
+                await self._open_async_encoder._end_dump()
+            finally:
+                await self._open_async_encoder._close_file(*args)
             self._next_local = self._open_async_encoder._next_local
             self._open_async_encoder = None
             self._adopt_segments()
-- 
2.43.0

