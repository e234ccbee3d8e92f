From 664b63627b8a4f990d667682e569e0672a738887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:42 +0000
Subject: [PATCH 01/46] fix: hand over free semaphore slots directly to waiters

Cancelling a waiter that was already woken up (or one that was not) could leave
the semaphore permanently locked or wake up and requeue unrelated waiters, and
changing the max value reordered waiters.
---
 zigpy/datastructures.py | 62 +++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 30 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..5512700 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,21 +41,21 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
 
     @property
     @functools.cache
     def _loop(self) -> asyncio.BaseEventLoop:
         return asyncio.get_running_loop()
 
-    def _wake_up_next(self) -> None:
-        while self._waiters:
+    def _wake_up_waiters(self) -> None:
+        """Hand over free slots to waiters, in order."""
+        while self._waiters and self._value > 0:
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
+                # The slot already belongs to the waiter, even if it has yet to resume
+                self._value -= 1
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
-                return
 
     @property
     def value(self) -> int:
@@ -76,8 +76,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._max_value += delta
 
         # Wake up any pending waiters
-        for _ in range(min(len(self._waiters), max(0, delta))):
-            self._wake_up_next()
+        self._wake_up_waiters()
 
     @property
     def num_waiting(self) -> int:
@@ -96,28 +95,31 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
-            fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
-            heapq.heappush(self._waiters, obj)
-
-            try:
-                await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
-            except asyncio.CancelledError:
-                self._wake_up_next()
-                raise
-
-        assert self._value > 0
-        self._value -= 1
+        # Free slots are always immediately handed over to waiters so there can be none
+        # if the counter is positive
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        # To ensure that our objects don't have to be themselves comparable, we
+        # maintain a global count and increment it on every insert. This way,
+        # the tuple `(-priority, count, item)` will never have to compare `item`.
+        self._comparison_counter += 1
+
+        fut = self._loop.create_future()
+        obj = (-priority, self._comparison_counter, fut)
+        heapq.heappush(self._waiters, obj)
+
+        try:
+            await fut
+        except asyncio.CancelledError:
+            # If we were cancelled after being handed a slot, pass it on
+            if fut.done() and not fut.cancelled():
+                self._value += 1
+                self._wake_up_waiters()
+
+            raise
+
         return True
 
     def release(self) -> None:
@@ -130,7 +132,7 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
             raise ValueError("Semaphore released too many times")
 
         self._value += 1
-        self._wake_up_next()
+        self._wake_up_waiters()
 
     def __call__(self, priority: int = 0):
         """Allows specifying the priority by calling the context manager.
-- 
2.43.0


From d513e51a8db44de3e0479a428bdc3549b6e819cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 02/46] fix: expire debounced objects in order of their
 expiration time

---
 zigpy/datastructures.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 5512700..7f5152c 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -228,7 +228,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -240,9 +239,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The heap is ordered by expiration time, the next object to expire is first
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -260,12 +259,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
+        # Objects can share an expiration time, we need to make sure that `obj` will
         # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
@@ -274,7 +269,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From 7e6d9ea69aa87246d11ad6ea4cdb810a3cb4b3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:04 +0000
Subject: [PATCH 03/46] fix: do not let a cancelled caller cancel combined
 concurrent calls

---
 zigpy/util.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..ecf9e2e 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import abc
 import asyncio
+import collections
 import functools
 import inspect
 import itertools
@@ -482,6 +483,7 @@ def combine_concurrent_calls(
     """Decorator that allows concurrent calls to expensive coroutines to share a result."""
 
     tasks: dict[tuple, asyncio.Task] = {}
+    num_callers: collections.Counter[asyncio.Task] = collections.Counter()
     signature = inspect.signature(function)
 
     @functools.wraps(function)
@@ -492,16 +494,25 @@ def combine_concurrent_calls(
         # XXX: all args and kwargs are assumed to be hashable
         key = tuple(bound.arguments.items())
 
-        if key in tasks:
-            return await tasks[key]
+        if key not in tasks or tasks[key].done():
+            tasks[key] = asyncio.create_task(function(*args, **kwargs))
 
-        tasks[key] = asyncio.create_task(function(*args, **kwargs))
+        task = tasks[key]
+        num_callers[task] += 1
 
         try:
-            return await tasks[key]
+            # Cancelling one caller must not affect the others
+            return await asyncio.shield(task)
         finally:
-            assert tasks[key].done()
-            del tasks[key]
+            num_callers[task] -= 1
+
+            if num_callers[task] == 0:
+                # The last caller may have been cancelled
+                task.cancel()
+                del num_callers[task]
+
+                if tasks.get(key) is task:
+                    del tasks[key]
 
     return replacement
 
-- 
2.43.0


From 7daba1a89a3a7e12f5f2bb54ada2c08b3bff0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:25 +0000
Subject: [PATCH 04/46] fix: encode and decode small and out-of-range floating
 point values correctly

---
 zigpy/types/basic.py | 55 ++++++++------------------------------------
 1 file changed, 10 insertions(+), 45 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..53a482f 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -635,6 +635,10 @@ class bitmap64_be(bitmap_factory(uint64_t_be)):
     pass
 
 
+# IEEE 754 half, single, and double precision, little endian
+_FLOAT_FORMATS = {2: "<e", 4: "<f", 8: "<d"}
+
+
 class BaseFloat(float):
     _exponent_bits = None
     _fraction_bits = None
@@ -648,59 +652,20 @@ class BaseFloat(float):
         cls._fraction_bits = fraction_bits
         cls._size = size_bits // 8
 
-    @staticmethod
-    def _convert_format(*, src: BaseFloat, dst: BaseFloat, n: int) -> int:
-        """Converts an integer representing a float from one format into another. Note:
-
-        1. Format is assumed to be little endian: 0b[sign bit] [exponent] [fraction]
-        2. Truncates/extends the exponent, preserving the special cases of all 1's
-        and all 0's.
-        3. Truncates/extends the fractional bits from the right, allowing lossless
-        conversion to a "bigger" representation.
-        """
-
-        src_sign = n >> (src._exponent_bits + src._fraction_bits)
-        src_frac = n & ((1 << src._fraction_bits) - 1)
-        src_biased_exp = (n >> src._fraction_bits) & ((1 << src._exponent_bits) - 1)
-        src_exp = src_biased_exp - 2 ** (src._exponent_bits - 1)
-
-        if src_biased_exp == (1 << src._exponent_bits) - 1:
-            dst_biased_exp = 2**dst._exponent_bits - 1
-        elif src_biased_exp == 0:
-            dst_biased_exp = 0
-        else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
-            dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
-            dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
-            dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-
-        # We add/remove LSBs
-        if src._fraction_bits > dst._fraction_bits:
-            dst_frac = src_frac >> (src._fraction_bits - dst._fraction_bits)
-        else:
-            dst_frac = src_frac << (dst._fraction_bits - src._fraction_bits)
-
-        return (
-            src_sign << (dst._exponent_bits + dst._fraction_bits)
-            | dst_biased_exp << (dst._fraction_bits)
-            | dst_frac
-        )
-
     def serialize(self) -> bytes:
-        return self._convert_format(
-            src=Double, dst=self, n=int.from_bytes(struct.pack("<d", self), "little")
-        ).to_bytes(self._size, "little")
+        try:
+            return struct.pack(_FLOAT_FORMATS[self._size], self)
+        except OverflowError as exc:
+            raise ValueError(f"{float(self)} does not fit in {self._size} bytes") from exc
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[BaseFloat, bytes]:
         if len(data) < cls._size:
             raise ValueError(f"Data is too short to contain {cls._size} bytes")
 
-        double_bytes = cls._convert_format(
-            src=cls, dst=Double, n=int.from_bytes(data[: cls._size], "little")
-        ).to_bytes(Double._size, "little")
+        (value,) = struct.unpack(_FLOAT_FORMATS[cls._size], data[: cls._size])
 
-        return cls(struct.unpack("<d", double_bytes)[0]), data[cls._size :]
+        return cls(value), data[cls._size :]
 
 
 class Half(BaseFloat, exponent_bits=5, fraction_bits=10):
-- 
2.43.0


From b8a9919025a65f003030cf16d575d8a8b860156e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 05/46] fix: use the encoded size as the length of character
 strings

---
 zigpy/types/basic.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 53a482f..6a3f7b3 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -905,15 +905,17 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        encoded = self.encode("utf8")
+
+        if len(encoded) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        return (
+            len(encoded).to_bytes(self._prefix_length, "little", signed=False) + encoded
+        )
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
@@ -940,6 +942,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From 8453fa79b69caaf9c8c1931d10610f455c60155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 06/46] fix: handle missing nested structs when matching
 structs and loading them from dicts

---
 zigpy/types/struct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 36c4fe6..552ce4e 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -197,7 +197,7 @@ class Struct:
             field = getattr(cls.fields, key)
             field_type = field.get_type(instance)
 
-            if issubclass(field_type, Struct):
+            if value is not None and issubclass(field_type, Struct):
                 setattr(instance, field.name, field_type.from_dict(value))
             else:
                 setattr(instance, field.name, value)
@@ -436,7 +436,7 @@ class Struct:
                 continue
 
             if isinstance(expected, Struct):
-                if not actual.matches(expected):
+                if actual is None or not actual.matches(expected):
                     return False
             elif actual != expected:
                 return False
-- 
2.43.0


From e9ea52d758dd740dea652fe3597647f0773c2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:24 +0000
Subject: [PATCH 07/46] fix: compare integer structs for inequality by their
 value

---
 zigpy/types/struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 552ce4e..d2e35d4 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -346,6 +346,12 @@ class Struct:
 
         return self.as_dict() == other.as_dict()
 
+    def __ne__(self, other: object) -> bool:
+        # Integer structs would otherwise inherit `int.__ne__`
+        result = self.__eq__(other)
+
+        return result if result is NotImplemented else not result
+
     def __int__(self) -> int:
         if self._int_type is None:
             return NotImplemented
-- 
2.43.0


From a5a84b50f88b18d7b5b6216c6c11ec8bb93ab1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:17 +0000
Subject: [PATCH 08/46] fix: use the correct non-values of 64-bit integers and
 16-bit enumerations

---
 zigpy/zcl/foundation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..8128917 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -406,7 +406,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.uint64_t,
         DataClass.Analog,
         "Unsigned 64-bit integer",
-        t.uint64_t(0xFFFFFFFFFFFFFF),
+        t.uint64_t(0xFFFFFFFFFFFFFFFF),
     )
     int8 = (
         DataTypeId.int8,
@@ -462,7 +462,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.int64s,
         DataClass.Analog,
         "Signed 64-bit integer",
-        t.int64s(-0x80000000000000),
+        t.int64s(-0x8000000000000000),
     )
     enum8 = (
         DataTypeId.enum8,
@@ -476,7 +476,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.enum16,
         DataClass.Discrete,
         "16-bit enumeration",
-        t.enum16(0xFF),
+        t.enum16(0xFFFF),
     )
     semi = (
         DataTypeId.semi,
-- 
2.43.0


From fd5a64bb88d68f2597bf8e310d82e1e0d005d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:02 +0000
Subject: [PATCH 09/46] fix: copy and print reporting configurations without a
 reportable change

---
 zigpy/zcl/foundation.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 8128917..944e6f2 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -754,16 +754,23 @@ class AttributeReportingStatus(t.enum8):
 
 class AttributeReportingConfig:
     def __init__(self, other: AttributeReportingConfig | None = None) -> None:
+        # Only a reporting configuration for an analog attribute has one
+        self.reportable_change: int | None = None
+
         if isinstance(other, self.__class__):
             self.direction: ReportingDirection = other.direction
             self.attrid: t.uint16_t = other.attrid
-            if self.direction == ReportingDirection.ReceiveReports:
-                self.timeout: int = other.timeout
-                return
-            self.datatype: DataTypeId = other.datatype
-            self.min_interval: int = other.min_interval
-            self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+
+            # Unsuccessful read responses contain only a direction and an attribute
+            for name in (
+                "timeout",
+                "datatype",
+                "min_interval",
+                "max_interval",
+                "reportable_change",
+            ):
+                if hasattr(other, name):
+                    setattr(self, name, getattr(other, name))
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
@@ -832,7 +839,8 @@ class AttributeReportingConfig:
         r += f", attrid=0x{self.attrid:04X}"
 
         if self.direction == ReportingDirection.ReceiveReports:
-            r += f", timeout={self.timeout}"
+            if hasattr(self, "timeout"):
+                r += f", timeout={self.timeout}"
         elif hasattr(self, "datatype"):
             r += f", datatype={self.datatype}"
             r += f", min_interval={self.min_interval}"
-- 
2.43.0


From e7cde20bb29a1fff51e268cec7bb593e882f29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 10/46] fix: clear the strobe bit of warnings when the strobe
 is turned off

---
 zigpy/zcl/clusters/security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/clusters/security.py b/zigpy/zcl/clusters/security.py
index 0ed393a..a8348e5 100644
--- a/zigpy/zcl/clusters/security.py
+++ b/zigpy/zcl/clusters/security.py
@@ -441,7 +441,7 @@ class WarningType(_SquawkOrWarningCommand):
 
     @strobe.setter
     def strobe(self, strobe: Strobe) -> None:
-        self.value = (self.value & 0xF7) | (
+        self.value = (self.value & 0xF3) | (
             (strobe & 0x01) << 2  # type:ignore[operator]
         )
 
-- 
2.43.0


From f079d4a6926a8a130c8dda32b7699a3620256ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 11/46] fix: encode and decode ZDO user descriptors

---
 zigpy/zdo/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From cfddfb6a49ae74c6c836d2f34822aeeaa2ecc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:49 +0000
Subject: [PATCH 12/46] fix: use 16-bit profile, clusters, and cache address in
 ZDO commands

---
 zigpy/zdo/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 52ad17f..bf817e9 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -591,9 +591,9 @@ CLUSTERS = {
         ("BindingTarget", t.uint16_t),
         ("SrcAddress", t.EUI64),
         ("SrcEndpoint", t.uint8_t),
-        ("ProfileID", t.uint8_t),
-        ("InClusterList", t.LVList[t.uint8_t]),
-        ("OutClusterList", t.LVList[t.uint8_t]),
+        ("ProfileID", t.uint16_t),
+        ("InClusterList", t.LVList[t.uint16_t]),
+        ("OutClusterList", t.LVList[t.uint16_t]),
     ),
     ZDOCmd.Bind_req: (
         ("SrcAddress", t.EUI64),
@@ -676,7 +676,7 @@ CLUSTERS = {
     ZDOCmd.Active_EP_store_rsp: (STATUS,),
     ZDOCmd.Simple_Desc_store_rsp: (STATUS,),
     ZDOCmd.Remove_node_cache_rsp: (STATUS,),
-    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.EUI64), NWK, IEEE),
+    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.NWK), NWK, IEEE),
     ZDOCmd.Extended_Simple_Desc_rsp: (
         STATUS,
         NWK,
-- 
2.43.0


From 7ed4bfb8200cced3bc78980d83c7e4d9115b71e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 13/46] fix: let response callbacks register and unregister
 listeners

---
 zigpy/device.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..62da41b 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -4,7 +4,6 @@ import asyncio
 import contextlib
 from datetime import datetime, timezone
 import enum
-import itertools
 import logging
 import sys
 import time
@@ -521,10 +520,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         if error is not None:
             return
 
-        # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
+        # Pass the request off to a listener, if one is registered. Callbacks can register
+        # and unregister listeners so we need to iterate over a copy.
+        for listener in (
+            *self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
+            *self._application._req_listeners[self],
         ):
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
-- 
2.43.0


From e8ecd828152b0017f3d096bdc55b7f3f7435fbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 14/46] fix: ignore packets with a truncated header or from a
 device's ZDO to an endpoint

---
 zigpy/device.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 62da41b..878b1d1 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -456,8 +456,12 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
         if (
             packet.dst_ep != zdo.ZDO_ENDPOINT
-            and packet.cluster_id not in endpoint.in_clusters
-            and packet.cluster_id not in endpoint.out_clusters
+            and (
+                # The ZDO endpoint has no clusters
+                packet.src_ep == zdo.ZDO_ENDPOINT
+                or packet.cluster_id not in endpoint.in_clusters
+                and packet.cluster_id not in endpoint.out_clusters
+            )
         ):
             self.debug(
                 "Ignoring message on unknown cluster %s for endpoint %s",
@@ -466,13 +470,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first. This only fails if the packet is truncated.
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError:
+            self.debug("Failed to parse packet header %r", packet, exc_info=True)
+            return
 
         try:
             if (
-- 
2.43.0


From 43bdabb14a2e355341a85fb5273dc79356d1d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 15/46] fix: handle reported values that cannot be converted to
 the attribute's type

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..ac8d632 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -484,7 +484,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value = self.attributes[attr.attrid].type(attr.value.value)
                 except KeyError:
                     value = attr.value.value
-                except ValueError:
+                except Exception:  # noqa: BLE001
                     self.debug(
                         "Couldn't normalize %a attribute with %s value",
                         attr.attrid,
-- 
2.43.0


From 5d19cde7ec44b5cc06eebb63d2c38a9ddf91e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 16/46] fix: parse ZDO packets with trailing data before the
 coordinator is known

---
 zigpy/zdo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..a6cf921 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -272,8 +272,10 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
         return self.Mgmt_Permit_Joining_req(duration, tc_significance)
 
     def log(self, lvl, msg, *args, **kwargs):
+        # The device is not known if a packet is parsed before the network is started
+        nwk = self._device.nwk if self._device is not None else 0x0000
         msg = "[0x%04x:zdo] " + msg
-        args = (self._device.nwk, *args)
+        args = (nwk, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
 
     @property
-- 
2.43.0


From 6d88fadcb341c3b68266b52522a6b3ad8afc3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 17/46] fix: do not allocate as many bytes as the number a
 device reports for an octet string

---
 zigpy/types/basic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 6a3f7b3..fc71a9d 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -683,6 +683,13 @@ class Double(BaseFloat, exponent_bits=11, fraction_bits=52):
 class LVBytes(bytes):
     _prefix_length = 1
 
+    def __new__(cls, value=b"", *args, **kwargs):
+        # `bytes(number)` allocates that many zero bytes
+        if isinstance(value, int):
+            raise TypeError(f"{cls.__name__} cannot be created from a number: {value}")
+
+        return super().__new__(cls, value, *args, **kwargs)
+
     def serialize(self):
         if len(self) >= pow(256, self._prefix_length) - 1:
             raise ValueError("OctetString is too long")
-- 
2.43.0


From f12240c69cf3721de8f28081b99125152a7a0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 18/46] fix: serialize keyword arguments of ZDO broadcasts in
 schema order

---
 zigpy/zdo/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index a6cf921..816cf50 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -308,8 +308,11 @@ def broadcast(
     named_args.update(kwargs)
     assert set(named_args.keys()) & set(params)
 
+    # The arguments have to be serialized in the order of the schema
+    ordered_args = [named_args[param] for param in params if param in named_args]
+
     sequence = app.get_sequence()
-    data = bytes([sequence]) + t.serialize(named_args.values(), param_types)
+    data = bytes([sequence]) + t.serialize(ordered_args, param_types)
 
     return zigpy.device.broadcast(
         app,
-- 
2.43.0


From d00602d8c229e7294f6a7a72af7c6d8cfbcec036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 19/46] fix: default response of group requests with a
 manufacturer code names the right command

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..ae447cb 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -77,11 +77,13 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 3384f77c9cbf04c7f79ea83e1aa64352464789f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:27 +0000
Subject: [PATCH 20/46] fix: reading attributes tolerates unrequested records
 and inconvertible values, and reports the status of a default response

---
 zigpy/zcl/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index ac8d632..a27c47c 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -574,18 +574,25 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(result[0], list):
+            # Assume default response
+            status = getattr(result, "status", result[0])
+
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = status
         else:
             for record in result[0]:
+                if record.attrid not in orig_attributes:
+                    self.debug("Ignoring unrequested attribute record: %s", record)
+                    continue
+
                 orig_attribute = orig_attributes[record.attrid]
                 if record.status == foundation.Status.SUCCESS:
                     try:
                         value = self.attributes[record.attrid].type(record.value.value)
                     except KeyError:
                         value = record.value.value
-                    except ValueError:
+                    except Exception:  # noqa: BLE001
                         value = record.value.value
                         self.debug(
                             "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From 5f7c29e1045391843f992c320821fd1250659168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 21/46] fix: default responses to group commands are not
 successes

---
 zigpy/endpoint.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..4727bd3 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -145,6 +145,14 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         return cluster
 
+    @staticmethod
+    def _group_response_status(res) -> ZCLStatus:
+        """Status of a group command, the device may also send a default response."""
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            return res.status
+
+        return res[0]
+
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
             res = await self.groups.add(grp_id, name)
@@ -152,13 +160,15 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
-        if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
-            self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
-            return res[0]
+        status = self._group_response_status(res)
+
+        if status not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
+            self.debug("Couldn't add to 0x%04x group: %s", grp_id, status)
+            return status
 
         group = self.device.application.groups.add_group(grp_id, name)
         group.add_member(self)
-        return res[0]
+        return status
 
     async def remove_from_group(self, grp_id: int) -> ZCLStatus:
         try:
@@ -167,13 +177,15 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
-        if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
-            self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
-            return res[0]
+        status = self._group_response_status(res)
+
+        if status not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
+            self.debug("Couldn't remove to 0x%04x group: %s", grp_id, status)
+            return status
 
         if grp_id in self.device.application.groups:
             self.device.application.groups[grp_id].remove_member(self)
-        return res[0]
+        return status
 
     async def group_membership_scan(self) -> None:
         """Sync up group membership."""
-- 
2.43.0


From bde737d9261d62bfc4b7dbe34c1343c5e48074d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:20 +0000
Subject: [PATCH 22/46] fix: do not emit group events for missing members and
 groups

---
 zigpy/group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ae447cb..62ae068 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,7 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        if ep.unique_id not in self:
+            return self
+        self.pop(ep.unique_id)
         ep.member_of.pop(self.group_id, None)
         if not suppress_event:
             self.listener_event("member_removed", self, ep)
@@ -153,7 +155,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From 525b5b57d152528c273285ee799d8ea726913ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 23/46] fix: removed devices leave their groups

---
 zigpy/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..b933892 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -535,6 +535,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         self.devices.pop(device.ieee, None)
 
+        for ep in device.non_zdo_endpoints:
+            for group in (*ep.member_of.values(),):
+                group.remove_member(ep)
+
     def deserialize(
         self,
         sender: zigpy.device.Device,
-- 
2.43.0


From 57f43106c2428ddb953a7cdf1eca287dcb25dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 24/46] fix: endpoints can be added to groups without a name

---
 zigpy/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 4727bd3..734c7eb 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -155,7 +155,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
-            res = await self.groups.add(grp_id, name)
+            res = await self.groups.add(grp_id, "" if name is None else name)
         except AttributeError:
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
-- 
2.43.0


From 99d54c4b5ddf247c00b7d975c9abdb3d6ab2b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 25/46] fix: a response without a node descriptor does not end
 its discovery

---
 zigpy/device.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/device.py b/zigpy/device.py
index 878b1d1..e25b04b 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -226,6 +226,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 f"Requesting Node Descriptor failed: {status}"
             )
 
+        if node_desc is None:
+            raise zigpy.exceptions.InvalidResponse(
+                "Node Descriptor is missing from the response"
+            )
+
         self.node_desc = node_desc
         self.info("Got Node Descriptor: %s", node_desc)
 
-- 
2.43.0


From 9a8e14c8c66bc1dee5f7a0117246ec351a89bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 26/46] fix: an address change during an interview does not
 report the device initialized

---
 zigpy/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index e25b04b..3df5fe9 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -201,7 +201,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     def schedule_initialize(self) -> asyncio.Task | None:
         # Already-initialized devices don't need to be re-initialized
-        if self.is_initialized:
+        if self.is_initialized and not self.initializing:
             self.debug("Skipping initialization, device is fully initialized")
             self._application.device_initialized(self)
             return None
-- 
2.43.0


From 020d1fa23e896371109a9e943a50ddb04ee6ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 27/46] fix: removed devices leave the topology

---
 zigpy/appdb.py       | 4 ++++
 zigpy/application.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..275dd7f 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -444,6 +444,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+        # The routes table does not reference the devices table
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
diff --git a/zigpy/application.py b/zigpy/application.py
index b933892..b946083 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -534,6 +534,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
         self.devices.pop(device.ieee, None)
+        self.topology.neighbors.pop(device.ieee, None)
+        self.topology.routes.pop(device.ieee, None)
 
         for ep in device.non_zdo_endpoints:
             for group in (*ep.member_of.values(),):
-- 
2.43.0


From c8eda48c41be2e13a2bc5a00de5a397b0d98330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 28/46] fix: create a new database in one transaction

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 275dd7f..506d3fd 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -938,7 +938,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From 9984248d516e57b318913a272032f7c5580c175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 29/46] fix: roll back partial changes of failed database
 writes

---
 zigpy/appdb.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 506d3fd..ae3e8fd 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -180,12 +180,21 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     args,
                     str(exc),
                 )
+                await self._discard_changes()
             except Exception as ex:  # noqa: BLE001
                 LOGGER.error(
                     "Unexpected error while processing %s(%s): %s", cb_name, args, ex
                 )
+                await self._discard_changes()
             self._callback_handlers.task_done()
 
+    async def _discard_changes(self) -> None:
+        """Discard uncommitted changes of a handler that failed."""
+        try:
+            await self._db.rollback()
+        except Exception:  # noqa: BLE001
+            LOGGER.debug("Failed to roll back changes", exc_info=True)
+
     async def shutdown(self) -> None:
         """Shutdown connection."""
         self.running = False
-- 
2.43.0


From 69dc604dcf7e85807f0d530399a993a1307131a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 30/46] fix: remove a device whatever goes wrong while asking
 it to leave

An unexpected error (malformed reply, radio failure) kept the device, and a device that was announced or interviewed again while it was being removed was saved again.
---
 zigpy/application.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index b946083..08be4b3 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -530,10 +530,15 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
-            LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
+        except Exception as ex:  # noqa: BLE001
+            LOGGER.debug("Sending 'zdo_leave_req' failed: %r", ex)
 
+        # The device may have announced itself again while it was leaving
+        device.cancel_initialization()
         self.devices.pop(device.ieee, None)
+        if self._dblistener is not None:
+            self._dblistener.device_removed(device)
+
         self.topology.neighbors.pop(device.ieee, None)
         self.topology.routes.pop(device.ieee, None)
 
-- 
2.43.0


From 7d4dc201925f3afed0bfd9c81b84f092db925530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 31/46] fix: end the topology scan loop when it is stopped
 during a scheduled scan

---
 zigpy/topology.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..8305aff 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -44,6 +44,7 @@ class Topology(zigpy.util.ListenableMixin):
         self._listeners: dict = {}
         self._scan_task: asyncio.Task | None = None
         self._scan_loop_task: asyncio.Task | None = None
+        self._scan_loop_stopped: bool = False
 
         # Keep track of devices that do not support scanning
         self._neighbors_unsupported: set[t.EUI64] = set()
@@ -56,9 +57,12 @@ class Topology(zigpy.util.ListenableMixin):
 
     def start_periodic_scans(self, period: float) -> None:
         self.stop_periodic_scans()
+        self._scan_loop_stopped = False
         self._scan_loop_task = asyncio.create_task(self._scan_loop(period))
 
     def stop_periodic_scans(self) -> None:
+        self._scan_loop_stopped = True
+
         if self._scan_loop_task is not None:
             self._scan_loop_task.cancel()
 
@@ -78,7 +82,14 @@ class Topology(zigpy.util.ListenableMixin):
                 await self.scan()
             except asyncio.CancelledError:
                 # We explicitly catch a cancellation here to ensure the scan loop will
-                # not be interrupted if a manual scan is initiated
+                # not be interrupted if a manual scan is initiated. The loop itself may
+                # have been stopped during the scan, though.
+                if (
+                    self._scan_loop_stopped
+                    or self._scan_loop_task is not asyncio.current_task()
+                ):
+                    raise
+
                 LOGGER.debug("Topology scan cancelled")
             except (Exception, asyncio.CancelledError):
                 LOGGER.debug("Topology scan failed", exc_info=True)
-- 
2.43.0


From 8904f9a376db4f2d23879838e61a1c3133c8f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 32/46] fix: refuse OTA images whose size is smaller than their
 header

---
 zigpy/ota/image.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..a889f75 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -183,6 +183,12 @@ class OTAImage(t.Struct, BaseOTAImage):
         hdr, data = OTAImageHeader.deserialize(data)
         elements_len = hdr.image_size - hdr.header_length
 
+        if elements_len < 0:
+            raise ValueError(
+                f"Image size {hdr.image_size} is smaller than"
+                f" the header length {hdr.header_length}"
+            )
+
         if elements_len > len(data):
             raise ValueError(f"Data is too short for {cls}")
 
@@ -224,7 +230,14 @@ class HueSBLOTAImage(BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[Self, bytes]:
         header, remaining_data = OTAImageHeader.deserialize(data)
-        firmware = remaining_data[: header.image_size - len(header.serialize())]
+        firmware_len = header.image_size - len(header.serialize())
+
+        if firmware_len < 0:
+            raise ValueError(
+                f"Image size is too short to contain a header: {header.image_size}"
+            )
+
+        firmware = remaining_data[:firmware_len]
 
         if len(data) < header.image_size:
             raise ValueError(
-- 
2.43.0


From b33b96dace0eb52d2d25b7e4cfff7a6c5f443e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 33/46] fix: do not offer OTA images whose own header excludes
 the device

The header was only taken into account from the second query on, when the image was cached.
---
 zigpy/ota/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..a603350 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -469,6 +469,12 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
+            # The file itself may be more restrictive than its metadata
+            if not img.check_compatibility(device, query_cmd):
+                _LOGGER.debug("Downloaded image is incompatible, ignoring: %s", img)
+                upgrades.pop(img.metadata)
+                continue
+
             upgrades[img.metadata] = img
 
         # As a final pass, identify images with identical versions and specificity but
-- 
2.43.0


From f4dff533612fee767a9d9998e393cca84eb81bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 34/46] fix: do not download an OTA image again while other
 images of the same query download

---
 zigpy/ota/__init__.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index a603350..551522e 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -382,8 +382,20 @@ class OTA:
     ) -> list[OtaImageWithMetadata]:
         """Load the index of a provider."""
 
+        # Another query may have finished downloading it in the meantime
+        cached = self._image_cache.get(image.metadata)
+
+        if cached is not None and cached.firmware is not None:
+            return cached
+
         async with asyncio_timeout(OTA_FETCH_TIMEOUT):
-            return await image.fetch()
+            result = await image.fetch()
+
+        # Cache it right away: the query may still be waiting for other images
+        _LOGGER.debug("Caching image %s", result)
+        self._image_cache[image.metadata] = result
+
+        return result
 
     async def get_ota_images(
         self,
@@ -464,11 +476,6 @@ class OTA:
             # image with downloaded firmware.
             img = result
 
-            # Cache the image if it isn't already cached
-            if self._image_cache[img.metadata].firmware is None:
-                _LOGGER.debug("Caching image %s", img)
-                self._image_cache[img.metadata] = img
-
             # The file itself may be more restrictive than its metadata
             if not img.check_compatibility(device, query_cmd):
                 _LOGGER.debug("Downloaded image is incompatible, ignoring: %s", img)
-- 
2.43.0


From 4ea4370d2b97726b04f529465fcc393342f38fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 35/46] fix: import the network manager address of open
 coordinator backups in the right byte order

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From aad45474b01f78125fa0bf9e3a414b884a54ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 36/46] fix: do not let stored network backups change with the
 live network state

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7184dd4..afe26e4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -135,8 +135,9 @@ class BackupManager(ListenableMixin):
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            # The live state will change
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From 517e1a61c95ee2af7bffd11d4211630fe34f3e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 37/46] fix: never form a network with the reserved PAN ID
 0xFFFF

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 08be4b3..e3f7759 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -354,7 +354,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From e6ee49358c7f2ff59dab573212808dedc61ec23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 38/46] fix: do not allocate a gigabyte when the coordinator
 cannot scan energy

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index e3f7759..1564aa4 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -273,7 +273,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
             LOGGER.warning("Coordinator does not support energy scanning")
             scanned_channels = channels
-            energy_values = [0] * scanned_channels
+            energy_values = [0] * len(list(scanned_channels))
         else:
             _, scanned_channels, _, _, energy_values = rsp
 
-- 
2.43.0


From 8c0f06ad2c24d173dcc44213e2228b9dd19c066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 39/46] fix: replace the previous OTA notification schedule
 when it is started again

---
 zigpy/ota/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 551522e..e690b7d 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -251,6 +251,7 @@ class OTA:
 
     def start_periodic_broadcasts(self, initial_delay: float, interval: float) -> None:
         """Start the periodic OTA broadcasts."""
+        self.stop_periodic_broadcasts()
         self._broadcast_loop_task = asyncio.create_task(
             self.broadcast_loop(
                 initial_delay=initial_delay,
-- 
2.43.0


From 89ec4ed362a8b25c491ffde8148ab4b3d42d28d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 40/46] fix: replace the previous watchdog when the network is
 initialized again

---
 zigpy/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 1564aa4..26bca05 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -136,6 +136,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         # Make sure the first thing we do is feed the watchdog
         if self.config[conf.CONF_WATCHDOG_ENABLED]:
             await self.watchdog_feed()
+
+            if self._watchdog_task is not None:
+                self._watchdog_task.cancel()
+
             self._watchdog_task = asyncio.create_task(self._watchdog_loop())
 
         last_backup = self.backups.most_recent_backup()
-- 
2.43.0


From f22c3e19d7c8a2ef5977c30cd94677d7aa687341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 41/46] fix: accept a configuration that was validated before

---
 zigpy/config/validators.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 4cad78f..86bd0da 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -67,6 +67,10 @@ def cv_key(key: list[int]) -> t.KeyData:
 
 def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
     """Validates a ZDO simple descriptor."""
+    if isinstance(obj, zdo_t.SimpleDescriptor):
+        # Already validated
+        return obj
+
     if not isinstance(obj, dict):
         raise vol.Invalid("Not a dictionary")
 
@@ -113,6 +117,10 @@ def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaPr
     """Validate OTA provider name."""
     import zigpy.ota.providers
 
+    if name in zigpy.ota.providers.OTA_PROVIDER_TYPES.values():
+        # Already validated
+        return name
+
     if name not in zigpy.ota.providers.OTA_PROVIDER_TYPES:
         raise vol.Invalid(f"Unknown OTA provider: {name!r}")
 
@@ -121,6 +129,12 @@ def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaPr
 
 def cv_ota_provider(obj: dict) -> zigpy.ota.providers.BaseOtaProvider:
     """Validate OTA provider."""
+    import zigpy.ota.providers
+
+    if isinstance(obj, zigpy.ota.providers.BaseOtaProvider):
+        # Already validated
+        return obj
+
     provider_type = obj.get(zigpy.config.CONF_OTA_PROVIDER_TYPE)
     provider_cls = cv_ota_provider_name(provider_type)
 
-- 
2.43.0


From 2b4b94755cc9300d5cba5173a9921adfd5d18865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 42/46] fix: create client clusters of v2 quirks as clients

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 6d87853599c7ab2633fbaa6f98febdd50b159eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 43/46] fix: offer only OTA images that the compatible
 providers currently list

---
 zigpy/ota/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index e690b7d..2875f8e 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -228,6 +228,10 @@ class OTA:
         self._image_cache: dict[
             zigpy.ota.providers.BaseOtaImageMetadata, OtaImageWithMetadata
         ] = {}
+        self._provider_indexes: dict[
+            zigpy.ota.providers.BaseOtaProvider,
+            list[zigpy.ota.providers.BaseOtaImageMetadata],
+        ] = {}
 
         self._broadcast_loop_task = None
 
@@ -426,6 +430,8 @@ class OTA:
 
             _LOGGER.debug("Loaded %d images from provider: %s", len(index), provider)
 
+            self._provider_indexes[provider] = index
+
             # Cache its images. If the concurrent call's result was shared, the first
             # caller will cache these images
             for meta in index:
@@ -434,6 +440,14 @@ class OTA:
                         metadata=meta, firmware=None
                     )
 
+        # Other providers may have been loaded for other devices and an image may have
+        # been withdrawn since it was cached
+        listed_images = {
+            meta
+            for provider in compatible_providers
+            for meta in self._provider_indexes.get(provider, [])
+        }
+
         # Find all superficially compatible images. Note that if an image's contents
         # are unknown and its metadata does not describe hardware compatibility, we will
         # still download in the next step to double check, in case the file itself does.
@@ -441,7 +455,8 @@ class OTA:
             [
                 img
                 for img in self._image_cache.values()
-                if img.check_compatibility(device, query_cmd)
+                if img.metadata in listed_images
+                and img.check_compatibility(device, query_cmd)
             ],
             key=lambda img: img.version,
         )
-- 
2.43.0


From ff7166ad0817391e98eb32840090f65941778c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 44/46] fix: keep a disabled default OTA provider disabled next
 to an extra one of the same type

---
 zigpy/ota/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 2875f8e..3a6c884 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -274,7 +274,11 @@ class OTA:
         # providers config. We treat every option as an "intent" and merge configs in
         # the end.
         with_providers: list[zigpy.ota.providers.BaseOtaProvider] = [
-            *config[CONF_OTA_PROVIDERS],
+            *(
+                provider
+                for provider in config[CONF_OTA_PROVIDERS]
+                if type(provider) not in config[CONF_OTA_DISABLE_DEFAULT_PROVIDERS]
+            ),
             *config[CONF_OTA_EXTRA_PROVIDERS],
         ]
         without_providers: set[type[zigpy.ota.providers.BaseOtaProvider]] = set(
-- 
2.43.0


From bb7f7749b12cefb41053a147184a88319c1ef20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 45/46] fix: forget the tables of a device that is removed
 while its topology is being scanned

---
 zigpy/topology.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8305aff..3c26e36 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -207,6 +207,11 @@ class Topology(zigpy.util.ListenableMixin):
                     "Scanned neighbors of %s: %s", device, self.neighbors[device.ieee]
                 )
 
+            # The device may have been removed while it was being scanned
+            if device.ieee not in self._app.devices:
+                self.neighbors.pop(device.ieee, None)
+                continue
+
             self.listener_event(
                 "neighbors_updated", device.ieee, self.neighbors[device.ieee]
             )
@@ -226,6 +231,11 @@ class Topology(zigpy.util.ListenableMixin):
                     "Scanned routes of %s: %s", device, self.routes[device.ieee]
                 )
 
+            # The device may have been removed while it was being scanned
+            if device.ieee not in self._app.devices:
+                self.routes.pop(device.ieee, None)
+                continue
+
             self.listener_event("routes_updated", device.ieee, self.routes[device.ieee])
 
         LOGGER.debug("Finished scanning neighbors for all devices")
-- 
2.43.0


From c563842fa1ebd7904e1cbdfb83133fdb6e370337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:31 +0000
Subject: [PATCH 46/46] fix: report a refused read of a custom cluster with
 constant attributes as failed

---
 zigpy/quirks/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..245d887 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -319,11 +319,14 @@ class CustomCluster(zigpy.zcl.Cluster):
             attrs_to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(results[0], list):
+            # Assume default response
+            status = getattr(results, "status", results[0])
+
             for attrid in attrs_to_read:
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        status,
                         foundation.TypeValue(),
                     )
                 )
-- 
2.43.0

