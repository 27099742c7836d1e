From e7304fbd7d99375142f399f587b220c19b0f2161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 01/41] fix: save the header's own channel count

save() wrote len(project.channels) in the header: presets and scores without
channels could not be saved at all (NoModelsFound), an unedited save of a preset
changed its header and Project.channel_count could be set but was never saved.
---
 pyflp/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 2029980..65ee6f5 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -184,8 +184,9 @@ def save(project: Project, file: pathlib.Path | str) -> None:
         file: The file in which the contents of :attr:`project` are serialised back.
     """
     buf = bytearray()
-    num_channels = len(project.channels)
-    header = FLP_HEADER.pack(b"FLhd", 6, project.format, num_channels, project.ppq)
+    header = FLP_HEADER.pack(
+        b"FLhd", 6, project.format, project.channel_count, project.ppq
+    )
     buf.extend(header)
     buf.extend(b"FLdt" + (b"\0" * 4))
     total_size = 0
-- 
2.43.0


From 8b1ffa64d63b4d3a7ca354aa620b18280e3fc19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:19 +0000
Subject: [PATCH 02/41] fix: reject an event whose declared size exceeds the
 file

A corrupted length of a variable size event made parse() silently take whatever
was left of the file as that event's data.
---
 pyflp/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyflp/__init__.py b/pyflp/__init__.py
index 65ee6f5..eadbbf6 100644
--- a/pyflp/__init__.py
+++ b/pyflp/__init__.py
@@ -54,7 +54,11 @@ from pyflp._events import (
     UnicodeEvent,
     UnknownDataEvent,
 )
-from pyflp.exceptions import HeaderCorrupted, VersionNotDetected
+from pyflp.exceptions import (
+    HeaderCorrupted,
+    InvalidEventChunkSize,
+    VersionNotDetected,
+)
 from pyflp.plugin import PluginID, get_event_by_internal_name
 from pyflp.project import VALID_PPQS, FileFormat, Project, ProjectID
 
@@ -76,6 +80,7 @@ def parse(file: pathlib.Path | str) -> Project:
 
     Raises:
         HeaderCorrupted: When an invalid value is found in the file header.
+        InvalidEventChunkSize: An event is cut short by the end of the file.
         VersionNotDetected: A correct string type couldn't be determined.
     """
     with open(file, "rb") as flp:
@@ -131,6 +136,8 @@ def parse(file: pathlib.Path | str) -> Project:
         else:
             size = c.VarInt.parse_stream(stream)
             value = stream.read(size)
+            if len(value) != size:
+                raise InvalidEventChunkSize(size, len(value))
 
         if id == ProjectID.FLVersion:
             parts = value.decode("ascii").rstrip("\0").split(".")
-- 
2.43.0


From 4e6bb22eed55f46272f34d10b62bb5f289bb883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 03/41] fix: don't lose event data which isn't modelled on save

Saving an unmodified project changed events whose data doesn't round trip through
their struct, e.g. ProjectID.Licensed stored as 3 (see tests/assets/plugins),
and dropped the bytes newer FL Studio versions append to known structs.
---
 pyflp/_events.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1606e26..bb15692 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -122,6 +122,7 @@ class EventBase(Generic[T]):
 
         self.id = EventEnum(id)
         self._kwds = kwds
+        self._raw = bytes(data)
         self.value = self.STRUCT.parse(data, **self._kwds)
 
     def __eq__(self, o: object) -> bool:
@@ -136,7 +137,7 @@ class EventBase(Generic[T]):
 
     def __bytes__(self) -> bytes:
         id = c.Byte.build(self.id)
-        data = self.STRUCT.build(self.value, **self._kwds)
+        data = self._build()
 
         if self.id < TEXT:
             return id + data
@@ -147,6 +148,25 @@ class EventBase(Generic[T]):
     def __repr__(self) -> str:
         return f"<{type(self)!r}(id={self.id!r}, value={self.value!r})>"
 
+    def _build(self) -> bytes:
+        """Serialises :attr:`value` without losing what ``STRUCT`` doesn't model.
+
+        Not all data round trips through ``STRUCT``, e.g. booleans stored as 3 or
+        bytes appended to a struct by a newer FL Studio. An unmodified event gives
+        back exactly what was parsed and a modified one retains trailing bytes.
+        """
+        data = self.STRUCT.build(self.value, **self._kwds)
+        if data == self._raw:
+            return data
+
+        original = self.STRUCT.parse(self._raw, **self._kwds)
+        rebuilt = self.STRUCT.build(original, **self._kwds)
+        if data == rebuilt:
+            return self._raw
+        if self._raw.startswith(rebuilt):
+            return data + self._raw[len(rebuilt) :]
+        return data
+
     @property
     def size(self) -> int:
         """Serialised event size (in bytes)."""
-- 
2.43.0


From a0bd25a0e9bb0984c21d35a9463d38a3f07c151e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 04/41] fix: round a tempo to its stored precision instead of
 truncating it

project.tempo = 64.1 stored (and read back) 64.099.
---
 pyflp/project.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 6c574b7..af6f29a 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -17,7 +17,6 @@ from __future__ import annotations
 
 import datetime
 import enum
-import math
 import pathlib
 from typing import Final, Literal, cast
 
@@ -470,15 +469,15 @@ class Project(EventModel):
         if float(value) > max_tempo or float(value) < MIN_TEMPO:
             raise ValueError(f"Invalid tempo {value}; expected {MIN_TEMPO}-{max_tempo}")
 
+        tempo = round(value * 1000)
         if ProjectID.Tempo in self.events.ids:
-            self.events.first(ProjectID.Tempo).value = int(value * 1000)
+            self.events.first(ProjectID.Tempo).value = tempo
 
         if ProjectID._TempoFine in self.events.ids:
-            tempo_fine = int((value - math.floor(value)) * 1000)
-            self.events.first(ProjectID._TempoFine).value = tempo_fine
+            self.events.first(ProjectID._TempoFine).value = tempo % 1000
 
         if ProjectID._TempoCoarse in self.events.ids:
-            self.events.first(ProjectID._TempoCoarse).value = math.floor(value)
+            self.events.first(ProjectID._TempoCoarse).value = tempo // 1000
 
     @property
     def time_spent(self) -> datetime.timedelta | None:
-- 
2.43.0


From 8e7cad611e3dbec464f21a0a8fadb1e518a2cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 05/41] fix: round floats derived from event data instead of
 truncating them

Stored values weren't the fixed points of decoding and encoding them: a track
height of '29%' was read back as '28%' from a saved file, and an edit of any
other property stored in the same event decremented the time stretching
multiplier or sample start / length, again and again.
---
 pyflp/_adapters.py   | 4 ++--
 pyflp/arrangement.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 9895fd9..5d3b898 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -59,7 +59,7 @@ class Log2(SimpleAdapter[int, float]):
         self.factor = factor
 
     def _encode(self, obj: float, *_: Any) -> int:
-        return int(self.factor * math.log2(obj))
+        return round(self.factor * math.log2(obj))
 
     def _decode(self, obj: int, *_: Any) -> float:
         return 2 ** (obj / self.factor)
@@ -80,7 +80,7 @@ class LogNormal(SimpleAdapter[List[int], float]):
         if not obj:  # log2(0.0) --> -inf ==> 0
             return [0, 0]
 
-        return [min(max(self.lo, int(2**12 * (math.log2(obj) + 15))), self.hi), 63]
+        return [min(max(self.lo, round(2**12 * (math.log2(obj) + 15))), self.hi), 63]
 
     def _decode(self, obj: list[int], *_: Any) -> float:
         """Returns a float representation of ``obj[0]`` between 0.0 to 1.0."""
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6a96bb8..50f259c 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -122,7 +122,7 @@ class TrackSync(ct.EnumBase):
 
 class HeightAdapter(ct.Adapter[float, float, str, str]):
     def _decode(self, obj: float, *_: Any) -> str:
-        return str(int(obj * 100)) + "%"
+        return str(round(obj * 100)) + "%"
 
     def _encode(self, obj: str, *_: Any) -> float:
         return int(obj[:-1]) / 100
-- 
2.43.0


From 8af2cfbb4c9887691f0204b1ca69ab481be91d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:42 +0000
Subject: [PATCH 06/41] fix: VST plugin property setters

Setting a VST flag changed bit 0 (or nothing) instead of the flag. Setting one of
the MIDI options or fast_idle replaced the entire options struct by that value,
after which the project could not be saved. Setting an absent property was
ignored silently.
---
 pyflp/plugin.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 6afba1d..5ed26e6 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -37,6 +37,7 @@ from pyflp._events import (
     UnknownDataEvent,
 )
 from pyflp._models import EventModel, ModelReprMixin
+from pyflp.exceptions import PropertyCannotBeSet
 from pyflp.types import T
 
 __all__ = [
@@ -473,8 +474,14 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                e["data"] = value
-                break
+                if isinstance(e["data"], (str, bytes)):
+                    e["data"] = value
+                elif e["data"][self._prop] is not None:
+                    e["data"][self._prop] = value
+                else:
+                    break
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class _VSTFlagProp(_VSTPluginProp[bool]):
@@ -496,10 +503,11 @@ class _VSTFlagProp(_VSTPluginProp[bool]):
         for e in event["events"]:
             if e["id"] == self._id:
                 if value:
-                    e["data"][self._prop] |= value
+                    e["data"][self._prop] |= self._flag
                 else:
-                    e["data"][self._prop] &= ~value
-                break
+                    e["data"][self._prop] &= ~self._flag
+                return
+        raise PropertyCannotBeSet(self._id)
 
 
 class PluginIOInfo(EventModel):
-- 
2.43.0


From 8aedd087547ceb6896fb36bc89ce36c814616ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:42 +0000
Subject: [PATCH 07/41] fix: Reverb.mix setter added to the current mix

---
 pyflp/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index ae0c53f..c50f9c4 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,7 +651,7 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
-        self.events.first(ChannelID.Reverb).value += value
+        self.events.first(ChannelID.Reverb).value = self.type + value
 
 
 class FX(EventModel, ModelReprMixin):
-- 
2.43.0


From 5000eae183c357b6eeb4500c6a355004c3149a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:01 +0000
Subject: [PATCH 08/41] fix: set a Note's key by its name

Assigning a key name raised a ValueError even if it was valid (and had already
been set by then). Sharp key names were mistaken for naturals.
---
 pyflp/pattern.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 60b8a4b..5a7335e 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -150,16 +150,16 @@ class Note(ItemModel[NotesEvent]):
 
     @key.setter
     def key(self, value: int | str) -> None:
-        if isinstance(value, int):
-            if value not in range(132):
-                raise ValueError("Expected a value between 0-131.")
-            self["key"] = value
-        else:
-            for i, name in enumerate(self._NOTE_NAMES):
-                if value.startswith(name):
-                    octave = int(value.replace(name, "", 1))
-                    self["key"] = octave * 12 + i
-            raise ValueError(f"Invalid key name: {value}")
+        if not isinstance(value, int):
+            name = value.rstrip("0123456789")
+            octave = value[len(name) :]
+            if name not in self._NOTE_NAMES or not octave:
+                raise ValueError(f"Invalid key name: {value}")
+            value = int(octave) * 12 + self._NOTE_NAMES.index(name)
+
+        if value not in range(132):
+            raise ValueError("Expected a value between 0-131.")
+        self["key"] = value
 
     length = StructProp[int]()
     """Returns 0 for notes punched in through step sequencer."""
-- 
2.43.0


From 0653dfdea25963f3069f8269a9a6026e26f843dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:33 +0000
Subject: [PATCH 09/41] fix: Slot.enabled and Slot.mix

Both raised an AttributeError whenever they were read or set. An Insert none of
whose parameters are stored raised a KeyError instead of returning None.
---
 pyflp/mixer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index be1688a..d806966 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -317,8 +317,10 @@ class Slot(EventModel):
     ![](https://bit.ly/3RUDtTu)
     """
 
-    def __init__(self, events: EventTree, params: list[dict[str, Any]] | None = None) -> None:
-        super().__init__(events, params=params or [])
+    def __init__(
+        self, events: EventTree, params: dict[int, dict[str, Any]] | None = None
+    ) -> None:
+        super().__init__(events, params=_InsertItems(own=params or {}))
 
     def __repr__(self) -> str:
         return f"Slot (name={self.name}, iid={self.index}, plugin={self.plugin!r})"
@@ -613,7 +615,7 @@ class Mixer(EventModel, ModelCollection[Insert]):
             if i in params:
                 yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
             else:
-                yield Insert(ed, iid=i - 1, max_slots=self.max_slots)
+                yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=_InsertItems())
 
     def __len__(self) -> int:
         """Returns the number of inserts present in the project.
-- 
2.43.0


From b75d5072caffcafc22a0bfc1c666ded2fb5367fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:37 +0000
Subject: [PATCH 10/41] fix: give every mixer slot its own events

SlotID.Index is the last event of a slot, not the first one: except for the first
slot, a slot's name, plugin etc. were those of the slot next to it.
---
 pyflp/_events.py | 15 +++++++++++++++
 pyflp/mixer.py   |  4 +++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index bb15692..70cb6d6 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -611,6 +611,21 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
+    @yields_child
+    def terminated(self, terminator: EventEnum, *ids: EventEnum) -> Iterator[EventTree]:
+        """Yields subtrees whose last event is a ``terminator``, unlike ``divide``."""
+        el: list[IndexedEvent] = []
+        for ie in self.lst:
+            if ie.e.id in ids:
+                el.append(ie)
+
+            if ie.e.id == terminator:
+                yield EventTree(self, el)
+                el = []
+
+        if el:  # Events left over after the last terminator
+            yield EventTree(self, el)
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index d806966..eb83ae9 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -411,7 +411,9 @@ class Insert(EventModel, ModelCollection[Slot]):
 
     def __iter__(self) -> Iterator[Slot]:
         """Iterator over the effect empty and used slots."""
-        for idx, ed in enumerate(self.events.divide(SlotID.Index, *SlotID, *PluginID)):
+        # SlotID.Index marks the end of a slot
+        slots = self.events.terminated(SlotID.Index, *SlotID, *PluginID)
+        for idx, ed in enumerate(slots):
             yield Slot(ed, params=self._kw["params"].slots[idx])
 
     def __len__(self) -> int:
-- 
2.43.0


From 1c7ffc95db97c38b8381ed89bd7e6ea913d8b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:41 +0000
Subject: [PATCH 11/41] fix: give every mixer insert its own output

InsertID.Output is the last event of an insert, not the first one: the output of
an insert was the one of the previous insert.
---
 pyflp/mixer.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index eb83ae9..da1ede3 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 
 import dataclasses
 import enum
+import itertools
 from collections import defaultdict
 from typing import Any, DefaultDict, Iterator, NamedTuple, cast
 
@@ -31,7 +32,6 @@ from pyflp._events import (
     DWORD,
     TEXT,
     WORD,
-    AnyEvent,
     ColorEvent,
     EventEnum,
     EventTree,
@@ -602,18 +602,16 @@ class Mixer(EventModel, ModelCollection[Insert]):
         raise ModelNotFound(i)
 
     def __iter__(self) -> Iterator[Insert]:
-        def select(e: AnyEvent) -> bool | None:
-            if e.id == InsertID.Output:
-                return False
-
-            if e.id in (*InsertID, *PluginID, *SlotID):
-                return True
-
         params: dict[int, _InsertItems] = {}
         if MixerID.Params in self.events.ids:
             params = cast(MixerParamsEvent, self.events.first(MixerID.Params)).items_
 
-        for i, ed in enumerate(self.events.subtrees(select, self.max_inserts)):
+        # InsertID.Output marks the end of an insert
+        inserts = self.events.terminated(InsertID.Output, *InsertID, *PluginID, *SlotID)
+        for i, ed in enumerate(itertools.islice(inserts, self.max_inserts)):
+            if InsertID.Output not in ed:
+                break
+
             if i in params:
                 yield Insert(ed, iid=i - 1, max_slots=self.max_slots, params=params[i])
             else:
-- 
2.43.0


From 79b80528409383553e4798fbd1ea941247c89850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:58 +0000
Subject: [PATCH 12/41] fix: keep events of mixer slots out of the channel rack

The last channel also had the events of all plugins used in the mixer: its name,
color or plugin could be those of a mixer slot, and so could be what was set.
---
 pyflp/project.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index af6f29a..480f4bb 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -208,11 +208,17 @@ class Project(EventModel):
     def channels(self) -> ChannelRack:
         """Provides an iterator over channels and channel rack properties."""
 
-        def select(e: AnyEvent) -> bool | None:
+        inserts_began = False
+
+        def select(e: AnyEvent) -> Literal[True] | None:
+            nonlocal inserts_began
             if e.id == InsertID.Flags:
-                return False
+                inserts_began = True
+
+            if e.id in (*ChannelID, *DisplayGroupID, *RackID):
+                return True
 
-            if e.id in (*ChannelID, *DisplayGroupID, *PluginID, *RackID):
+            if e.id in PluginID and not inserts_began:
                 return True
 
         return ChannelRack(
-- 
2.43.0


From fb9ae24ddd64c4be22a33948d3532fb2c0846f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 13/41] fix: EventTree.append and insertions through nested
 views

Appending to a tree which wasn't empty raised an IndexError. An inserted event had
a separate index in every tree, of which only root's was adjusted by edits that
followed, so it got misplaced or couldn't be removed.
---
 pyflp/_events.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 70cb6d6..bb8e83d 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -536,7 +536,12 @@ class EventTree:
 
     def insert(self, pos: int, e: AnyEvent) -> None:
         """Inserts :attr:`ev` at :attr:`pos` in this and all parent trees."""
-        rootidx = sorted(self.indexes)[pos] if len(self) else 0
+        if not len(self):
+            rootidx = 0
+        elif pos == len(self):
+            rootidx = self.lst[-1].r + 1
+        else:
+            rootidx = self.lst[pos].r
 
         # Shift all root indexes after rootidx by +1 to prevent collisions
         # while sorting the entire list by root indexes before serialising.
@@ -544,7 +549,9 @@ class EventTree:
             if ie.r >= rootidx:
                 ie.r += 1
 
-        self._recursive(lambda et: et.lst.add(IndexedEvent(rootidx, e)))  # type: ignore
+        # Shared by all trees, so that it gets shifted in all of them.
+        ie = IndexedEvent(rootidx, e)
+        self._recursive(lambda et: et.lst.add(ie))  # type: ignore
 
     def pop(self, id: EventEnum, pos: int = 0) -> AnyEvent:
         """Pops the event with ``id`` at ``pos`` in ``self`` and all parents."""
-- 
2.43.0


From eb250bce304dd080cafa97ed4e76ad728d2c48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 14/41] fix: don't remove another event if one was already
 removed

An event removed through one tree is still listed by the others. Removing it again
removed the event which has the same index now from the parents.
---
 pyflp/_events.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index bb8e83d..fea87f4 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -559,6 +559,9 @@ class EventTree:
             raise KeyError(id)
 
         ie = [ie for ie in self.lst if ie.e.id == id][pos]
+        if not any(root_ie is ie for root_ie in self.root.lst):
+            raise KeyError(id)  # Has been removed through another tree
+
         self._recursive(lambda et: et.lst.remove(ie))
 
         # Shift all root indexes of events after rootidx by -1.
-- 
2.43.0


From 5a5210424cfdbf45ca923f35a9e18551469dca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 15/41] fix: EventTree += event replaced the tree by None

---
 pyflp/_events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index fea87f4..a3cc20a 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -29,7 +29,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, Final, Generic, Tuple, cast
 
 import construct as c
 from sortedcontainers import SortedList
-from typing_extensions import Concatenate, TypeAlias
+from typing_extensions import Concatenate, Self, TypeAlias
 
 from pyflp.exceptions import (
     EventIDOutOfRange,
@@ -463,10 +463,11 @@ class EventTree:
 
         return self.lst == o.lst
 
-    def __iadd__(self, *events: AnyEvent) -> None:
+    def __iadd__(self, *events: AnyEvent) -> Self:
         """Analogous to :meth:`list.extend`."""
         for event in events:
             self.append(event)
+        return self
 
     def __iter__(self) -> Iterator[AnyEvent]:
         return (ie.e for ie in self.lst)
-- 
2.43.0


From b736722613b169f371c2ead04b3fdfd2494d4303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 16/41] fix: reject item properties which aren't stored

PLItemBase.muted isn't a part of the playlist item struct. Setting it appeared to
succeed, but it wasn't saved.
---
 pyflp/_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/_models.py b/pyflp/_models.py
index 52a5c91..d46c693 100644
--- a/pyflp/_models.py
+++ b/pyflp/_models.py
@@ -62,6 +62,9 @@ class ItemModel(ModelBase, Generic[VE]):
         return self._item[prop]
 
     def __setitem__(self, prop: str, value: Any) -> None:
+        if prop not in self._item:
+            raise KeyError(prop)
+
         self._item[prop] = value
 
         if not isinstance(self._parent, ListEventBase):
-- 
2.43.0


From bc4c115a1eae842a08f82671bf8f2b59a7ab77bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 17/41] fix: a failed assignment of a playlist item's channel /
 pattern

It was still returned by the item afterwards.
---
 pyflp/arrangement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 50f259c..a353809 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -211,8 +211,8 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
-        self._kw["channel"] = channel
         self["item_index"] = channel.iid
+        self._kw["channel"] = channel
 
 
 class PatternPLItem(PLItemBase, ModelReprMixin):
@@ -227,8 +227,8 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
-        self._kw["pattern"] = pattern
         self["item_index"] = pattern.iid + self["pattern_base"]
+        self._kw["pattern"] = pattern
 
 
 class _TrackColorProp(StructProp[RGBA]):
-- 
2.43.0


From 4e9a10ff043a69f8cc8d7ede3cc113e7dcaa0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:39 +0000
Subject: [PATCH 18/41] fix: Arrangements.loop_pos got half set if it can't be
 set entirely

---
 pyflp/arrangement.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index a353809..480272f 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -529,6 +529,8 @@ class Arrangements(EventModel, ModelCollection[Arrangement]):
     def loop_pos(self, value: tuple[int, int]) -> None:
         if ArrangementsID.PLSelection in self.events:
             event = cast(PLSelectionEvent, self.events.first(ArrangementsID.PLSelection))
+            if event["end"] is None:
+                raise PropertyCannotBeSet(ArrangementsID.PLSelection)
             event["start"], event["end"] = value
         elif ArrangementsID._LoopPos in self.events:
             self.events.first(ArrangementsID._LoopPos).value = value
-- 
2.43.0


From 0ce559c21fbcd0a2ec92ffcce00f0f2194a1980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:59 +0000
Subject: [PATCH 19/41] fix: copy a plugin which gets assigned to another slot
 or channel

Both shared the same events afterwards, even if they belong to different projects:
an edit of one plugin changed the other one as well.
---
 pyflp/plugin.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 5ed26e6..a78e118 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -15,6 +15,7 @@
 
 from __future__ import annotations
 
+import copy
 import enum
 import warnings
 from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cast, runtime_checkable
@@ -439,13 +440,18 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        # Copied, or else the plugin will be shared with where it came from.
+        copies = [
+            (ie, copy.deepcopy(value.events.first(ie.e.id)))
+            for ie in ins.events.lst
+            if ie.e.id in (PluginID.Data, PluginID.Wrapper)
+        ]
+
         if isinstance(value, _IPlugin):
             setattr(ins, "internal_name", value.INTERNAL_NAME)
 
-        for id in (PluginID.Data, PluginID.Wrapper):
-            for ie in ins.events.lst:
-                if ie.e.id == id:
-                    ie.e = value.events.first(id)
+        for ie, event in copies:
+            ie.e = event
 
 
 class _NativePluginProp(StructProp[T]):
-- 
2.43.0


From 0e034334ff3f5e9390b663e159e204e384efa11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:02 +0000
Subject: [PATCH 20/41] fix: saving a value that doesn't fit must fail instead
 of corrupting the event

construct.Optional leaves a field out if its value cannot be built. Values of the
wrong type or out of range, e.g. channel.volume = 2 ** 40, were therefore saved by
omitting that field and shifting all the fields after it. Also, an absent flag was
built as a zero byte, so editing a struct saved by an older version appended junk.
---
 pyflp/_adapters.py   |  16 +++++
 pyflp/arrangement.py |  36 +++++-----
 pyflp/channel.py     | 156 +++++++++++++++++++++----------------------
 pyflp/controller.py  |  15 +++--
 pyflp/mixer.py       |   8 +--
 pyflp/plugin.py      |  32 ++++-----
 6 files changed, 140 insertions(+), 123 deletions(-)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 5d3b898..1063e9d 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -31,6 +31,22 @@ FourByteBool: c.ExprAdapter[int, int, bool, int] = c.ExprAdapter(
 )
 
 
+class Maybe(c.Select):
+    """A field absent from older versions, parsed as ``None``.
+
+    Unlike :func:`construct.Optional`, only ``None`` is left out while building. A
+    value which cannot be built is an error, instead of shifting all that follows.
+    """
+
+    def __init__(self, subcon: Any) -> None:
+        super().__init__(subcon, c.Pass)
+
+    def _build(self, obj: Any, stream: c.StreamType, context: Any, path: str) -> Any:
+        if obj is None:
+            return None
+        return self.subcons[0]._build(obj, stream, context, path)  # type: ignore
+
+
 class List2Tuple(SimpleAdapter[Any, Tuple[int, int]]):
     def _decode(self, obj: c.ListContainer[int], *_: Any) -> tuple[int, int]:
         _1, _2 = tuple(obj)
diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 480272f..98be809 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -22,7 +22,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import EventProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -64,7 +64,7 @@ __all__ = [
 
 
 class PLSelectionEvent(StructEventBase):
-    STRUCT = c.Struct("start" / c.Optional(c.Int32ul), "end" / c.Optional(c.Int32ul)).compile()
+    STRUCT = c.Struct("start" / Maybe(c.Int32ul), "end" / Maybe(c.Int32ul)).compile()
 
 
 class PlaylistEvent(ListEventBase):
@@ -130,22 +130,22 @@ class HeightAdapter(ct.Adapter[float, float, str, str]):
 
 class TrackEvent(StructEventBase):
     STRUCT = c.Struct(
-        "iid" / c.Optional(c.Int32ul),  # 4
-        "color" / c.Optional(c.Int32ul),  # 8
-        "icon" / c.Optional(c.Int32ul),  # 12
-        "enabled" / c.Optional(c.Flag),  # 13
-        "height" / c.Optional(HeightAdapter(c.Float32l)),  # 17
-        "locked_height" / c.Optional(c.Int32sl),  # 21
-        "content_locked" / c.Optional(c.Flag),  # 22
-        "motion" / c.Optional(StdEnum[TrackMotion](c.Int32ul)),  # 26
-        "press" / c.Optional(StdEnum[TrackPress](c.Int32ul)),  # 30
-        "trigger_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 34
-        "queued" / c.Optional(FourByteBool),  # 38
-        "tolerant" / c.Optional(FourByteBool),  # 42
-        "position_sync" / c.Optional(StdEnum[TrackSync](c.Int32ul)),  # 46
-        "grouped" / c.Optional(c.Flag),  # 47
-        "locked" / c.Optional(c.Flag),  # 48
-        "_u1" / c.Optional(c.GreedyBytes),  # * 66 as of 20.9.1
+        "iid" / Maybe(c.Int32ul),  # 4
+        "color" / Maybe(c.Int32ul),  # 8
+        "icon" / Maybe(c.Int32ul),  # 12
+        "enabled" / Maybe(c.Flag),  # 13
+        "height" / Maybe(HeightAdapter(c.Float32l)),  # 17
+        "locked_height" / Maybe(c.Int32sl),  # 21
+        "content_locked" / Maybe(c.Flag),  # 22
+        "motion" / Maybe(StdEnum[TrackMotion](c.Int32ul)),  # 26
+        "press" / Maybe(StdEnum[TrackPress](c.Int32ul)),  # 30
+        "trigger_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 34
+        "queued" / Maybe(FourByteBool),  # 38
+        "tolerant" / Maybe(FourByteBool),  # 42
+        "position_sync" / Maybe(StdEnum[TrackSync](c.Int32ul)),  # 46
+        "grouped" / Maybe(c.Flag),  # 47
+        "locked" / Maybe(c.Flag),  # 48
+        "_u1" / Maybe(c.GreedyBytes),  # * 66 as of 20.9.1
     ).compile()
 
 
diff --git a/pyflp/channel.py b/pyflp/channel.py
index c50f9c4..432124b 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -22,7 +22,7 @@ from typing import Any, Iterator, Literal, Tuple, cast
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, StdEnum
+from pyflp._adapters import LinearMusical, List2Tuple, Log2, LogNormal, Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NestedProp, StructProp
 from pyflp._events import (
     DATA,
@@ -121,11 +121,11 @@ class AutomationEvent(StructEventBase):
 
 class DelayEvent(StructEventBase):
     STRUCT = c.Struct(
-        "feedback" / c.Optional(c.Int32ul),
-        "pan" / c.Optional(c.Int32sl),
-        "pitch_shift" / c.Optional(c.Int32sl),
-        "echoes" / c.Optional(c.Int32ul),
-        "time" / c.Optional(c.Int32ul),
+        "feedback" / Maybe(c.Int32ul),
+        "pan" / Maybe(c.Int32sl),
+        "pitch_shift" / Maybe(c.Int32sl),
+        "echoes" / Maybe(c.Int32ul),
+        "time" / Maybe(c.Int32ul),
     ).compile()
 
 
@@ -149,33 +149,33 @@ class LFOShape(ct.EnumBase):
 # FL Studio 2.5.0+
 class EnvelopeLFOEvent(StructEventBase):
     STRUCT = c.Struct(
-        "flags" / c.Optional(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
-        "envelope.enabled" / c.Optional(c.Int32sl),  # 8
-        "envelope.predelay" / c.Optional(c.Int32sl),  # 12
-        "envelope.attack" / c.Optional(c.Int32sl),  # 16
-        "envelope.hold" / c.Optional(c.Int32sl),  # 20
-        "envelope.decay" / c.Optional(c.Int32sl),  # 24
-        "envelope.sustain" / c.Optional(c.Int32sl),  # 28
-        "envelope.release" / c.Optional(c.Int32sl),  # 32
-        "envelope.amount" / c.Optional(c.Int32sl),  # 36
-        "lfo.predelay" / c.Optional(c.Int32ul),  # 40
-        "lfo.attack" / c.Optional(c.Int32ul),  # 44
-        "lfo.amount" / c.Optional(c.Int32sl),  # 48
-        "lfo.speed" / c.Optional(c.Int32ul),  # 52
-        "lfo.shape" / c.Optional(StdEnum[LFOShape](c.Int32sl)),  # 56
-        "envelope.attack_tension" / c.Optional(c.Int32sl),  # 60
-        "envelope.decay_tension" / c.Optional(c.Int32sl),  # 64
-        "envelope.release_tension" / c.Optional(c.Int32sl),  # 68
+        "flags" / Maybe(StdEnum[_EnvLFOFlags](c.Int32sl)),  # 4
+        "envelope.enabled" / Maybe(c.Int32sl),  # 8
+        "envelope.predelay" / Maybe(c.Int32sl),  # 12
+        "envelope.attack" / Maybe(c.Int32sl),  # 16
+        "envelope.hold" / Maybe(c.Int32sl),  # 20
+        "envelope.decay" / Maybe(c.Int32sl),  # 24
+        "envelope.sustain" / Maybe(c.Int32sl),  # 28
+        "envelope.release" / Maybe(c.Int32sl),  # 32
+        "envelope.amount" / Maybe(c.Int32sl),  # 36
+        "lfo.predelay" / Maybe(c.Int32ul),  # 40
+        "lfo.attack" / Maybe(c.Int32ul),  # 44
+        "lfo.amount" / Maybe(c.Int32sl),  # 48
+        "lfo.speed" / Maybe(c.Int32ul),  # 52
+        "lfo.shape" / Maybe(StdEnum[LFOShape](c.Int32sl)),  # 56
+        "envelope.attack_tension" / Maybe(c.Int32sl),  # 60
+        "envelope.decay_tension" / Maybe(c.Int32sl),  # 64
+        "envelope.release_tension" / Maybe(c.Int32sl),  # 68
     ).compile()
 
 
 class LevelAdjustsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "_u1" / c.Optional(c.Int32ul),  # 12
-        "mod_x" / c.Optional(c.Int32sl),  # 16
-        "mod_y" / c.Optional(c.Int32sl),  # 20
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "_u1" / Maybe(c.Int32ul),  # 12
+        "mod_x" / Maybe(c.Int32sl),  # 16
+        "mod_y" / Maybe(c.Int32sl),  # 20
     ).compile()
 
 
@@ -192,12 +192,12 @@ class FilterType(ct.EnumBase):
 
 class LevelsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "pan" / c.Optional(c.Int32sl),  # 4
-        "volume" / c.Optional(c.Int32ul),  # 8
-        "pitch_shift" / c.Optional(c.Int32sl),  # 12
-        "filter.mod_x" / c.Optional(c.Int32ul),  # 16
-        "filter.mod_y" / c.Optional(c.Int32ul),  # 20
-        "filter.type" / c.Optional(StdEnum[FilterType](c.Int32ul)),  # 24
+        "pan" / Maybe(c.Int32sl),  # 4
+        "volume" / Maybe(c.Int32ul),  # 8
+        "pitch_shift" / Maybe(c.Int32sl),  # 12
+        "filter.mod_x" / Maybe(c.Int32ul),  # 16
+        "filter.mod_y" / Maybe(c.Int32ul),  # 20
+        "filter.type" / Maybe(StdEnum[FilterType](c.Int32ul)),  # 24
     ).compile()
 
 
@@ -246,43 +246,43 @@ class StretchMode(ct.EnumBase):
 
 class ParametersEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "fx.remove_dc" / c.Optional(c.Flag),  # 10
-        "delay.flags" / c.Optional(StdEnum[_DelayFlags](c.Int8ul)),  # 11
-        "keyboard.main_pitch" / c.Optional(c.Flag),  # 12
-        "_u2" / c.Optional(c.Bytes(28)),  # 40
-        "arp.direction" / c.Optional(StdEnum[ArpDirection](c.Int32ul)),  # 44
-        "arp.range" / c.Optional(c.Int32ul),  # 48
-        "arp.chord" / c.Optional(c.Int32ul),  # 52
-        "arp.time" / c.Optional(c.Float32l),  # 56
-        "arp.gate" / c.Optional(c.Float32l),  # 60
-        "arp.slide" / c.Optional(c.Flag),  # 61
-        "_u3" / c.Optional(c.Bytes(1)),  # 62
-        "time.full_porta" / c.Optional(c.Flag),  # 63
-        "keyboard.add_root" / c.Optional(c.Flag),  # 64
-        "time.gate" / c.Optional(c.Int16ul),  # 66
-        "_u4" / c.Optional(c.Bytes(2)),  # 68
-        "keyboard.key_region" / c.Optional(List2Tuple(c.Int32ul[2])),  # 76
-        "_u5" / c.Optional(c.Bytes(4)),  # 80
-        "fx.normalize" / c.Optional(c.Flag),  # 81
-        "fx.inverted" / c.Optional(c.Flag),  # 82
-        "_u6" / c.Optional(c.Bytes(1)),  # 83
-        "content.declick_mode" / c.Optional(StdEnum[DeclickMode](c.Int8ul)),  # 84
-        "fx.crossfade" / c.Optional(c.Int32ul),  # 88
-        "fx.trim" / c.Optional(c.Int32ul),  # 92
-        "arp.repeat" / c.Optional(c.Int32ul),  # 96; FL 4.5.2+
-        "stretching.time" / c.Optional(LinearMusical(c.Int32ul)),  # 100
-        "stretching.pitch" / c.Optional(c.Int32sl),  # 104
-        "stretching.multiplier" / c.Optional(Log2(c.Int32sl, 10000)),  # 108
-        "stretching.mode" / c.Optional(StdEnum[StretchMode](c.Int32sl)),  # 112
-        "_u7" / c.Optional(c.Bytes(21)),  # 133
-        "fx.start" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
-        "_u8" / c.Optional(c.Bytes(4)),  # 141
-        "fx.length" / c.Optional(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
-        "_u9" / c.Optional(c.Bytes(3)),  # 148
-        "playback.start_offset" / c.Optional(c.Int32ul),  # 152
-        "_u10" / c.Optional(c.Bytes(5)),  # 157
-        "fx.fix_trim" / c.Optional(c.Flag),  # 158 (FL 20.8.4 max)
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "fx.remove_dc" / Maybe(c.Flag),  # 10
+        "delay.flags" / Maybe(StdEnum[_DelayFlags](c.Int8ul)),  # 11
+        "keyboard.main_pitch" / Maybe(c.Flag),  # 12
+        "_u2" / Maybe(c.Bytes(28)),  # 40
+        "arp.direction" / Maybe(StdEnum[ArpDirection](c.Int32ul)),  # 44
+        "arp.range" / Maybe(c.Int32ul),  # 48
+        "arp.chord" / Maybe(c.Int32ul),  # 52
+        "arp.time" / Maybe(c.Float32l),  # 56
+        "arp.gate" / Maybe(c.Float32l),  # 60
+        "arp.slide" / Maybe(c.Flag),  # 61
+        "_u3" / Maybe(c.Bytes(1)),  # 62
+        "time.full_porta" / Maybe(c.Flag),  # 63
+        "keyboard.add_root" / Maybe(c.Flag),  # 64
+        "time.gate" / Maybe(c.Int16ul),  # 66
+        "_u4" / Maybe(c.Bytes(2)),  # 68
+        "keyboard.key_region" / Maybe(List2Tuple(c.Int32ul[2])),  # 76
+        "_u5" / Maybe(c.Bytes(4)),  # 80
+        "fx.normalize" / Maybe(c.Flag),  # 81
+        "fx.inverted" / Maybe(c.Flag),  # 82
+        "_u6" / Maybe(c.Bytes(1)),  # 83
+        "content.declick_mode" / Maybe(StdEnum[DeclickMode](c.Int8ul)),  # 84
+        "fx.crossfade" / Maybe(c.Int32ul),  # 88
+        "fx.trim" / Maybe(c.Int32ul),  # 92
+        "arp.repeat" / Maybe(c.Int32ul),  # 96; FL 4.5.2+
+        "stretching.time" / Maybe(LinearMusical(c.Int32ul)),  # 100
+        "stretching.pitch" / Maybe(c.Int32sl),  # 104
+        "stretching.multiplier" / Maybe(Log2(c.Int32sl, 10000)),  # 108
+        "stretching.mode" / Maybe(StdEnum[StretchMode](c.Int32sl)),  # 112
+        "_u7" / Maybe(c.Bytes(21)),  # 133
+        "fx.start" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 137
+        "_u8" / Maybe(c.Bytes(4)),  # 141
+        "fx.length" / Maybe(LogNormal(c.Int16ul[2], (0, 61440))),  # 145
+        "_u9" / Maybe(c.Bytes(3)),  # 148
+        "playback.start_offset" / Maybe(c.Int32ul),  # 152
+        "_u10" / Maybe(c.Bytes(5)),  # 157
+        "fx.fix_trim" / Maybe(c.Flag),  # 158 (FL 20.8.4 max)
         "_extra" / c.GreedyBytes,  # * 168 as of 20.9.1
     )
 
@@ -296,18 +296,18 @@ class _PolyphonyFlags(enum.IntFlag):
 
 class PolyphonyEvent(StructEventBase):
     STRUCT = c.Struct(
-        "max" / c.Optional(c.Int32ul),  # 4
-        "slide" / c.Optional(c.Int32ul),  # 8
-        "flags" / c.Optional(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
+        "max" / Maybe(c.Int32ul),  # 4
+        "slide" / Maybe(c.Int32ul),  # 8
+        "flags" / Maybe(StdEnum[_PolyphonyFlags](c.Byte)),  # 9
     ).compile()
 
 
 class TrackingEvent(StructEventBase):
     STRUCT = c.Struct(
-        "middle_value" / c.Optional(c.Int32ul),  # 4
-        "pan" / c.Optional(c.Int32sl),  # 8
-        "mod_x" / c.Optional(c.Int32sl),  # 12
-        "mod_y" / c.Optional(c.Int32sl),  # 16
+        "middle_value" / Maybe(c.Int32ul),  # 4
+        "pan" / Maybe(c.Int32sl),  # 8
+        "mod_x" / Maybe(c.Int32sl),  # 12
+        "mod_y" / Maybe(c.Int32sl),  # 16
     ).compile()
 
 
diff --git a/pyflp/controller.py b/pyflp/controller.py
index e0fa90e..c01e7cb 100644
--- a/pyflp/controller.py
+++ b/pyflp/controller.py
@@ -20,6 +20,7 @@ from typing import cast
 
 import construct as c
 
+from pyflp._adapters import Maybe
 from pyflp._events import DATA, EventEnum, StructEventBase
 from pyflp._models import EventModel, ModelReprMixin
 
@@ -32,13 +33,13 @@ class MIDIControllerEvent(StructEventBase):
 
 class RemoteControllerEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(2)),  # 2
-        "_u2" / c.Optional(c.Byte),  # 3
-        "_u3" / c.Optional(c.Byte),  # 4
-        "parameter_data" / c.Optional(c.Int16ul),  # 6
-        "destination_data" / c.Optional(c.Int16sl),  # 8
-        "_u4" / c.Optional(c.Bytes(8)),  # 16
-        "_u5" / c.Optional(c.Bytes(4)),  # 20
+        "_u1" / Maybe(c.Bytes(2)),  # 2
+        "_u2" / Maybe(c.Byte),  # 3
+        "_u3" / Maybe(c.Byte),  # 4
+        "parameter_data" / Maybe(c.Int16ul),  # 6
+        "destination_data" / Maybe(c.Int16sl),  # 8
+        "_u4" / Maybe(c.Bytes(8)),  # 16
+        "_u5" / Maybe(c.Bytes(4)),  # 20
     ).compile()
 
 
diff --git a/pyflp/mixer.py b/pyflp/mixer.py
index da1ede3..632bea2 100644
--- a/pyflp/mixer.py
+++ b/pyflp/mixer.py
@@ -25,7 +25,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import NotRequired, TypedDict, Unpack
 
-from pyflp._adapters import StdEnum
+from pyflp._adapters import Maybe, StdEnum
 from pyflp._descriptors import EventProp, FlagProp, NamedPropMixin, ROProperty, RWProperty
 from pyflp._events import (
     DATA,
@@ -104,9 +104,9 @@ class _MixerParamsID(ct.EnumBase):
 
 class InsertFlagsEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(4)),  # 4
-        "flags" / c.Optional(StdEnum[_InsertFlags](c.Int32ul)),  # 8
-        "_u2" / c.Optional(c.Bytes(4)),  # 12
+        "_u1" / Maybe(c.Bytes(4)),  # 4
+        "flags" / Maybe(StdEnum[_InsertFlags](c.Int32ul)),  # 8
+        "_u2" / Maybe(c.Bytes(4)),  # 12
     ).compile()
 
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index a78e118..ae36a35 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -23,7 +23,7 @@ from typing import Any, ClassVar, Dict, Generic, Literal, Protocol, TypeVar, cas
 import construct as c
 import construct_typed as ct
 
-from pyflp._adapters import FourByteBool, StdEnum
+from pyflp._adapters import FourByteBool, Maybe, StdEnum
 from pyflp._descriptors import FlagProp, NamedPropMixin, RWProperty, StructProp
 from pyflp._events import (
     DATA,
@@ -213,13 +213,13 @@ class WrapperPage(ct.EnumBase):
 
 class WrapperEvent(StructEventBase):
     STRUCT = c.Struct(
-        "_u1" / c.Optional(c.Bytes(16)),  # 16
-        "flags" / c.Optional(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
-        "_u2" / c.Optional(c.Bytes(2)),  # 20
-        "page" / c.Optional(StdEnum[WrapperPage](c.Int8ul)),  # 21
-        "_u3" / c.Optional(c.Bytes(23)),  # 44
-        "width" / c.Optional(c.Int32ul),  # 48
-        "height" / c.Optional(c.Int32ul),  # 52
+        "_u1" / Maybe(c.Bytes(16)),  # 16
+        "flags" / Maybe(StdEnum[_WrapperFlags](c.Int16ul)),  # 18
+        "_u2" / Maybe(c.Bytes(2)),  # 20
+        "page" / Maybe(StdEnum[WrapperPage](c.Int8ul)),  # 21
+        "_u3" / Maybe(c.Bytes(23)),  # 44
+        "width" / Maybe(c.Int32ul),  # 48
+        "height" / Maybe(c.Int32ul),  # 52
         "_extra" / c.GreedyBytes,  # None as of 20.9.2
     ).compile()
 
@@ -271,18 +271,18 @@ class _VSTFlags2(enum.IntFlag):
 
 class VSTPluginEvent(StructEventBase):
     _MIDIStruct = c.Struct(
-        "input" / c.Optional(c.Int32sl),  # 4
-        "output" / c.Optional(c.Int32sl),  # 8
-        "pb_range" / c.Optional(c.Int32ul),  # 12
+        "input" / Maybe(c.Int32sl),  # 4
+        "output" / Maybe(c.Int32sl),  # 8
+        "pb_range" / Maybe(c.Int32ul),  # 12
         "_extra" / c.GreedyBytes,  # upto 20
     ).compile()
 
     _FlagsStruct = c.Struct(
-        "_u1" / c.Optional(c.Bytes(9)),  # 9
-        "flags" / c.Optional(StdEnum[_VSTFlags](c.Int32ul)),  # 13
-        "flags2" / c.Optional(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
-        "_u2" / c.Optional(c.Bytes(5)),  # 22
-        "fast_idle" / c.Optional(c.Flag),  # 23
+        "_u1" / Maybe(c.Bytes(9)),  # 9
+        "flags" / Maybe(StdEnum[_VSTFlags](c.Int32ul)),  # 13
+        "flags2" / Maybe(StdEnum[_VSTFlags2](c.Int32ul)),  # 17
+        "_u2" / Maybe(c.Bytes(5)),  # 22
+        "fast_idle" / Maybe(c.Flag),  # 23
         "_extra" / c.GreedyBytes,
     ).compile()
 
-- 
2.43.0


From 4032c8f446b898e4521417ddec0333e04046ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:06 +0000
Subject: [PATCH 21/41] fix: reject None for struct properties

None stands for an absent field, so it was left out while saving, shifting all the
fields which follow it.
---
 pyflp/_events.py | 3 +++
 pyflp/plugin.py  | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index a3cc20a..db881e8 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -363,6 +363,9 @@ class StructEventBase(EventBase[AnyContainer], AnyDict):
         if self[key] is None:
             raise PropertyCannotBeSet
 
+        if value is None:
+            raise ValueError(f"{key!r} cannot be None")
+
         self.data[key] = value
 
 
diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index ae36a35..49f1e5a 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -482,10 +482,12 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
             if e["id"] == self._id:
                 if isinstance(e["data"], (str, bytes)):
                     e["data"] = value
-                elif e["data"][self._prop] is not None:
-                    e["data"][self._prop] = value
-                else:
+                elif e["data"][self._prop] is None:
                     break
+                elif value is None:
+                    raise ValueError(f"{self._prop!r} cannot be None")
+                else:
+                    e["data"][self._prop] = value
                 return
         raise PropertyCannotBeSet(self._id)
 
-- 
2.43.0


From ab7662c4aecbfc176f2ef7df6d8eabf40861b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 22/41] fix: arpeggiator properties looked up keys which do not
 exist

---
 pyflp/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 432124b..f5002ae 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -448,26 +448,26 @@ class Arp(EventModel, ModelReprMixin):
     ![](https://bit.ly/3Lbk7Yi)
     """
 
-    chord = StructProp[int]()
+    chord = StructProp[int](prop="arp.chord")
     """Index of the selected arpeggio chord."""
 
-    direction = StructProp[ArpDirection]()
-    gate = StructProp[float]()
+    direction = StructProp[ArpDirection](prop="arp.direction")
+    gate = StructProp[float](prop="arp.gate")
     """Delay between two successive notes played."""
 
-    range = StructProp[int]()
+    range = StructProp[int](prop="arp.range")
     """Range (in octaves)."""
 
-    repeat = StructProp[int]()
+    repeat = StructProp[int](prop="arp.repeat")
     """Number of times a note is repeated.
 
     *New in FL Studio v4.5.2*.
     """
 
-    slide = StructProp[bool]()
+    slide = StructProp[bool](prop="arp.slide")
     """Whether arpeggio will slide between notes."""
 
-    time = StructProp[float]()
+    time = StructProp[float](prop="arp.time")
     """Delay between two successive notes played."""
 
 
-- 
2.43.0


From c16c19bec4550857f921de79403225bc0dc92215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:04 +0000
Subject: [PATCH 23/41] fix: children of a layer were unknown until the rack
 got iterated entirely

---
 pyflp/channel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index f5002ae..f7165ae 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1560,6 +1560,7 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
     def __iter__(self) -> Iterator[Channel]:
         """Yields all the channels found in the project."""
         ch_dict: dict[int, Channel] = {}
+        channels: list[Channel] = []
         groups = [DisplayGroup(et) for et in self.events.separate(DisplayGroupID.Name)]
 
         for et in self.events.divide(ChannelID.New, *ChannelID, *PluginID):
@@ -1584,7 +1585,10 @@ class ChannelRack(EventModel, ModelCollection[Channel]):
 
             if iid is not None:
                 cur_ch = ch_dict[iid] = ct(et, channels=ch_dict, group=groups[groupnum])
-                yield cur_ch
+                channels.append(cur_ch)
+
+        # A layer can have children which come after it
+        yield from channels
 
     def __len__(self) -> int:
         """Returns the number of channels found in the project.
-- 
2.43.0


From 056720bb40a43aec2d1b8eb26557e69b9999e583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:08 +0000
Subject: [PATCH 24/41] fix: compare versions of which only one has a build
 number

---
 pyflp/types.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyflp/types.py b/pyflp/types.py
index a9f4632..68f2173 100644
--- a/pyflp/types.py
+++ b/pyflp/types.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import enum
+import functools
 from collections import UserDict, UserList
 from dataclasses import dataclass
 from typing import Any, NamedTuple, TypeVar, Union, TYPE_CHECKING
@@ -29,13 +30,25 @@ ET = TypeVar("ET", bound=Union[ct.EnumBase, enum.IntFlag])
 T_co = TypeVar("T_co", covariant=True)
 
 
-@dataclass(frozen=True, order=True)
+@functools.total_ordering
+@dataclass(frozen=True)
 class FLVersion:
     major: int
     minor: int = 0
     patch: int = 0
     build: int | None = None
 
+    def __lt__(self, o: object) -> bool:
+        if not isinstance(o, FLVersion):
+            return NotImplemented
+        # A version without a build number precedes all the builds of it
+        return (self.major, self.minor, self.patch, -1 if self.build is None else self.build) < (
+            o.major,
+            o.minor,
+            o.patch,
+            -1 if o.build is None else o.build,
+        )
+
     def __str__(self) -> str:
         version = f"{self.major}.{self.minor}.{self.patch}"
         if self.build is not None:
-- 
2.43.0


From e9729c164b0c39e266e65a4240880c21c31bfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:31 +0000
Subject: [PATCH 25/41] fix: a playlist item showed another channel / pattern
 than it stores

---
 pyflp/arrangement.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 98be809..269800b 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -207,12 +207,12 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def channel(self) -> Channel:
-        return self._kw["channel"]
+        return self._kw["channels"][self["item_index"]]
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
         self["item_index"] = channel.iid
-        self._kw["channel"] = channel
+        self._kw["channels"][channel.iid] = channel
 
 
 class PatternPLItem(PLItemBase, ModelReprMixin):
@@ -223,12 +223,12 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def pattern(self) -> Pattern:
-        return self._kw["pattern"]
+        return self._kw["patterns"][self["item_index"] - self["pattern_base"]]
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
         self["item_index"] = pattern.iid + self["pattern_base"]
-        self._kw["pattern"] = pattern
+        self._kw["patterns"][pattern.iid] = pattern
 
 
 class _TrackColorProp(StructProp[RGBA]):
@@ -391,11 +391,9 @@ class Arrangement(EventModel):
                     continue
 
                 if item["item_index"] <= item["pattern_base"]:
-                    iid = item["item_index"]
-                    items.append(ChannelPLItem(item, i, pl_evt, channel=channels[iid]))
+                    items.append(ChannelPLItem(item, i, pl_evt, channels=channels))
                 else:
-                    num = item["item_index"] - item["pattern_base"]
-                    items.append(PatternPLItem(item, i, pl_evt, pattern=patterns[num]))
+                    items.append(PatternPLItem(item, i, pl_evt, patterns=patterns))
             yield Track(ed, items=items)
 
 
-- 
2.43.0


From 8b3f2171dc81ab19d1845350ecf2288449d33aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:08 +0000
Subject: [PATCH 26/41] fix: a VST property couldn't be set any more after an
 invalid value

---
 pyflp/plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 49f1e5a..733eca4 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -472,7 +472,7 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
         raise AttributeError(self._id)
 
     def _get(self, value: Any) -> T:
-        return cast(T, value if isinstance(value, (str, bytes)) else value[self._prop])
+        return cast(T, value[self._prop] if isinstance(value, c.Container) else value)
 
     def __set__(self, ins: EventModel, value: T) -> None:
         self._set(cast(VSTPluginEvent, ins.events.first(PluginID.Data)), value)
@@ -480,7 +480,7 @@ class _VSTPluginProp(RWProperty[T], NamedPropMixin):
     def _set(self, event: VSTPluginEvent, value: T) -> None:
         for e in event["events"]:
             if e["id"] == self._id:
-                if isinstance(e["data"], (str, bytes)):
+                if not isinstance(e["data"], c.Container):
                     e["data"] = value
                 elif e["data"][self._prop] is None:
                     break
-- 
2.43.0


From 3e8abd89138801826d0020ea63a8b9c146caad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:25 +0000
Subject: [PATCH 27/41] fix: reject a reverb mix which changes the reverb's
 type

---
 pyflp/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index f7165ae..31694c0 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -651,6 +651,9 @@ class Reverb(EventModel, ModelReprMixin):
         if ChannelID.Reverb not in self.events.ids:
             raise PropertyCannotBeSet(ChannelID.Reverb)
 
+        if not 0 <= value < ReverbType.B:  # would get mistaken for the type
+            raise ValueError("Expected a value between 0 and 65535")
+
         self.events.first(ChannelID.Reverb).value = self.type + value
 
 
-- 
2.43.0


From 996d27a0f583393a3ee68dc1080f2293b78a9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:51 +0000
Subject: [PATCH 28/41] fix: remove an event through a tree which shows
 another, removed one

---
 pyflp/_events.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index db881e8..7343630 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -566,7 +566,14 @@ class EventTree:
         if not any(root_ie is ie for root_ie in self.root.lst):
             raise KeyError(id)  # Has been removed through another tree
 
-        self._recursive(lambda et: et.lst.remove(ie))
+        def remove(et: EventTree) -> None:
+            # By identity; root indexes of events removed elsewhere are outdated.
+            for idx, et_ie in enumerate(et.lst):
+                if et_ie is ie:
+                    del et.lst[idx]
+                    break
+
+        self._recursive(remove)
 
         # Shift all root indexes of events after rootidx by -1.
         for root_ie in self.root.lst:
-- 
2.43.0


From 99925d82b46c8899afc83e588dc0c4afea2b38a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:54 +0000
Subject: [PATCH 29/41] fix: reject a plugin for a slot or channel which cannot
 store it

---
 pyflp/plugin.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 733eca4..218fb76 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -440,6 +440,9 @@ class PluginProp(RWProperty[AnyPlugin]):
                 return ptype(self._get_plugin_events(ins))
 
     def __set__(self, ins: EventModel, value: AnyPlugin) -> None:
+        if PluginID.Data not in ins.events:
+            raise PropertyCannotBeSet(PluginID.Data)
+
         # Copied, or else the plugin will be shared with where it came from.
         copies = [
             (ie, copy.deepcopy(value.events.first(ie.e.id)))
-- 
2.43.0


From ae5a4bb157b877bd2a274d06f741b48d7c6dca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 30/41] fix: reject strings which lose their trailing nulls

---
 pyflp/_events.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 7343630..1a0fd77 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -323,6 +323,12 @@ class StrEventBase(EventBase[str]):
         super().__init__(id, data)
 
 
+def _terminate(string: str) -> str:
+    if string.endswith("\0"):  # Indistinguishable from the terminator
+        raise ValueError("Strings cannot end with a null character")
+    return string + "\0"
+
+
 class AsciiEvent(StrEventBase):
     if TYPE_CHECKING:
         STRUCT: c.ExprAdapter[str, str, str, str]
@@ -330,7 +336,7 @@ class AsciiEvent(StrEventBase):
         STRUCT = c.ExprAdapter(
             c.GreedyString("ascii"),
             lambda obj, *_: obj.rstrip("\0"),
-            lambda obj, *_: obj + "\0",
+            lambda obj, *_: _terminate(obj),
         )
 
 
@@ -341,7 +347,7 @@ class UnicodeEvent(StrEventBase):
         STRUCT = c.ExprAdapter(
             c.GreedyString("utf-16-le"),
             lambda obj, *_: obj.rstrip("\0"),
-            lambda obj, *_: obj + "\0",
+            lambda obj, *_: _terminate(obj),
         )
 
 
-- 
2.43.0


From edc4e80a8059cf7ac6ac6c1d47369bf76592b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 31/41] fix: reject a licensee whose characters cannot be
 stored

---
 pyflp/project.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 480f4bb..f849b67 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -329,9 +329,11 @@ class Project(EventModel):
             c1 = ord(char) + 26 - idx
             c2 = ord(char) - 49 - idx
             for cp in c1, c2:
-                if 0 < cp <= 127:
+                if char.isalnum() and char.isascii() and 0 < cp <= 127:
                     licensee.append(cp)
                     break
+            else:
+                raise ValueError(f"{char!r} cannot be stored in a licensee")
         event.value = licensee.decode("ascii")
 
     looped = EventProp[bool](ProjectID.LoopActive)
-- 
2.43.0


From add97adc7ce9f7f29c3775d80e9b7f2b374c441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 32/41] fix: Arrangements.loop_pos got half set by a pair with
 a None

---
 pyflp/arrangement.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 269800b..6ec40be 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -529,7 +529,10 @@ class Arrangements(EventModel, ModelCollection[Arrangement]):
             event = cast(PLSelectionEvent, self.events.first(ArrangementsID.PLSelection))
             if event["end"] is None:
                 raise PropertyCannotBeSet(ArrangementsID.PLSelection)
-            event["start"], event["end"] = value
+            start, end = value
+            if start is None or end is None:
+                raise ValueError("Loop positions cannot be None")
+            event["start"], event["end"] = start, end
         elif ArrangementsID._LoopPos in self.events:
             self.events.first(ArrangementsID._LoopPos).value = value
         else:
-- 
2.43.0


From 666e7b208b53022c419f6b68a8564892ab26000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 33/41] fix: reject a version whose parts are not integers

---
 pyflp/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index f849b67..20021b6 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -546,7 +546,7 @@ class Project(EventModel):
         if len(parts) < 3 or len(parts) > 4:
             raise ValueError("Expected format: major.minor.build.patch?")
 
-        version = ".".join(str(part) for part in parts)
+        version = ".".join(f"{part:d}" for part in parts)
         self.events.first(ProjectID.FLVersion).value = version
         if len(parts) == 4 and ProjectID.FLBuild in self.events.ids:
             self.events.first(ProjectID.FLBuild).value = parts[3]
-- 
2.43.0


From ce1bb99b7ebcad82b16a24f54e8aaf65ab05f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 34/41] fix: reject a file format which parse does not

---
 pyflp/project.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyflp/project.py b/pyflp/project.py
index 20021b6..cb8aa05 100644
--- a/pyflp/project.py
+++ b/pyflp/project.py
@@ -24,7 +24,7 @@ import construct as c
 import construct_typed as ct
 from typing_extensions import TypedDict, Unpack
 
-from pyflp._descriptors import EventProp, KWProp
+from pyflp._descriptors import EventProp
 from pyflp._events import (
     DATA,
     DWORD,
@@ -248,8 +248,18 @@ class Project(EventModel):
             event = cast(TimestampEvent, self.events.first(ProjectID.Timestamp))
             return _DELPHI_EPOCH + datetime.timedelta(days=event["created_on"])
 
-    format = KWProp[FileFormat]()
-    """Internal format marker used by FL Studio to distinguish between types."""
+    @property
+    def format(self) -> FileFormat:
+        """Internal format marker used by FL Studio to distinguish between types.
+
+        Raises:
+            ValueError: When a value not in :class:`FileFormat` is tried to be set.
+        """
+        return self._kw["format"]
+
+    @format.setter
+    def format(self, value: FileFormat) -> None:
+        self._kw["format"] = FileFormat(value)
 
     @property
     def data_path(self) -> pathlib.Path | None:
-- 
2.43.0


From 67f6fc0746705f1160c65b1780fa803ba4484712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 35/41] fix: Sampler.sample_path stored "None" for None

---
 pyflp/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index 31694c0..d442999 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1527,7 +1527,8 @@ class Sampler(_SamplerInstrument):
         if self.sample_path is None:
             raise PropertyCannotBeSet(ChannelID.SamplePath)
 
-        path = "" if str(value) == "." else str(value)
+        path = str(pathlib.Path(value))
+        path = "" if path == "." else path
         self.events.first(ChannelID.SamplePath).value = path
 
     # TODO Find whether ChannelID._StretchTime was really used for attr ``time``.
-- 
2.43.0


From ce5a70d5cd78b4bc8edd0e56ec0a899f8c09c0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:32 +0000
Subject: [PATCH 36/41] fix: a number assigned to Track.color made it black

---
 pyflp/arrangement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index 6ec40be..ae4ff87 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -238,7 +238,7 @@ class _TrackColorProp(StructProp[RGBA]):
             return RGBA.from_bytes(value.to_bytes(4, "little"))
 
     def _set(self, ev_or_ins: Any, value: RGBA) -> None:
-        super()._set(ev_or_ins, int.from_bytes(bytes(value), "little"))  # type: ignore
+        super()._set(ev_or_ins, int.from_bytes(bytes(RGBA(*value)), "little"))  # type: ignore
 
 
 class _TrackKW(TypedDict):
-- 
2.43.0


From e97c7ca2800517572b11f8081cb22a53dd40f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:11 +0000
Subject: [PATCH 37/41] fix: saving an automation from two threads disturbed a
 shared stream position

Building a parsed AutomationEvent evaluates _get_position() on the stream the
event was parsed from, which moved its cursor; two threads saving the same
project raised StreamError or failed.
---
 pyflp/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyflp/channel.py b/pyflp/channel.py
index d442999..db1054e 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -84,12 +84,12 @@ class ChannelNotFound(ModelNotFound, KeyError):
 class AutomationEvent(StructEventBase):
     @staticmethod
     def _get_position(stream: c.StreamType, index: int) -> float:
-        cur = stream.tell()
+        # While building, the stream is the one parsed from; all threads share it.
+        data = stream.getvalue()
         position = 0.0
         for i in range(index + 1):
-            stream.seek(21 + (i * 24))
-            position += c.Float64l.parse_stream(stream)
-        stream.seek(cur)
+            start = 21 + (i * 24)
+            position += c.Float64l.parse(data[start : start + 8])
         return position
 
     STRUCT = c.Struct(
-- 
2.43.0


From 04d22119f90ba1860240cf26b83f6fbfc23b0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:04 +0000
Subject: [PATCH 38/41] fix: a kept playlist item or layer does not find a
 renumbered channel / pattern

The lookup tables are keyed by the IIDs at the time the model was made.
---
 pyflp/arrangement.py | 6 ++++--
 pyflp/channel.py     | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyflp/arrangement.py b/pyflp/arrangement.py
index ae4ff87..515833b 100644
--- a/pyflp/arrangement.py
+++ b/pyflp/arrangement.py
@@ -207,7 +207,8 @@ class ChannelPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def channel(self) -> Channel:
-        return self._kw["channels"][self["item_index"]]
+        channels = {channel.iid: channel for channel in self._kw["channels"].values()}
+        return channels[self["item_index"]]
 
     @channel.setter
     def channel(self, channel: Channel) -> None:
@@ -223,7 +224,8 @@ class PatternPLItem(PLItemBase, ModelReprMixin):
 
     @property
     def pattern(self) -> Pattern:
-        return self._kw["patterns"][self["item_index"] - self["pattern_base"]]
+        patterns = {pattern.iid: pattern for pattern in self._kw["patterns"].values()}
+        return patterns[self["item_index"] - self["pattern_base"]]
 
     @pattern.setter
     def pattern(self, pattern: Pattern) -> None:
diff --git a/pyflp/channel.py b/pyflp/channel.py
index db1054e..053f014 100644
--- a/pyflp/channel.py
+++ b/pyflp/channel.py
@@ -1361,8 +1361,9 @@ class Layer(Channel, ModelCollection[Channel]):
 
     def __iter__(self) -> Iterator[Channel]:
         if ChannelID.Children in self.events.ids:
+            channels = {channel.iid: channel for channel in self._kw["channels"].values()}
             for event in self.events.get(ChannelID.Children):
-                yield self._kw["channels"][event.value]
+                yield channels[event.value]
 
     def __len__(self) -> int:
         """Returns the number of channels whose parent this layer is."""
-- 
2.43.0


From c31327d2fd834e9e24aaf6c5e4734af09b31a4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:51 +0000
Subject: [PATCH 39/41] fix: reading a project keeps every view ever made of it
 in memory

EventTree.children held strong references (often two) to all subtrees, so each
access of project.mixer, a channel, a pattern etc. leaked until the project was
dropped. Nothing but the views' users needs them alive.
---
 pyflp/_events.py | 36 ++++++++++++------------------------
 pyflp/pattern.py |  4 +---
 2 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/pyflp/_events.py b/pyflp/_events.py
index 1a0fd77..e6b3744 100644
--- a/pyflp/_events.py
+++ b/pyflp/_events.py
@@ -26,17 +26,18 @@ from collections.abc import Callable, Iterable, Iterator, Sequence
 from dataclasses import dataclass, field
 from itertools import zip_longest
 from typing import TYPE_CHECKING, Any, ClassVar, Final, Generic, Tuple, cast
+from weakref import WeakValueDictionary
 
 import construct as c
 from sortedcontainers import SortedList
-from typing_extensions import Concatenate, Self, TypeAlias
+from typing_extensions import Self, TypeAlias
 
 from pyflp.exceptions import (
     EventIDOutOfRange,
     InvalidEventChunkSize,
     PropertyCannotBeSet,
 )
-from pyflp.types import RGBA, P, T, AnyContainer, AnyListContainer, AnyList, AnyDict
+from pyflp.types import RGBA, T, AnyContainer, AnyListContainer, AnyList, AnyDict
 
 BYTE: Final = 0
 WORD: Final = 64
@@ -422,17 +423,6 @@ class IndexedEvent:
     """The indexed event."""
 
 
-def yields_child(func: Callable[Concatenate[EventTree, P], Iterator[EventTree]]):
-    """Adds an :class:`EventTree` to its parent's list of children and yields it."""
-
-    def wrapper(self: EventTree, *args: P.args, **kwds: P.kwargs):
-        for child in func(self, *args, **kwds):
-            self.children.append(child)
-            yield child
-
-    return wrapper
-
-
 class EventTree:
     """Provides mutable "views" which propagate changes back to parents.
 
@@ -441,7 +431,7 @@ class EventTree:
     Attributes:
         parent: Immediate ancestor / parent. Defaults to self.
         root: Parent of all parent trees.
-        children: List of children.
+        children: List of children which are still in use.
     """
 
     def __init__(
@@ -450,12 +440,13 @@ class EventTree:
         init: Iterable[IndexedEvent] | None = None,
     ) -> None:
         """Create a new dictionary with an optional :attr:`parent`."""
-        self.children: list[EventTree] = []
+        # Not strong references; they would keep every view ever made of a project.
+        self._children: WeakValueDictionary[int, EventTree] = WeakValueDictionary()
         self.lst: list[IndexedEvent] = SortedList(init or [])  # type: ignore
 
         self.parent = parent
         if parent is not None:
-            parent.children.append(self)
+            parent._children[id(self)] = self
 
         while parent is not None and parent.parent is not None:
             parent = parent.parent
@@ -506,7 +497,6 @@ class EventTree:
         """Returns the count of the events with :attr:`id`."""
         return len(list(self._get_ie(id)))
 
-    @yields_child
     def divide(self, separator: EventEnum, *ids: EventEnum) -> Iterator[EventTree]:
         """Yields subtrees containing events separated by ``separator`` infinitely."""
         el: list[IndexedEvent] = []
@@ -538,7 +528,6 @@ class EventTree:
         """Yields events whose ID is one of :attr:`ids`."""
         return (e for e in self if e.id in ids)
 
-    @yields_child
     def group(self, *ids: EventEnum) -> Iterator[EventTree]:
         """Yields EventTrees of zip objects of events with matching :attr:`ids`."""
         for iet in zip_longest(*(self._get_ie(id) for id in ids)):  # unpack magic
@@ -592,7 +581,6 @@ class EventTree:
         """Removes the event with ``id`` at ``pos`` in ``self`` and all parents."""
         self.pop(id, pos)
 
-    @yields_child
     def separate(self, id: EventEnum) -> Iterator[EventTree]:
         """Yields a separate ``EventTree`` for every event with matching ``id``."""
         yield from (EventTree(self, [ie]) for ie in self._get_ie(id))
@@ -608,11 +596,8 @@ class EventTree:
         for ie in self.lst:
             if select(ie.e):
                 el.append(ie)
-        obj = EventTree(self, el)
-        self.children.append(obj)
-        return obj
+        return EventTree(self, el)
 
-    @yields_child
     def subtrees(
         self, select: Callable[[AnyEvent], bool | None], repeat: int
     ) -> Iterator[EventTree]:
@@ -638,7 +623,6 @@ class EventTree:
             elif result is not None:
                 el.append(ie)
 
-    @yields_child
     def terminated(self, terminator: EventEnum, *ids: EventEnum) -> Iterator[EventTree]:
         """Yields subtrees whose last event is a ``terminator``, unlike ``divide``."""
         el: list[IndexedEvent] = []
@@ -653,6 +637,10 @@ class EventTree:
         if el:  # Events left over after the last terminator
             yield EventTree(self, el)
 
+    @property
+    def children(self) -> list[EventTree]:
+        return list(self._children.values())
+
     @property
     def ids(self) -> frozenset[EventEnum]:
         return frozenset(ie.e.id for ie in self.lst)
diff --git a/pyflp/pattern.py b/pyflp/pattern.py
index 5a7335e..96f113c 100644
--- a/pyflp/pattern.py
+++ b/pyflp/pattern.py
@@ -350,9 +350,7 @@ class Patterns(EventModel, ModelCollection[Pattern]):
                 tmp_dict[cur_pat_id].append(ie)
 
         for events in tmp_dict.values():
-            et = EventTree(self.events, events)
-            self.events.children.append(et)
-            yield Pattern(et)
+            yield Pattern(EventTree(self.events, events))
 
     def __len__(self) -> int:
         """Returns the number of patterns found in the project.
-- 
2.43.0


From fb8031e9b0d2f04a3b125ac9824abce0f6d6f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:38 +0000
Subject: [PATCH 40/41] fix: fields after one that is cut off were read from
 its remaining bytes

When an event ends in the middle of a field, the shorter fields which follow in
the structure took the leftover bytes.
---
 pyflp/_adapters.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyflp/_adapters.py b/pyflp/_adapters.py
index 1063e9d..4152351 100644
--- a/pyflp/_adapters.py
+++ b/pyflp/_adapters.py
@@ -14,6 +14,7 @@
 from __future__ import annotations
 
 import math
+import os
 import warnings
 from typing import Any, List, Tuple
 
@@ -41,6 +42,14 @@ class Maybe(c.Select):
     def __init__(self, subcon: Any) -> None:
         super().__init__(subcon, c.Pass)
 
+    def _parse(self, stream: c.StreamType, context: Any, path: str) -> Any:
+        try:
+            return self.subcons[0]._parsereport(stream, context, path)  # type: ignore
+        except c.ConstructError:
+            # A part of this field isn't the fields which follow; they are absent as well.
+            stream.seek(0, os.SEEK_END)
+            return None
+
     def _build(self, obj: Any, stream: c.StreamType, context: Any, path: str) -> Any:
         if obj is None:
             return None
-- 
2.43.0


From 890d9d2fd018c0d0ba6713547cab6a19f03085e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:16 +0000
Subject: [PATCH 41/41] fix: bytes behind a Fruity NoteBook 2's last page were
 read as further pages

---
 pyflp/plugin.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyflp/plugin.py b/pyflp/plugin.py
index 218fb76..5e4ace9 100644
--- a/pyflp/plugin.py
+++ b/pyflp/plugin.py
@@ -131,18 +131,22 @@ class FruityFastDistEvent(StructEventBase):
     ).compile()
 
 
+_FruityNotebook2Page = c.Struct(
+    "index" / c.Int32sl,
+    c.StopIf(lambda ctx: ctx["index"] == -1),
+    "length" / c.VarInt,
+    "value" / c.PaddedString(lambda ctx: ctx["length"] * 2, "utf-16-le"),
+)
+
+
 class FruityNotebook2Event(StructEventBase):
     STRUCT = c.Struct(
         "_u1" / c.Bytes(4),
         "active_page" / c.Int32ul,
         "pages"
-        / c.GreedyRange(
-            c.Struct(
-                "index" / c.Int32sl,
-                c.StopIf(lambda ctx: ctx["index"] == -1),
-                "length" / c.VarInt,
-                "value" / c.PaddedString(lambda ctx: ctx["length"] * 2, "utf-16-le"),
-            ),
+        / c.Select(  # What follows the page with index -1 isn't another page
+            c.RepeatUntil(lambda page, *_: page["index"] == -1, _FruityNotebook2Page),
+            c.GreedyRange(_FruityNotebook2Page),
         ),
         "editable" / c.Flag,
     )
-- 
2.43.0

