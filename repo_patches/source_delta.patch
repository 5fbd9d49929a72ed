From f38607089b752678d06e71293743d2ccaf86e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 01/75] fix: indexing an EventedList returns a nested list
 element itself

Only a slice makes a new EventedList; an int index of an element that happens
to be a list used to return an EventedList copy of that element.
---
 src/psygnal/containers/_evented_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index e72a647..ab582e5 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -151,7 +151,7 @@ class EventedList(MutableSequence[_T]):
     def __getitem__(self, key: Index) -> _T | Self:
         """Return self[key]."""
         result = self._data[key]
-        return self.__newlike__(result) if isinstance(result, list) else result
+        return self.__newlike__(result) if isinstance(key, slice) else result
 
     @overload
     def __setitem__(self, key: int, value: _T) -> None: ...
-- 
2.43.0


From d4208950b0bc9a00c27ff5fa54650e116a1af4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 02/75] fix: deleting an out-of-range index of an EventedList
 raises up front

'del l[-5]' on three items deleted an unrelated item, and 'del l[5]' emitted
'removing' for an item that does not exist.
---
 src/psygnal/containers/_evented_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index ab582e5..cf65991 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -189,6 +189,8 @@ class EventedList(MutableSequence[_T]):
     def _delitem_indices(self, key: Index) -> Iterable[tuple[EventedList[_T], int]]:
         # returning (self, int) allows subclasses to pass nested members
         if isinstance(key, int):
+            if not -len(self) <= key < len(self):
+                raise IndexError("list assignment index out of range")
             yield (self, key if key >= 0 else key + len(self))
         elif isinstance(key, slice):
             yield from ((self, i) for i in range(*key.indices(len(self))))
-- 
2.43.0


From 7682e1374719af3db36bbf27a2aa60e68ebedc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 03/75] fix: EventedList.insert reports the position actually
 used

insert(-1, x) and insert(100, x) emitted the index as given instead of the
index at which the item is found after the insertion.
---
 src/psygnal/containers/_evented_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index cf65991..a39a8a0 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -137,6 +137,11 @@ class EventedList(MutableSequence[_T]):
     def insert(self, index: int, value: _T) -> None:
         """Insert `value` before index."""
         _value = self._pre_insert(value)
+        # report (and use) the position at which the item actually ends up
+        if index < 0:
+            index = max(index + len(self), 0)
+        else:
+            index = min(index, len(self))
         self.events.inserting.emit(index)
         self._data.insert(index, _value)
         self.events.inserted.emit(index, value)
-- 
2.43.0


From f6793607c557674c922c330a8dee1dae292c809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 04/75] fix: EventedList.move with negative source or
 out-of-range indices

move(-1, 0) was a no-op, move(-1, 2) put the item in the wrong place, and the
'moving'/'moved' events reported indices that do not exist.
---
 src/psygnal/containers/_evented_list.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index a39a8a0..5fee966 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -281,8 +281,14 @@ class EventedList(MutableSequence[_T]):
         Both indices refer to the list prior to any object removal
         (pre-move space).
         """
+        if not -len(self) <= src_index < len(self):
+            raise IndexError("list index out of range")
+        if src_index < 0:
+            src_index += len(self)
         if dest_index < 0:
-            dest_index += len(self) + 1
+            dest_index = max(dest_index + len(self) + 1, 0)
+        else:
+            dest_index = min(dest_index, len(self))
         if dest_index in (src_index, src_index + 1):
             # this is a no-op
             return False
-- 
2.43.0


From 5a7e237172bbb9b519e3800193b7844c57bb2cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:31 +0000
Subject: [PATCH 05/75] fix: EventedList.move_multiple places all items before
 the destination

The index bookkeeping was wrong for some combinations of sources and
destination (e.g. move_multiple([0, 1, 2], 1) on three items), negative source
indices were not understood, and an out-of-range source raised only after some
items had been moved.
---
 src/psygnal/containers/_evented_list.py | 39 ++++++++++++-------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 5fee966..a1be5f3 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -384,28 +384,27 @@ class EventedList(MutableSequence[_T]):
                     "Can only move integer or slice indices"
                 )  # pragma: no cover
 
-        to_move = list(dict.fromkeys(to_move))
+        n = len(self)
+        for idx in to_move:
+            if not -n <= idx < n:
+                raise IndexError("list index out of range")
+        to_move = list(dict.fromkeys(i + n if i < 0 else i for i in to_move))
 
         if dest_index < 0:
-            dest_index += len(self) + 1
-
-        d_inc = 0
-        popped: list[int] = []
-        for i, src in enumerate(to_move):
-            if src != dest_index:
-                # we need to decrement the src_i by 1 for each time we have
-                # previously pulled items out from in front of the src_i
-                src -= sum(x <= src for x in popped)
-                # if source is past the insertion point, increment src for each
-                # previous insertion
-                if src >= dest_index:
-                    src += i
-                yield src, dest_index + d_inc
-
-            popped.append(src)
-            # if the item moved up, increment the destination index
-            if dest_index <= src:
-                d_inc += 1
+            dest_index = max(dest_index + n + 1, 0)
+        else:
+            dest_index = min(dest_index, n)
+
+        # `order` tracks where each of the original items is after each single move.
+        # The first item goes to `dest_index`, each other right behind the previous one
+        order = list(range(n))
+        for item in to_move:
+            src = order.index(item)
+            if dest_index not in (src, src + 1):
+                yield src, dest_index
+                order.insert(dest_index, item)
+                del order[src if src < dest_index else src + 1]
+            dest_index = order.index(item) + 1
 
     def _connect_child_emitters(self, child: _T) -> None:
         """Connect all events from the child to be reemitted."""
-- 
2.43.0


From 13d9ff2451935b82f71f3a0923243841dfaef22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 06/75] fix: EventedDict.popitem removes the last inserted
 item, like dict

The inherited MutableMapping.popitem removed the first one.
---
 src/psygnal/containers/_evented_dict.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/psygnal/containers/_evented_dict.py b/src/psygnal/containers/_evented_dict.py
index 5f60338..ff6de30 100644
--- a/src/psygnal/containers/_evented_dict.py
+++ b/src/psygnal/containers/_evented_dict.py
@@ -59,6 +59,15 @@ class TypedMutableMapping(MutableMapping[_K, _V]):
     def __getitem__(self, key: _K) -> _V:
         return self._dict[key]
 
+    def popitem(self) -> tuple[_K, _V]:
+        """Remove and return the last inserted `(key, value)` pair, as `dict` does."""
+        if not self._dict:
+            raise KeyError("popitem(): dictionary is empty")
+        key = next(reversed(self._dict))
+        value = self[key]
+        del self[key]
+        return key, value
+
     def __len__(self) -> int:
         return len(self._dict)
 
-- 
2.43.0


From a07aea97446795a77567e00b6f08575b91152d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 07/75] fix: set difference updates with duplicates or with the
 set itself

symmetric_difference_update([1, 1]) toggled 1 twice, and both
difference_update(s) and symmetric_difference_update(s) on the set 's' itself
raised RuntimeError.
---
 src/psygnal/containers/_evented_set.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 2c841c8..cd0a955 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -126,7 +126,7 @@ class _BaseMutableSet(MutableSet[_T]):
 
     def difference_update(self, *s: Iterable[_T]) -> None:
         """Remove all elements of another set from this set."""
-        for i in chain(*s):
+        for i in tuple(chain(*s)):  # `s` may contain this set itself
             self.discard(i)
 
     def intersection(self, *s: Iterable[_T]) -> Self:
@@ -166,7 +166,8 @@ class _BaseMutableSet(MutableSet[_T]):
         This will remove any items in this set that are also in `other`, and
         add any items in others that are not present in this set.
         """
-        for i in __s:
+        # every element counts once, and `__s` may be this set itself
+        for i in dict.fromkeys(__s):
             self.discard(i) if i in self else self.add(i)
 
     def union(self, *s: Iterable[_T]) -> Self:
-- 
2.43.0


From ca77ac2bb68733fa603a9c92bcb4f2f0936e77ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 08/75] fix: intersection and intersection_update without
 arguments

---
 src/psygnal/containers/_evented_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index cd0a955..4667e78 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -134,12 +134,12 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in both sets.)
         """
-        other = set.intersection(*(set(x) for x in s))
+        other = set.intersection(set(self), *(set(x) for x in s))
         return self.__class__(i for i in self if i in other)
 
     def intersection_update(self, *s: Iterable[_T]) -> None:
         """Update this set with the intersection of itself and another."""
-        other = set.intersection(*(set(x) for x in s))
+        other = set.intersection(set(self), *(set(x) for x in s))
         for i in tuple(self):
             if i not in other:
                 self.discard(i)
-- 
2.43.0


From 0d169a0023aa2e05be9687d14ec9225ceaec0e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 09/75] fix: symmetric_difference with a one-shot iterable

---
 src/psygnal/containers/_evented_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 4667e78..797df96 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -157,7 +157,8 @@ class _BaseMutableSet(MutableSet[_T]):
 
         (i.e. all elements that are in exactly one of the sets.)
         """
-        a = chain((i for i in __s if i not in self), (i for i in self if i not in __s))
+        s = dict.fromkeys(__s)  # `__s` may be a one-shot iterable
+        a = chain((i for i in s if i not in self), (i for i in self if i not in s))
         return self.__class__(a)
 
     def symmetric_difference_update(self, __s: Iterable[_T]) -> None:
-- 
2.43.0


From da9e3d7ba8c1c76e217af339a7a28fd1bd0f084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 10/75] fix: resume() never delivers the emissions collected
 while paused twice

---
 src/psygnal/_signal.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 86573de..999788a 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1409,24 +1409,26 @@ class SignalInstance:
         # EventedModel.update, it may be undefined (as seen in tests)
         if not getattr(self, "_args_queue", None):
             return
+        # detach the queue before delivering anything, so that what is delivered here
+        # is never delivered again, (by a callback that pauses and resumes this signal,
+        # or by the next `resume()` if a callback raises an exception).
+        queue, self._args_queue = self._args_queue, []
         if len(self._slots) == 0:
-            self._args_queue.clear()
             return
 
         if reducer is not None:
             if len(inspect.signature(reducer).parameters) == 1:
-                args = cast("ReducerOneArg", reducer)(self._args_queue)
+                args = cast("ReducerOneArg", reducer)(queue)
             else:
                 reducer = cast("ReducerTwoArgs", reducer)
                 if initial is _NULL:
-                    args = reduce(reducer, self._args_queue)
+                    args = reduce(reducer, queue)
                 else:
-                    args = reduce(reducer, self._args_queue, initial)
+                    args = reduce(reducer, queue, initial)
             self._run_emit_loop(args)
         else:
-            for args in self._args_queue:
+            for args in queue:
                 self._run_emit_loop(args)
-        self._args_queue.clear()
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From e011dcea4941bdd1be6005370c59ba70b634ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 11/75] fix: latest-only reemission delivers an emission that
 follows a deeper one

---
 src/psygnal/_signal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 999788a..c5d2408 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1272,9 +1272,9 @@ class SignalInstance:
             try:
                 # allow receiver to query sender with Signal.current_emitter()
                 self._recursion_depth += 1
-                self._max_recursion_depth = max(
-                    self._max_recursion_depth, self._recursion_depth
-                )
+                # this is now the deepest (i.e. latest) emission: enclosing emissions of
+                # the same signal are outdated, but not the ones that will follow this.
+                self._max_recursion_depth = self._recursion_depth
                 with Signal._emitting(self):
                     self._run_emit_loop_inner()
             except RecursionError as e:
-- 
2.43.0


From 1dd12dad0383eede645b64c99d17e789b2ea5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 12/75] fix: connecting or disconnecting during an emission
 does not skip or repeat other slots

---
 src/psygnal/_signal.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index c5d2408..2935269 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -549,6 +549,8 @@ class SignalInstance:
         self._check_nargs_on_connect = check_nargs_on_connect
         self._check_types_on_connect = check_types_on_connect
         self._slots: list[WeakCallback] = []
+        # number of times that slots have been removed.
+        self._n_removals: int = 0
         self._is_blocked: bool = False
         self._is_paused: bool = False
         self._lock = threading.RLock()
@@ -800,6 +802,12 @@ class SignalInstance:
             self._slots.pop(slot)
         else:
             self._slots.remove(cast("WeakCallback", slot))
+        # let an ongoing emission know that it may need to skip a slot.
+        self._n_removals += 1
+
+    def _is_connected(self, caller: WeakCallback) -> bool:
+        """Return True if `caller` itself (not just an equal one) is connected."""
+        return any(caller is slot for slot in self._slots)
 
     def _try_discard(self, callback: WeakCallback, missing_ok: bool = True) -> None:
         """Try to discard a callback from the list of slots.
@@ -1237,7 +1245,12 @@ class SignalInstance:
 
         self._recursion_depth += 1
         try:
-            for caller in self._slots:
+            # NOTE: emission loops iterate over a copy of the slots, since callbacks may
+            # connect and disconnect slots, (which would shift those yet to be called).
+            n_removals = self._n_removals
+            for caller in tuple(self._slots):
+                if self._n_removals != n_removals and not self._is_connected(caller):
+                    continue
                 caller.cb(args)
         except RecursionError as e:
             raise RecursionError(
@@ -1304,16 +1317,22 @@ class SignalInstance:
 
     def _run_emit_loop_immediate(self) -> None:
         args = self._emit_queue.popleft()
-        for caller in self._slots:
+        n_removals = self._n_removals
+        for caller in tuple(self._slots):
+            if self._n_removals != n_removals and not self._is_connected(caller):
+                continue
             caller.cb(args)
 
     def _run_emit_loop_latest_only(self) -> None:
         self._args = args = self._emit_queue.popleft()
-        for caller in self._slots:
+        n_removals = self._n_removals
+        for caller in tuple(self._slots):
             if self._recursion_depth < self._max_recursion_depth:
                 # we've already entered a deeper emit loop
                 # we should drop the remaining slots in this round and return
                 break
+            if self._n_removals != n_removals and not self._is_connected(caller):
+                continue
             self._caller = caller
             caller.cb(args)
 
@@ -1321,7 +1340,10 @@ class SignalInstance:
         i = 0
         while i < len(self._emit_queue):
             args = self._emit_queue[i]
-            for caller in self._slots:
+            n_removals = self._n_removals
+            for caller in tuple(self._slots):
+                if self._n_removals != n_removals and not self._is_connected(caller):
+                    continue
                 caller.cb(args)
                 if len(self._emit_queue) > RECURSION_LIMIT:
                     raise RecursionError
@@ -1501,6 +1523,7 @@ class SignalInstance:
             else:
                 setattr(self, k, v)
         self._lock = threading.RLock()
+        self._n_removals = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
             self._run_emit_loop_inner = self._run_emit_loop_queued
         elif self._reemission == ReemissionMode.LATEST:  # pragma: no cover
-- 
2.43.0


From e9cd71b0d9a0eee4b5edf1e8d7c241d80d219678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 13/75] fix: block() of a group with exclusions restores every
 signal exactly

---
 src/psygnal/_group.py | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index a2f6ba8..364b898 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -22,7 +22,7 @@ from typing import (
     overload,
 )
 
-from psygnal._signal import _NULL, Signal, SignalInstance, _SignalBlocker
+from psygnal._signal import _NULL, Signal, SignalInstance
 
 from ._mypyc import mypyc_attr
 
@@ -161,14 +161,17 @@ class SignalRelay(SignalInstance):
         for name, sig in self._signals.items():
             if name in exclude or sig in exclude:
                 continue
-            self._sig_was_blocked[name] = sig._is_blocked
+            # (if already blocked by this group, retain the state from before that)
+            self._sig_was_blocked.setdefault(name, sig._is_blocked)
             sig.block()
 
     def unblock(self) -> None:
         """Unblock this signal and all emitters, allowing them to emit."""
+        # signals that were excluded when blocking this group are left as they are
+        group_was_blocked = self._is_blocked
         super().unblock()
         for name, sig in self._signals.items():
-            if not self._sig_was_blocked.pop(name, False):
+            if not self._sig_was_blocked.pop(name, group_was_blocked):
                 sig.unblock()
 
     def blocked(
@@ -182,7 +185,7 @@ class SignalRelay(SignalInstance):
             An iterable of signal instances or names to exempt from the block,
             by default ()
         """
-        return _SignalBlocker(self, exclude=exclude)
+        return _RelayBlocker(self, exclude)
 
     def disconnect(self, slot: Callable | None = None, missing_ok: bool = True) -> None:
         """Disconnect slot from all signals.
@@ -206,6 +209,37 @@ class SignalRelay(SignalInstance):
         super().disconnect(slot, missing_ok)
 
 
+class _RelayBlocker:
+    """Context manager to block a group, and to restore its previous state."""
+
+    def __init__(
+        self, relay: SignalRelay, exclude: Container[str | SignalInstance]
+    ) -> None:
+        self._relay = relay
+        self._exclude = exclude
+        self._was_blocked = False
+        self._sig_was_blocked: dict[str, bool] = {}
+        self._restore: dict[str, bool] = {}
+
+    def __enter__(self) -> None:
+        relay = self._relay
+        self._was_blocked = relay._is_blocked
+        self._sig_was_blocked = relay._sig_was_blocked.copy()
+        self._restore = {
+            name: sig._is_blocked
+            for name, sig in relay._signals.items()
+            if not (name in self._exclude or sig in self._exclude)
+        }
+        relay.block(exclude=self._exclude)
+
+    def __exit__(self, *args: Any) -> None:
+        relay = self._relay
+        relay._is_blocked = self._was_blocked
+        relay._sig_was_blocked = self._sig_was_blocked
+        for name, was_blocked in self._restore.items():
+            relay._signals[name]._is_blocked = was_blocked
+
+
 # NOTE
 # To developers. Avoid adding public names to this class, as it is intended to be
 # a container for user-determined names.  If names must be added, try to prefix
-- 
2.43.0


From 919aa683a41a2ddafc4b46ec6aea2d14acefa48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 14/75] fix: pausing a group holds back the notifications
 relayed from its signals

---
 src/psygnal/_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 364b898..958b11a 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -97,6 +97,9 @@ class SignalRelay(SignalInstance):
     def _slot_relay(self, *args: Any) -> None:
         if emitter := Signal.current_emitter():
             info = EmissionInfo(emitter, args)
+            if self._is_paused:
+                self._args_queue.append((info,))
+                return
             self._run_emit_loop((info,))
 
     def connect_direct(
-- 
2.43.0


From d21c9afc1d2795c28b705c15e48cd04045796853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 15/75] fix: disconnect(missing_ok=False) on a group accepts a
 connected slot

---
 src/psygnal/_group.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 958b11a..bf537ef 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -207,9 +207,15 @@ class SignalRelay(SignalInstance):
         ValueError
             If `slot` is not connected and `missing_ok` is False.
         """
+        # `slot` is usually connected to the relay *or* (some of) the signals
+        was_connected = slot is None or slot in self
         for sig in self._signals.values():
-            sig.disconnect(slot, missing_ok)
-        super().disconnect(slot, missing_ok)
+            if slot is not None and slot in sig:
+                was_connected = True
+            sig.disconnect(slot)
+        if not (was_connected or missing_ok):
+            raise ValueError(f"slot is not connected: {slot}")
+        super().disconnect(slot)
 
 
 class _RelayBlocker:
-- 
2.43.0


From 4d943fafdcbb453e114ba06acecc480905877f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 16/75] fix: priority and repr of strongly referenced slots
 survive pickling

---
 src/psygnal/_weak_callback.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index aa23330..f1693a5 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -363,12 +363,25 @@ class StrongFunction(WeakCallback):
         return self._f
 
     def __getstate__(self) -> dict[str, Any]:
-        atr = ("_key", "_max_args", "_alive", "_on_ref_error", "_f", "_args", "_kwargs")
+        atr = (
+            "_max_args",
+            "_alive",
+            "_on_ref_error",
+            "_obj_module",
+            "_obj_qualname",
+            "_object_repr",
+            "_f",
+            "_args",
+            "_kwargs",
+            "priority",
+        )
         return {k: getattr(self, k) for k in atr}
 
     def __setstate__(self, state: dict) -> None:
         for k, v in state.items():
             setattr(self, k, v)
+        # the key includes the id of the function, which may not be the same here
+        self._key = WeakCallback.object_key(self._f)
 
 
 class WeakFunction(WeakCallback):
-- 
2.43.0


From 563ad7d42593fabb168f16776f8e0a7d7ea62063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 17/75] fix: description of a SignalInstance survives pickling

---
 src/psygnal/_signal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 2935269..2c41288 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1491,6 +1491,7 @@ class SignalInstance:
         attrs = (
             "_signature",
             "_name",
+            "_description",
             "_is_blocked",
             "_is_paused",
             "_args_queue",
-- 
2.43.0


From bc0a5bb757c0840743828db109cecc15a38b7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 18/75] fix: partials of the same function with other arguments
 are different slots

---
 src/psygnal/_queue.py         |  8 ++++++++
 src/psygnal/_weak_callback.py | 20 +++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 4093a8c..d31e558 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -65,6 +65,14 @@ class QueuedCallback(WeakCallback):
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
 
+    @property
+    def _bound_args(self) -> tuple[Any, ...]:
+        return self._wrapped._bound_args
+
+    @property
+    def _bound_kwargs(self) -> dict[str, Any]:
+        return self._wrapped._bound_kwargs
+
 
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index f1693a5..8454490 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -244,9 +244,27 @@ class WeakCallback(Generic[_R]):
     def __eq__(self, other: object) -> bool:
         # sourcery skip: swap-if-expression
         if isinstance(other, WeakCallback):
-            return self._key == other._key
+            return self._key == other._key and self._has_same_bound_args(other)
         return NotImplemented
 
+    def _has_same_bound_args(self, other: WeakCallback) -> bool:
+        """Return True if the same args and kwargs are bound (e.g. with partial)."""
+        try:
+            return bool(
+                self._bound_args == other._bound_args
+                and self._bound_kwargs == other._bound_kwargs
+            )
+        except Exception:  # e.g. ambiguous truth value of an array
+            return False
+
+    @property
+    def _bound_args(self) -> tuple[Any, ...]:
+        return getattr(self, "_args", ())
+
+    @property
+    def _bound_kwargs(self) -> dict[str, Any]:
+        return getattr(self, "_kwargs", {})
+
     def _try_ref(
         self,
         obj: _T,
-- 
2.43.0


From 9be4b44394ac8655a06f27315b0492d26f1b8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:49 +0000
Subject: [PATCH 19/75] fix: creating the queue of a thread from several
 threads at once loses no callback

---
 src/psygnal/_queue.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index d31e558..54153c6 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -60,7 +60,7 @@ class QueuedCallback(WeakCallback):
         if current_thread() is self._cbthread:
             self._wrapped.cb(args)
         else:
-            QueuedCallback._GLOBAL_QUEUE[self._cbthread].put((self._wrapped.cb, args))
+            _queue_of(self._cbthread).put((self._wrapped.cb, args))
 
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
@@ -74,6 +74,18 @@ class QueuedCallback(WeakCallback):
         return self._wrapped._bound_kwargs
 
 
+def _queue_of(thread: Thread) -> Queue[CbArgsTuple]:
+    """Return the queue of `thread`, creating it if necessary.
+
+    NOTE: looking up a missing key in a defaultdict is not atomic: of two threads that
+    both create the queue, one would put its callback in a queue that no one uses.
+    """
+    queue = QueuedCallback._GLOBAL_QUEUE.get(thread)
+    if queue is None:
+        queue = QueuedCallback._GLOBAL_QUEUE.setdefault(thread, Queue())
+    return queue
+
+
 def emit_queued(thread: Thread | None = None) -> None:
     """Trigger emissions of all callbacks queued in the current thread.
 
@@ -92,7 +104,7 @@ def emit_queued(thread: Thread | None = None) -> None:
         raises an exception.
     """
     _thread = current_thread() if thread is None else thread
-    queue = QueuedCallback._GLOBAL_QUEUE[_thread]
+    queue = _queue_of(_thread)
 
     while not queue.empty():
         cb, args = queue.get()
-- 
2.43.0


From f2792f5c1c0ed50656d572e5bdd37fa8267c9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 20/75] fix: setting a new key through an EventedObjectProxy

---
 src/psygnal/containers/_evented_proxy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index fcd5f57..87b2539 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -90,7 +90,10 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        before = self[key]
+        try:
+            before = self[key]
+        except LookupError:  # e.g. a new key in a dict
+            before = _UNSET
         super().__setitem__(key, value)
         if before is not (after := self[key]):
             self.events.item_set(key, after)
-- 
2.43.0


From 0312102994c0e14386d8c17749723e15ee6bb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:10 +0000
Subject: [PATCH 21/75] fix: a rejected active item or select_only() leaves the
 selection as it was

---
 src/psygnal/containers/_selection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7650a16..6687bbf 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             return
+        if value is not None:
+            self._check_in_parent(value)
         self._active = value
         self.clear() if value is None else self.select_only(value)
         self._current = value
@@ -131,6 +133,7 @@ class Selection(EventedOrderedSet[_T]):
 
     def select_only(self, obj: _T) -> None:
         """Unselect everything but `obj`. Add to selection if not currently selected."""
+        self._check_in_parent(obj)  # before unselecting anything
         self.intersection_update({obj})
         self.add(obj)
 
@@ -154,11 +157,14 @@ class Selection(EventedOrderedSet[_T]):
         super()._emit_change(added, removed)
         self._update_active()
 
-    def _pre_add_hook(self, item: _T) -> _T | BailType:
+    def _check_in_parent(self, item: _T) -> None:
         if self._parent is not None and item not in self._parent:
             raise ValueError(
                 "Cannot select an item that is not in the parent container."
             )
+
+    def _pre_add_hook(self, item: _T) -> _T | BailType:
+        self._check_in_parent(item)
         return super()._pre_add_hook(item)
 
     def __hash__(self) -> int:
-- 
2.43.0


From 71ff10d903f10f561df7724eacecee13ccdc881d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 22/75] fix: replacing an item of a SelectableEventedList
 deselects it

---
 src/psygnal/containers/_selectable_evented_list.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index bebe8da..939b405 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -47,10 +47,17 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
+        self.events.changed.connect(self._on_item_changed)
 
     def _on_item_removed(self, idx: int, obj: Any) -> None:
         self.selection.discard(obj)
 
+    def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
+        # (old is a list of items if idx is a slice)
+        for obj in old if isinstance(idx, slice) else (old,):
+            if obj not in self:
+                self.selection.discard(obj)
+
     def insert(self, index: int, value: _T) -> None:
         """Insert item(s) into the list and update the selection."""
         super().insert(index, value)
-- 
2.43.0


From 1317b7f6633c1bd48267d7238bcfc473c24a542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 23/75] fix: selection can be set from a one-shot iterable

---
 src/psygnal/containers/_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 6687bbf..2f8782b 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -187,5 +187,6 @@ class Selectable(Container[_S]):
     @selection.setter
     def selection(self, new_selection: Iterable[_S]) -> None:  # pragma: no cover
         """Set selection, without deleting selection model object."""
+        new_selection = tuple(new_selection)  # it may be a one-shot iterable
         self._selection.intersection_update(new_selection)
         self._selection.update(new_selection)
-- 
2.43.0


From 3006e6a1eee27efdb5de53067b643fb9ff27e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 24/75] fix: several SignalGroupDescriptors on a class have
 their own groups

---
 src/psygnal/_group_descriptor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 557c543..2c2518f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -10,7 +10,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Callable,
-    ClassVar,
     Literal,
     Optional,
     TypeVar,
@@ -510,7 +509,8 @@ class SignalGroupDescriptor:
 
     # map of id(obj) -> SignalGroup
     # cached here in case the object isn't modifiable
-    _instance_map: ClassVar[dict[int, SignalGroup]] = {}
+    # (one map per descriptor: there may be several descriptors on the same class)
+    _instance_map: dict[int, SignalGroup]
 
     def __init__(
         self,
@@ -551,6 +551,7 @@ class SignalGroupDescriptor:
         self._signal_aliases = signal_aliases
 
         self._signal_groups: dict[int, type[SignalGroup]] = {}
+        self._instance_map = {}
 
     def __set_name__(self, owner: type, name: str) -> None:
         """Called when this descriptor is added to class `owner` as attribute `name`."""
-- 
2.43.0


From 4c6a1967d4254c72191cf7610db29cbdd4eef17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:26 +0000
Subject: [PATCH 25/75] fix: EventedModel compares and emits the value that was
 actually stored

---
 src/psygnal/_evented_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 31f90f9..353b26a 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -631,8 +631,10 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         old_value = getattr(self, name, object())
         self._super_setattr_(name, value)
-        if not _check_field_equality(type(self), name, value, old_value):
-            getattr(self._events, name)(value)
+        # the value may have been changed by a validator
+        new_value = getattr(self, name, value)
+        if not _check_field_equality(type(self), name, new_value, old_value):
+            getattr(self._events, name)(new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From b06f87ac775c25e2a38f5b831c155df25297c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 26/75] fix: child events of items assigned to or replaced in
 an EventedList

---
 src/psygnal/containers/_evented_list.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index a1be5f3..c36612f 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -176,9 +176,17 @@ class EventedList(MutableSequence[_T]):
                 raise TypeError("Can only assign an iterable to slice")
             value = [self._pre_insert(v) for v in value]  # before we mutate the list
             self._data[key] = value
+            replaced, inserted = old, value
         else:
             value = self._pre_insert(cast("_T", value))
             self._data[key] = value
+            replaced, inserted = [old], [value]
+
+        if self._child_events:
+            for child in replaced:
+                self._disconnect_child_emitters(child)
+            for child in inserted:
+                self._connect_child_emitters(child)
 
         self.events.changed.emit(key, old, value)
 
-- 
2.43.0


From c752335bff5304dee8076d60d587cb47f7bc7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 27/75] fix: child events are reported with the index of the
 child itself

---
 src/psygnal/containers/_evented_list.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index c36612f..ce91d19 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -430,10 +430,13 @@ class EventedList(MutableSequence[_T]):
         if emitter is None:
             return  # pragma: no cover
         obj = emitter.instance
-        try:
-            idx = self.index(obj)
-        except ValueError:  # pragma: no cover
-            return
+        # look for the object itself first: other items may be equal to it
+        idx = next((i for i, item in enumerate(self._data) if item is obj), -1)
+        if idx == -1:  # pragma: no cover
+            try:
+                idx = self.index(obj)
+            except ValueError:
+                return
 
         if (
             args
-- 
2.43.0


From 9049e343e36a2b196df0d922d9b691ab1b643b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 28/75] fix: check_types accepts callbacks annotated with X | Y
 unions

---
 src/psygnal/_signal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 2c41288..211febf 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -129,6 +129,7 @@ from __future__ import annotations
 
 import inspect
 import threading
+import types
 import warnings
 import weakref
 from collections import deque
@@ -1737,9 +1738,13 @@ def _parameter_types_match(
     return True
 
 
+# `Union[X, Y]`, and `X | Y` (python >= 3.10)
+_UNION_TYPES = (Union, getattr(types, "UnionType", Union))
+
+
 def _is_subclass(left: type[Any], right: type) -> bool:
     """Variant of issubclass with support for unions."""
-    if not isclass(left) and get_origin(left) is Union:
+    if not isclass(left) and get_origin(left) in _UNION_TYPES:
         return any(issubclass(i, right) for i in get_args(left))
     return issubclass(left, right)
 
-- 
2.43.0


From 4668c5eb942d8fdfbfddd9cc880331188515fbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 29/75] fix: check_types ignores parameters that receive no
 signal argument

---
 src/psygnal/_signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 211febf..f4bbbbb 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1722,7 +1722,9 @@ def _parameter_types_match(
     fsig = func_sig or signature(function)
 
     func_hints: dict | None = None
-    for f_param, spec_param in zip(fsig.parameters.values(), spec.parameters.values()):
+    # parameters that cannot receive an (always positional) signal argument don't matter
+    f_params = (p for p in fsig.parameters.values() if p.kind <= p.VAR_POSITIONAL)
+    for f_param, spec_param in zip(f_params, spec.parameters.values()):
         f_anno = f_param.annotation
         if f_anno is fsig.empty:
             # if function parameter is not type annotated, allow it.
-- 
2.43.0


From 3f189b9ac87c4bcdd6f94d9786b9ab6f3a14ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:44 +0000
Subject: [PATCH 30/75] fix: the current emitter of a thread is not affected by
 emissions in other threads

---
 src/psygnal/_signal.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index f4bbbbb..18c9af3 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -220,6 +220,11 @@ class ReemissionMode:
         return VALID_REEMISSION
 
 
+# The currently emitting signal instance, of each thread: callbacks that are running in
+# one thread must not see (or relay) what another thread happens to be emitting.
+_thread_local = threading.local()
+
+
 class Signal:
     """Declares a signal emitter on a class.
 
@@ -291,8 +296,6 @@ class Signal:
 
     # _signature: Signature  # callback signature for this signal
 
-    _current_emitter: ClassVar[SignalInstance | None] = None
-
     def __init__(
         self,
         *types: type[Any] | Signature,
@@ -410,11 +413,12 @@ class Signal:
     @contextmanager
     def _emitting(cls, emitter: SignalInstance) -> Iterator[None]:
         """Context that sets the sender on a receiver object while emitting a signal."""
-        previous, cls._current_emitter = cls._current_emitter, emitter
+        previous = cls.current_emitter()
+        _thread_local.current_emitter = emitter
         try:
             yield
         finally:
-            cls._current_emitter = previous
+            _thread_local.current_emitter = previous
 
     @classmethod
     def current_emitter(cls) -> SignalInstance | None:
@@ -432,7 +436,7 @@ class Signal:
             source = Signal.current_emitter()
         ```
         """
-        return cls._current_emitter
+        return getattr(_thread_local, "current_emitter", None)
 
     @classmethod
     def sender(cls) -> Any:
@@ -440,7 +444,7 @@ class Signal:
 
         This will typically be used in a callback.
         """
-        return getattr(cls._current_emitter, "instance", None)
+        return getattr(cls.current_emitter(), "instance", None)
 
 
 _empty_signature = Signature()
-- 
2.43.0


From fbca33ce5d13f79a8a7f4492e31f948b3ce5ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:53 +0000
Subject: [PATCH 31/75] fix: calls made right after cancel() of a throttled or
 debounced function are not lost

---
 src/psygnal/_throttler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/_throttler.py b/src/psygnal/_throttler.py
index 470b9b7..35fb3da 100644
--- a/src/psygnal/_throttler.py
+++ b/src/psygnal/_throttler.py
@@ -63,6 +63,9 @@ class _ThrottlerBase(Generic[P]):
         """Cancel any pending calls."""
         self._has_pending = False
         self._timer.cancel()
+        # the thread of a cancelled timer may be alive for a little longer: calls made
+        # in the meantime must not count on it.
+        self._timer = Timer(0, lambda: None)
 
     def flush(self) -> None:
         """Force a call if there is one pending."""
-- 
2.43.0


From 4aa60da6e8661c418fe20982ebc37de4e4690756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:26 +0000
Subject: [PATCH 32/75] fix: setting the active item of a selection notifies
 the change once

---
 src/psygnal/containers/_selection.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 2f8782b..8662b8c 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -78,6 +78,7 @@ class Selection(EventedOrderedSet[_T]):
     def __init__(self, data: Iterable[_T] = (), parent: Container | None = None):
         self._active: _T | None = None
         self._current_: _T | None = None
+        self._setting_active: bool = False
         self._parent: Container | None = parent
         super().__init__(iterable=data)
         self._update_active()
@@ -111,9 +112,15 @@ class Selection(EventedOrderedSet[_T]):
         if value is not None:
             self._check_in_parent(value)
         self._active = value
-        self.clear() if value is None else self.select_only(value)
+        # the changes made to the selection here are not to be notified separately
+        self._setting_active = True
+        try:
+            self.clear() if value is None else self.select_only(value)
+        finally:
+            self._setting_active = False
         self._current = value
         self.events.active.emit(value)
+        self._update_active()
 
     def clear(self, keep_current: bool = False) -> None:
         """Clear the selection.
@@ -142,6 +149,8 @@ class Selection(EventedOrderedSet[_T]):
 
         An active item is a single selected item.
         """
+        if self._setting_active:
+            return
         if len(self) == 1:
             self.active = next(iter(self))
         elif self._active is not None:
-- 
2.43.0


From 5248f0eb49579161ab8d2135ed02998514a97b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 33/75] fix: setting the active item makes it current even if
 it was active already

---
 src/psygnal/containers/_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 8662b8c..6d6a93a 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -108,6 +108,8 @@ class Selection(EventedOrderedSet[_T]):
         This makes `value` the only selected item, and makes it current.
         """
         if value == self._active:
+            if value is not None:
+                self._current = value
             return
         if value is not None:
             self._check_in_parent(value)
-- 
2.43.0


From 77025d05918a71e6cca8b009565c3a00bd682f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 34/75] fix: select_next when the current item has been removed
 from the list

---
 src/psygnal/containers/_selectable_evented_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 939b405..8ff5b63 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -93,7 +93,10 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         elif not self.selection:
             idx = -1 if step > 0 else 0
         else:
-            idx = self.index(self.selection._current) + step
+            current = self.selection._current
+            if current not in self:  # (it has been removed, others are selected)
+                current = tuple(self.selection)[-1]
+            idx = self.index(current) + step
         idx_in_sequence = len(self) > idx >= 0
         if wraparound:
             idx = idx % len(self)
-- 
2.43.0


From a6234cd390c43dfbe80f0eac117e0070878da00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 35/75] fix: reversing a SelectableEventedList item by item
 keeps the selection

---
 src/psygnal/containers/_selectable_evented_list.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 8ff5b63..601913c 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -45,6 +45,7 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         child_events: bool = False,
     ):
         self._activate_on_insert: bool = True
+        self._reversing: bool = False
         super().__init__(data=data, hashable=hashable, child_events=child_events)
         self.events.removed.connect(self._on_item_removed)
         self.events.changed.connect(self._on_item_changed)
@@ -53,6 +54,8 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self.selection.discard(obj)
 
     def _on_item_changed(self, idx: Any, old: Any, new: Any) -> None:
+        if self._reversing:
+            return
         # (old is a list of items if idx is a slice)
         for obj in old if isinstance(idx, slice) else (old,):
             if obj not in self:
@@ -64,6 +67,15 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         if self._activate_on_insert:
             self.selection.active = value
 
+    def reverse(self, *, emit_individual_events: bool = False) -> None:
+        """Reverse list *IN PLACE*."""
+        # items that are exchanged one after the other stay in the list
+        self._reversing = True
+        try:
+            super().reverse(emit_individual_events=emit_individual_events)
+        finally:
+            self._reversing = False
+
     def select_all(self) -> None:
         """Select all items in the list."""
         self.selection.update(self)
-- 
2.43.0


From 66654dff06dff3f33ffc8c1c8ae3098f19a52c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:03 +0000
Subject: [PATCH 36/75] fix: replacing several selected items of a
 SelectableEventedList at once

---
 src/psygnal/containers/_selectable_evented_list.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 601913c..b764ce6 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -57,8 +57,13 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         if self._reversing:
             return
         # (old is a list of items if idx is a slice)
-        for obj in old if isinstance(idx, slice) else (old,):
-            if obj not in self:
+        items = old if isinstance(idx, slice) else (old,)
+        gone = [obj for obj in items if obj not in self]
+        if all(obj in gone for obj in self.selection):
+            # (one after the other, the last one would become active in between)
+            self.selection.clear(keep_current=True)
+        else:
+            for obj in gone:
                 self.selection.discard(obj)
 
     def insert(self, index: int, value: _T) -> None:
-- 
2.43.0


From 9cd3fe6c67203113671d5d50dd3603c1bdf2098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 37/75] fix: aliased fields of a subclass emit if the base
 class was used first

The base class's __setattr__ was patched without support for aliases, and the
subclass inherits it.
---
 src/psygnal/_group_descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 2c2518f..db90b2f 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -652,5 +652,6 @@ class SignalGroupDescriptor:
                 stacklevel=2,
             )
 
-        self._do_patch_setattr(owner, with_aliases=bool(Group._psygnal_aliases))
+        # (with aliases: subclasses that inherit this __setattr__ may have some)
+        self._do_patch_setattr(owner)
         return Group
-- 
2.43.0


From 2aa0c96c9fa8ea877f38ec9e29a16df7df2b1160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 38/75] fix: aliases of a descriptor do not leak into its
 signal_group_class

With collect_fields=False the aliases were added to the SignalGroup class passed
by the user, and thereby to every other class using it (and only if they were
given as a dict).
---
 src/psygnal/_group_descriptor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index db90b2f..1fe3110 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -632,9 +632,11 @@ class SignalGroupDescriptor:
             # Do not collect fields from owner class
             Group = copy.deepcopy(self._signal_group_class)
 
-            # Add aliases
-            if isinstance(self._signal_aliases, dict):
-                Group._psygnal_aliases.update(self._signal_aliases)
+            # Add aliases (in a subclass: the class itself may be used elsewhere)
+            if self._signal_aliases and not callable(self._signal_aliases):
+                Group = type(
+                    Group.__name__, (Group,), {}, signal_aliases=self._signal_aliases
+                )
 
         else:
             # Collect fields and create SignalGroup subclass
-- 
2.43.0


From b608fd488d39c10c8ce6c2febff07e2c5076819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 39/75] fix: fields emit on every SignalGroupDescriptor of a
 class

Only one of several descriptors (on a class or on its bases) patched __setattr__,
so that no events were emitted on the others.
---
 src/psygnal/_group_descriptor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 1fe3110..fefa0e6 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -375,7 +375,8 @@ def evented_setattr(
 
     def _inner(super_setattr: SetAttr) -> SetAttr:
         # don't patch twice
-        if getattr(super_setattr, PATCHED_BY_PSYGNAL, False):
+        patched: tuple[str, ...] = getattr(super_setattr, PATCHED_BY_PSYGNAL, ())
+        if signal_group_name in patched:
             return super_setattr
 
         # pick a slightly faster signal lookup if we don't need aliases
@@ -400,7 +401,7 @@ def evented_setattr(
             with _changes_emitted(self, name, signal):
                 super_setattr(self, name, value)
 
-        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, True)
+        setattr(_setattr_and_emit_, PATCHED_BY_PSYGNAL, (*patched, signal_group_name))
         return _setattr_and_emit_
 
     return _inner(super_setattr) if super_setattr else _inner
@@ -564,10 +565,10 @@ class SignalGroupDescriptor:
         """Patch the owner class's __setattr__ method to emit events."""
         if not self._patch_setattr:
             return
-        if getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, False):
+        name = self._name
+        if name in getattr(owner.__setattr__, PATCHED_BY_PSYGNAL, ()):
             return
 
-        name = self._name
         if not (name and hasattr(owner, name)):  # pragma: no cover
             # this should never happen... but if it does, we'll get errors
             # every time we set an attribute on the class.  So raise now.
-- 
2.43.0


From 11add13e2ca36e1e9b409d03d8f1497d013ce05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:03 +0000
Subject: [PATCH 40/75] fix: property setters inherited by an EventedModel have
 signals

Subclasses of a model with property setters had no signal for them, and setting
a field that such a property depends on raised KeyError.
---
 src/psygnal/_evented_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 353b26a..225946d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -279,8 +279,9 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
                     attr = attr.wrapped
                 if isinstance(attr, property) and attr.fset is not None:
                     cls.__property_setters__[key] = attr
-                    recursion = emission_map.get(key, default_strategy)
-                    signals[key] = Signal(object, reemission=recursion)
+            for key in cls.__property_setters__:
+                recursion = emission_map.get(key, default_strategy)
+                signals[key] = Signal(object, reemission=recursion)
         else:
             for b in cls.__bases__:
                 with suppress(AttributeError):
-- 
2.43.0


From 758fe3ac612fa2bfae4db28b78d10a68e0fde83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:06 +0000
Subject: [PATCH 41/75] fix: EventedModel.reset restores the declared defaults

Required fields were set to PydanticUndefined, fields with a default_factory to
None (or a dict), and nested models to the defaults of their class instead of the
default of the field.
---
 src/psygnal/_evented_model.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 225946d..d311f4c 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -112,7 +112,12 @@ if not PYDANTIC_V1:
         """Get possibly nested default values for a Model object."""
         dflt = {}
         for k, v in obj.model_fields.items():
-            d = v.get_default()
+            if v.is_required():
+                continue  # there is no default
+            if getattr(v, "default_factory_takes_validated_data", False):
+                d = v.get_default(call_default_factory=True, validated_data=dflt)
+            else:
+                d = v.get_default(call_default_factory=True)
             if (
                 d is None
                 and isinstance(v.annotation, type)
@@ -547,11 +552,15 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
 
     def reset(self) -> None:
         """Reset the state of the model to default values."""
+        self._reset_to(self._defaults)
+
+    def _reset_to(self, values: dict[str, Any]) -> None:
         model_config = _get_config(self)
         model_fields = _get_fields(self)
-        for name, value in self._defaults.items():
-            if isinstance(value, EventedModel):
-                cast("EventedModel", getattr(self, name)).reset()
+        for name, value in values.items():
+            current = getattr(self, name)
+            if isinstance(value, EventedModel) and type(current) is type(value):
+                current._reset_to({n: getattr(value, n) for n in _get_fields(value)})
             elif not model_config.get("frozen") and not model_fields[name].frozen:
                 setattr(self, name, value)
 
-- 
2.43.0


From 7acc35ca4afba6235c3aa55f99911b6559c7f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:18 +0000
Subject: [PATCH 42/75] fix: EventedModel.update with another model

With recurse=False nested models (and with recurse=True those that the updated
model does not have yet) were replaced by dicts, and models with a read-only
computed field could not be used at all.
---
 src/psygnal/_evented_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index d311f4c..efefe98 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -537,7 +537,13 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             different realized types with different fields.
         """
         if isinstance(values, pydantic.BaseModel):
-            values = _model_dump(values)
+            model, values = values, _model_dump(values)
+            computed = getattr(type(model), "model_computed_fields", ())
+            for key in list(values):
+                if key in computed and key not in self.__property_setters__:
+                    del values[key]  # it cannot be set
+                elif isinstance(value := getattr(model, key, None), pydantic.BaseModel):
+                    values[key] = value  # nested models remain models
 
         if not isinstance(values, dict):  # pragma: no cover
             raise TypeError(f"values must be a dict or BaseModel. got {type(values)}")
-- 
2.43.0


From d038139cd4a25cc29754f630e783a36d34544228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 43/75] fix: unpickled SignalGroups work at group level

---
 src/psygnal/_group.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index bf537ef..614cea0 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -71,6 +71,21 @@ class SignalRelay(SignalInstance):
         self._signals = MappingProxyType(signals)
         self._sig_was_blocked: dict[str, bool] = {}
 
+    def __getstate__(self) -> dict:
+        """Return dict of current state, for pickle."""
+        state = super().__getstate__()
+        state["_signals"] = dict(self._signals)
+        state["_sig_was_blocked"] = self._sig_was_blocked
+        # as in `SignalGroup.__deepcopy__`, callbacks of the group are not copied: the
+        # signals of the group have lost their connection to this relay.
+        state["_slots"] = []
+        return state
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from pickle."""
+        state = {**state, "_signals": MappingProxyType(state["_signals"])}
+        super().__setstate__(state)
+
     def _append_slot(self, slot: WeakCallback) -> None:
         super()._append_slot(slot)
         if len(self._slots) == 1:
-- 
2.43.0


From 6923c83587ed670ebcda7e26cf8b29e42977705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 44/75] fix: the deep copy of a group belongs to the copy of
 its instance

---
 src/psygnal/_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 614cea0..3fdf9dc 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -487,7 +487,9 @@ class SignalGroup:
         # This really isn't a deep copy. Should we also copy connections?
         # a working deepcopy is important for pydantic support, but in most cases
         # it will be a group without any signals connected
-        return type(self)(instance=self._psygnal_relay.instance)
+        instance = self._psygnal_relay.instance
+        # if the instance is being copied along, the new group belongs to the copy
+        return type(self)(instance=memo.get(id(instance), instance))
 
     # The rest are passthrough methods to the SignalRelay.
     # The full signatures are here to make mypy and IDEs happy.
-- 
2.43.0


From b390459e23c606adae88a51a224572434440667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 45/75] fix: copies of an EventedModel have their own events

---
 src/psygnal/_evented_model.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index efefe98..146655d 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -29,6 +29,7 @@ if TYPE_CHECKING:
     from pydantic._internal import _model_construction as pydantic_main
     from pydantic._internal import _utils as utils
     from pydantic._internal._decorators import PydanticDescriptorProxy
+    from typing_extensions import Self  # py311
     from typing_extensions import TypeGuard  # py310
     from typing_extensions import dataclass_transform as dataclass_transform  # py311
 
@@ -491,6 +492,34 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # will add _events: SignalGroup to the __init__ signature, for *all* user models
         _model_self_._events = Group(_model_self_)  # type: ignore [misc]
 
+    if not PYDANTIC_V1:
+        # a copy has events of its own (without the listeners of this model)
+
+        def __copy__(self) -> "Self":
+            return super().__copy__()._with_new_events()
+
+        def __deepcopy__(self, memo: Union[dict[int, Any], None] = None) -> "Self":
+            return super().__deepcopy__(memo)._with_new_events()
+
+        def __getstate__(self) -> dict[Any, Any]:
+            state = super().__getstate__()
+            state["__dict__"] = {
+                k: v for k, v in state["__dict__"].items() if k != "_events"
+            }
+            return state
+
+        def __setstate__(self, state: dict[Any, Any]) -> None:
+            super().__setstate__(state)
+            self._with_new_events()
+
+        def _with_new_events(self) -> "Self":
+            self._events = self.__signal_group__(self)  # type: ignore [misc]
+            # changes of the original that are waiting to be emitted
+            self._changes_queue = {}
+            self._primary_changes = set()
+            self._delay_check_semaphore = 0
+            return self
+
     # expose the private SignalGroup publicly
     @property
     def events(self) -> SignalGroup:
-- 
2.43.0


From 91b9078acdecc49ae623088189f8209b8c37fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 46/75] fix: deep copied and unpickled lists relay and follow
 their items

---
 src/psygnal/containers/_evented_list.py            | 8 ++++++++
 src/psygnal/containers/_selectable_evented_list.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index ce91d19..833f87a 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -236,6 +236,14 @@ class EventedList(MutableSequence[_T]):
     def __copy__(self) -> Self:
         return self.copy()
 
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from a deepcopy or a pickle."""
+        self.__dict__.update(state)
+        # (connections of methods are not copied)
+        if self._child_events:
+            for child in self._data:
+                self._connect_child_emitters(child)
+
     def __add__(self, other: Iterable[_T]) -> Self:
         """Add other to self, return new object."""
         copy = self.copy()
diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index b764ce6..86505cc 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -47,6 +47,14 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
         self._activate_on_insert: bool = True
         self._reversing: bool = False
         super().__init__(data=data, hashable=hashable, child_events=child_events)
+        self._connect_selection()
+
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from a deepcopy or a pickle."""
+        super().__setstate__(state)
+        self._connect_selection()
+
+    def _connect_selection(self) -> None:
         self.events.removed.connect(self._on_item_removed)
         self.events.changed.connect(self._on_item_changed)
 
-- 
2.43.0


From 982a23d42fb3f60c867e04c98a44d32592bbf45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:21 +0000
Subject: [PATCH 47/75] fix: a Signal declared with a name always gives the
 same instance

---
 src/psygnal/_signal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 18c9af3..9529943 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -312,6 +312,8 @@ class Signal:
         self._reemission = reemission
         self._signal_instance_class: type[SignalInstance] = SignalInstance
         self._signal_instance_cache: dict[int, SignalInstance] = {}
+        # name of the class attribute that this signal has been assigned to
+        self._attr_name: str | None = None
 
         if types and isinstance(types[0], Signature):
             self._signature = types[0]
@@ -333,6 +335,8 @@ class Signal:
         """Set name of signal when declared as a class attribute on `owner`."""
         if self._name is None:
             self._name = name
+        if self._attr_name is None:
+            self._attr_name = name
 
     @overload
     def __get__(self, instance: None, owner: type[Any] | None = None) -> Signal: ...
@@ -372,10 +376,12 @@ class Signal:
 
         # cache this signal instance so that future access returns the same instance.
         try:
-            # first, try to assign it to instance.name ... this essentially breaks the
+            # first, try to assign it to the attribute of the instance ... this essentially breaks the
             # descriptor, (i.e. __get__ will never again be called for this instance)
             # (note, this is the same mechanism used in the `cached_property` decorator)
-            setattr(instance, cast("str", self._name), signal_instance)
+            # (the name of the attribute is not necessarily that of the signal)
+            attr_name = self._attr_name or cast("str", self._name)
+            setattr(instance, attr_name, signal_instance)
         except AttributeError:
             # if that fails, which may happen in slotted classes, then we fall back to
             # our internal cache
-- 
2.43.0


From e81d8b8544ad6b8417832822c406dd5db632bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 48/75] fix: an in-place matmul of an EventedObjectProxy emits
 in_place only

---
 src/psygnal/containers/_evented_proxy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 87b2539..8bcb199 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -122,8 +122,11 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
 
     def __imatmul__(self, other: Any) -> T:
         self.events.in_place("matmul", other)
-        self.__wrapped__ @= other  # not in wrapt  # type: ignore
-        return self
+        wrapped = self.__wrapped__  # not in wrapt
+        wrapped @= other
+        # (this is not a change of an attribute of the wrapped object)
+        super().__setattr__("__wrapped__", wrapped)
+        return self  # type: ignore
 
     def __itruediv__(self, other: Any) -> T:
         self.events.in_place("truediv", other)
-- 
2.43.0


From 1164de957745a185ae9174118534e8caec2a19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 49/75] fix: identify item setters by their key, not by its
 repr

disconnect_setitem() removed the connection of another key with the same repr, and did
not find a key that is equal but has a different repr (e.g. `1` and `True`).
---
 src/psygnal/_weak_callback.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 8454490..0198c95 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -591,7 +591,7 @@ class WeakSetitem(WeakCallback):
         priority: int = 0,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
-        self._key += f".__setitem__({key!r})"
+        self._key += ".__setitem__"
         self._obj_ref = self._try_ref(obj, finalize)
         self._itemkey = key
         self._object_repr += f".__setitem__({key!r}, ...)"
@@ -600,6 +600,14 @@ class WeakSetitem(WeakCallback):
         obj = self._obj_ref()
         return f"{obj.__class__.__qualname__}.__setitem__({self._itemkey!r}, ...)"
 
+    def _has_same_bound_args(self, other: WeakCallback) -> bool:
+        # (the repr does not identify a key: different keys may have the same one)
+        key, other_key = self._itemkey, getattr(other, "_itemkey", None)
+        try:
+            return bool(key is other_key or key == other_key)
+        except Exception:  # e.g. ambiguous truth value of an array
+            return repr(key) == repr(other_key)
+
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         obj = self._obj_ref()
         if obj is None:
-- 
2.43.0


From 93bcaa7b0b7b63ad34311142d0c4ab87159bba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 50/75] fix: monitor_events accepts bound methods (and
 functions with defaults) as logger

---
 src/psygnal/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e37a290..270e8ac 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -43,8 +43,14 @@ def monitor_events(
         Whether private signals (starting with an underscore) should also be logged,
         by default False
     """
-    code = getattr(logger, "__code__", None)
-    _old_api = bool(code and code.co_argcount > 1)
+    _old_api = False
+    if code := getattr(logger, "__code__", None):
+        # number of required positional arguments
+        # (not counting the `self` that is bound to a method)
+        nargs = code.co_argcount - len(getattr(logger, "__defaults__", None) or ())
+        if getattr(logger, "__self__", None) is not None:
+            nargs -= 1
+        _old_api = nargs > 1
 
     if obj is None:
         # install the hook globally
-- 
2.43.0


From 75e68aa646108babf20ecf7eee4a25972be8b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 51/75] fix: iter_signal_instances yields each SignalInstance
 once

---
 src/psygnal/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index 270e8ac..e82a966 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -115,15 +115,20 @@ def iter_signal_instances(
         return
 
     # Signal attached to Class
+    seen: list[SignalInstance] = []
     for n in dir(obj):
         if not include_private_attrs and n.startswith("_"):
             continue
         with suppress(AttributeError, FutureWarning):
             attr = getattr(obj, n)
-            if isinstance(attr, SignalInstance):
-                yield attr
             if isinstance(attr, SignalGroup):
-                yield attr._psygnal_relay
+                attr = attr._psygnal_relay
+            # the same instance may be found under more than one name
+            if isinstance(attr, SignalInstance) and not any(
+                attr is s for s in seen
+            ):
+                seen.append(attr)
+                yield attr
 
 
 _COMPILED_EXTS = (".so", ".pyd")
-- 
2.43.0


From 276d88908d4a0a257e762d878c514d87a74e9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:53 +0000
Subject: [PATCH 52/75] fix: iter_signal_instances skips the private signals of
 a SignalGroup too

---
 src/psygnal/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/utils.py b/src/psygnal/utils.py
index e82a966..845042c 100644
--- a/src/psygnal/utils.py
+++ b/src/psygnal/utils.py
@@ -111,7 +111,8 @@ def iter_signal_instances(
     # SignalGroup
     if isinstance(obj, SignalGroup):
         for sig in obj:
-            yield obj[sig]
+            if include_private_attrs or not sig.startswith("_"):
+                yield obj[sig]
         return
 
     # Signal attached to Class
-- 
2.43.0


From 218704370da541727e7effdd40c05d713a3fdbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 53/75] fix: monitor_events() also reports emissions that were
 held back by a pause

---
 src/psygnal/_group.py  |  4 ++++
 src/psygnal/_signal.py | 14 +++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 3fdf9dc..46e4f69 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -117,6 +117,10 @@ class SignalRelay(SignalInstance):
                 return
             self._run_emit_loop((info,))
 
+    def _emit_held_back(self, args: tuple[Any, ...]) -> None:
+        # the debug hook was called when the member of the group was emitted
+        self._run_emit_loop(args)
+
     def connect_direct(
         self,
         slot: Callable | None = None,
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 9529943..8876e15 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1212,6 +1212,10 @@ class SignalInstance:
             self._args_queue.append(args)
             return
 
+        self._emit_args(args)
+
+    def _emit_args(self, args: tuple[Any, ...]) -> None:
+        """Call the debug hook, then run the emit loop."""
         if SignalInstance._debug_hook is not None:
             from ._group import EmissionInfo
 
@@ -1219,6 +1223,10 @@ class SignalInstance:
 
         self._run_emit_loop(args)
 
+    def _emit_held_back(self, args: tuple[Any, ...]) -> None:
+        """Emit `args` that were held back while this signal was paused."""
+        self._emit_args(args)
+
     def emit_fast(self, *args: Any) -> None:
         """Fast emit without any checks.
 
@@ -1446,7 +1454,7 @@ class SignalInstance:
         # is never delivered again, (by a callback that pauses and resumes this signal,
         # or by the next `resume()` if a callback raises an exception).
         queue, self._args_queue = self._args_queue, []
-        if len(self._slots) == 0:
+        if len(self._slots) == 0 and SignalInstance._debug_hook is None:
             return
 
         if reducer is not None:
@@ -1458,10 +1466,10 @@ class SignalInstance:
                     args = reduce(reducer, queue)
                 else:
                     args = reduce(reducer, queue, initial)
-            self._run_emit_loop(args)
+            self._emit_held_back(args)
         else:
             for args in queue:
-                self._run_emit_loop(args)
+                self._emit_held_back(args)
 
     def paused(
         self, reducer: ReducerFunc | None = None, initial: Any = _NULL
-- 
2.43.0


From 1af6fd6da463297641763c058b6e375abdeaaf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 54/75] fix: connect() honours on_ref_error when check_nargs is
 on, (as it is by default)

---
 src/psygnal/_signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 8876e15..057492c 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1104,7 +1104,9 @@ class SignalInstance:
             )
             self._raise_connection_error(slot, extra)
 
-        return None if isinstance(slot_sig, str) else slot_sig, maxargs, True
+        if isinstance(slot_sig, str):
+            return None, maxargs, True
+        return slot_sig, maxargs, False
 
     def _raise_connection_error(self, slot: Callable, extra: str = "") -> NoReturn:
         name = getattr(slot, "__name__", str(slot))
-- 
2.43.0


From b9ea25e538253e4dc979f39ea3951a641df5b24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 55/75] fix: a SignalGroup inherits the signals with reserved
 names of all its bases

---
 src/psygnal/_group.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 46e4f69..13eb485 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -364,13 +364,13 @@ class SignalGroup:
             if isinstance(val, Signal):
                 _psygnal_signals[k] = val
 
-        # Collect the Signals also from super-class
+        # Collect the Signals also from all super-classes
         # When subclassing, the Signals have been removed from the attributes,
         # look for cls._psygnal_signals also
-        cls._psygnal_signals = {
-            **getattr(cls, "_psygnal_signals", {}),
-            **_psygnal_signals,
-        }
+        _inherited_signals = {}
+        for base in reversed(cls.__mro__[1:]):
+            _inherited_signals.update(base.__dict__.get("_psygnal_signals", {}))
+        cls._psygnal_signals = {**_inherited_signals, **_psygnal_signals}
 
         # Emit warning for signal names conflicting with SignalGroup attributes
         reserved = set(dir(SignalGroup))
-- 
2.43.0


From dea5b5bd8d3b29acf6f3adc7e24c35771f75069f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 56/75] fix: a copy of a SignalInstance made during an emission
 is not itself emitting

---
 src/psygnal/_signal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 057492c..58dd00f 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1544,6 +1544,10 @@ class SignalInstance:
                 self._instance = self._instance_ref(v)
             else:
                 setattr(self, k, v)
+        # an emission that was in progress when the state was taken isn't in progress here
+        self._emit_queue = deque()
+        self._recursion_depth = 0
+        self._max_recursion_depth = 0
         self._lock = threading.RLock()
         self._n_removals = 0
         if self._reemission == ReemissionMode.QUEUED:  # pragma: no cover
-- 
2.43.0


From 5a53905107972dca598a77f303636eb0ca3fbed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 57/75] fix: copies of a Selection made while its active item
 is set update their own

---
 src/psygnal/containers/_selection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 6d6a93a..732d53b 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -83,6 +83,12 @@ class Selection(EventedOrderedSet[_T]):
         super().__init__(iterable=data)
         self._update_active()
 
+    def __setstate__(self, state: dict) -> None:
+        """Restore state from a deepcopy or a pickle."""
+        self.__dict__.update(state)
+        # (it may have been copied by a callback, while the active item was being set)
+        self._setting_active = False
+
     @property
     def _current(self) -> _T | None:  # pragma: no cover
         """Get current item."""
-- 
2.43.0


From a4928242daf1fbf9d6ba090efb5aa9dca63aaa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 58/75] fix: copies of a SelectableEventedList made while it is
 reversed update their selection

---
 src/psygnal/containers/_selectable_evented_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/containers/_selectable_evented_list.py b/src/psygnal/containers/_selectable_evented_list.py
index 86505cc..6c74377 100644
--- a/src/psygnal/containers/_selectable_evented_list.py
+++ b/src/psygnal/containers/_selectable_evented_list.py
@@ -52,6 +52,8 @@ class SelectableEventedList(Selectable[_T], EventedList[_T]):
     def __setstate__(self, state: dict) -> None:
         """Restore state from a deepcopy or a pickle."""
         super().__setstate__(state)
+        # (it may have been copied by a callback, while the list was being reversed)
+        self._reversing = False
         self._connect_selection()
 
     def _connect_selection(self) -> None:
-- 
2.43.0


From 64c1d4aaaab9f3e652b5ac98400d09fdf23029a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 59/75] fix: a callback that makes the item active that was
 active so far, selects only that item

---
 src/psygnal/containers/_selection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 732d53b..7b56595 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -115,6 +115,9 @@ class Selection(EventedOrderedSet[_T]):
         """
         if value == self._active:
             if value is not None:
+                # (if set by a callback, the selection may yet differ from `_active`)
+                if len(self) != 1 or value not in self:
+                    self.select_only(value)
                 self._current = value
             return
         if value is not None:
-- 
2.43.0


From 04d7987570888bc37368ae3c2ea86a4af3f5934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 60/75] fix: copies of a Selection made by a callback have the
 active item of their contents

---
 src/psygnal/containers/_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index 7b56595..b80ac4d 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -86,8 +86,9 @@ class Selection(EventedOrderedSet[_T]):
     def __setstate__(self, state: dict) -> None:
         """Restore state from a deepcopy or a pickle."""
         self.__dict__.update(state)
-        # (it may have been copied by a callback, while the active item was being set)
+        # (it may have been copied by a callback, before the active item was updated)
         self._setting_active = False
+        self._active = next(iter(self)) if len(self) == 1 else None
 
     @property
     def _current(self) -> _T | None:  # pragma: no cover
-- 
2.43.0


From d2708d7268e1fab6c4b414ab5ebee81fb03c3b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 61/75] fix: call setters and builtin methods with all their
 bound arguments

partial(setattr, obj, "x", 5) set () and partial(d.__setitem__, "k", 5) dropped the
value; partial(setattr, obj), an unbound-key __setitem__ and partials of builtins with
keywords could not be connected at all.
---
 src/psygnal/_weak_callback.py | 47 ++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 0198c95..2c31d2c 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -134,39 +134,27 @@ def weak_callback(
         )
 
     if isinstance(cb, MethodType):
-        if getattr(cb, "__name__", None) == "__setitem__":
-            try:
-                key = args[0]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "WeakCallback.__setitem__ requires a key argument"
-                ) from e
+        if (
+            getattr(cb, "__name__", None) == "__setitem__"
+            and len(args) == 1
+            and not kwargs
+        ):
             obj = cast("SupportsSetitem", cb.__self__)
             return WeakSetitem(
-                obj, key, max_args, finalize, on_ref_error, priority=priority
+                obj, args[0], max_args, finalize, on_ref_error, priority=priority
             )
         return WeakMethod(
             cb, max_args, args, kwargs, finalize, on_ref_error, priority=priority
         )
 
     if isinstance(cb, (MethodWrapperType, BuiltinMethodType)):
-        if kwargs:  # pragma: no cover
-            raise NotImplementedError(
-                "MethodWrapperTypes do not support keyword arguments"
-            )
-
-        if cb is setattr:
-            try:
-                obj, attr = args[:2]
-            except IndexError as e:  # pragma: no cover
-                raise TypeError(
-                    "setattr requires two arguments, an object and an attribute name."
-                ) from e
+        if cb is setattr and len(args) >= 2 and not kwargs:
+            obj, attr, *bound = args
             return WeakSetattr(
-                obj, attr, max_args, finalize, on_ref_error, priority=priority
+                obj, attr, max_args, finalize, on_ref_error, priority, tuple(bound)
             )
         return WeakBuiltin(
-            cb, max_args, args, finalize, on_ref_error, priority=priority
+            cb, max_args, args, finalize, on_ref_error, priority, kwargs
         )
 
     if _is_toolz_curry(cb):
@@ -514,11 +502,13 @@ class WeakBuiltin(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        kwargs: dict[str, Any] | None = None,
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._obj_ref = self._try_ref(obj.__self__, finalize)
         self._func_name = obj.__name__
         self._args = args
+        self._kwargs = kwargs or {}
         if args:
             self._object_repr = f"{self._object_repr}{(*args,)!r}".replace(")", " ...)")
 
@@ -531,9 +521,9 @@ class WeakBuiltin(WeakCallback):
         if func is None:
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is None:
-            func(*self._args, *args)
+            func(*self._args, *args, **self._kwargs)
         else:
-            func(*self._args, *args[: self._max_args])
+            func(*self._args, *args[: self._max_args], **self._kwargs)
 
     def dereference(self) -> MethodWrapperType | BuiltinMethodType | None:
         return getattr(self._obj_ref(), self._func_name, None)
@@ -550,11 +540,13 @@ class WeakSetattr(WeakCallback):
         finalize: Callable | None = None,
         on_ref_error: RefErrorChoice = "warn",
         priority: int = 0,
+        args: tuple[Any, ...] = (),
     ) -> None:
         super().__init__(obj, max_args, on_ref_error, priority)
         self._key += f".__setattr__({attr!r})"
         self._obj_ref = self._try_ref(obj, finalize)
         self._attr = attr
+        self._args = args  # already bound (with partial)
         self._object_repr += f".__setattr__({attr!r}, ...)"
 
     def slot_repr(self) -> str:
@@ -567,11 +559,14 @@ class WeakSetattr(WeakCallback):
             raise ReferenceError("weakly-referenced object no longer exists")
         if self._max_args is not None:
             args = args[: self._max_args]
-        setattr(obj, self._attr, args[0] if len(args) == 1 else args)
+        if self._args:
+            setattr(obj, self._attr, *self._args, *args)
+        else:
+            setattr(obj, self._attr, args[0] if len(args) == 1 else args)
 
     def dereference(self) -> partial | None:
         obj = self._obj_ref()
-        return None if obj is None else partial(setattr, obj, self._attr)
+        return None if obj is None else partial(setattr, obj, self._attr, *self._args)
 
 
 class SupportsSetitem(Protocol):
-- 
2.43.0


From 36a443133554a9a6d5a59d653ab92fce1ac02f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 62/75] fix: keep the order of the items when validating fields
 of ordered sets with pydantic

---
 src/psygnal/containers/_evented_set.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/containers/_evented_set.py b/src/psygnal/containers/_evented_set.py
index 797df96..14895f3 100644
--- a/src/psygnal/containers/_evented_set.py
+++ b/src/psygnal/containers/_evented_set.py
@@ -190,12 +190,17 @@ class _BaseMutableSet(MutableSet[_T]):
         from pydantic_core import core_schema
 
         args = get_args(source_type)
-        return core_schema.no_info_after_validator_function(
-            function=cls,
-            schema=core_schema.set_schema(
-                items_schema=handler(args[0]) if args else None,
-            ),
-        )
+        items_schema = handler(args[0]) if args else None
+        schema: Mapping[str, Any]
+        if issubclass(cls, OrderedSet):
+            # (a set would lose the order of the items)
+            schema = core_schema.list_schema(
+                items_schema=items_schema,
+                metadata={"pydantic_js_updates": {"uniqueItems": True}},
+            )
+        else:
+            schema = core_schema.set_schema(items_schema=items_schema)
+        return core_schema.no_info_after_validator_function(function=cls, schema=schema)
 
 
 class OrderedSet(_BaseMutableSet[_T]):
-- 
2.43.0


From e94c8239f002673a5aa495aa8aac0e8e895949a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 63/75] fix: values that cannot be compared do not change how
 other values of the field are

An array (or an incomparable value) assigned once to a field replaced the comparison of
that field for all instances of the class for good.
---
 src/psygnal/_group_descriptor.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index fefa0e6..5ee5158 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -99,23 +99,22 @@ def _check_field_equality(
         if _fail:
             raise  # pragma: no cover
 
-        # if we fail, we try to pick a new equality operator
-        # if it's a numpy array, we use np.array_equal
+        # if we fail, we try another equality operator (for these two values only:
+        # other values of this field may well be comparable)
+        # if one is a numpy array, we use np.array_equal
         # finally, fallback to operator.is_
         np = sys.modules.get("numpy", None)
         if (
-            hasattr(after, "__array__")
+            (hasattr(after, "__array__") or hasattr(before, "__array__"))
             and np is not None
             and are_equal is not np.array_equal
         ):
-            eq_map[name] = np.array_equal
-            return _check_field_equality(cls, name, before, after, _fail=False)
-        else:  # pragma: no cover
-            # at some point, dask array started hitting in the above condition
-            # so we add explicit casing in _pick_equality_operator
-            # but we keep this fallback just in case
-            eq_map[name] = operator.is_
-            return _check_field_equality(cls, name, before, after, _fail=True)
+            with contextlib.suppress(Exception):
+                return bool(np.array_equal(after, before))
+        # at some point, dask array started hitting in the above condition
+        # so we add explicit casing in _pick_equality_operator
+        # but we keep this fallback just in case
+        return after is before
 
 
 def _pick_equality_operator(type_: type | None) -> EqOperator:
-- 
2.43.0


From 6d68e1a26b670cb6a3fe8cd244e30ac2f60517ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 64/75] fix: blocked() and paused() contexts restore the state
 found when they are entered

---
 src/psygnal/_group.py  | 19 +++++++++----------
 src/psygnal/_signal.py | 12 ++++++++----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 13eb485..957b5b4 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -245,27 +245,26 @@ class _RelayBlocker:
     ) -> None:
         self._relay = relay
         self._exclude = exclude
-        self._was_blocked = False
-        self._sig_was_blocked: dict[str, bool] = {}
-        self._restore: dict[str, bool] = {}
+        # the states found at each entry that has not been left yet
+        self._restore: list[tuple[bool, dict[str, bool], dict[str, bool]]] = []
 
     def __enter__(self) -> None:
         relay = self._relay
-        self._was_blocked = relay._is_blocked
-        self._sig_was_blocked = relay._sig_was_blocked.copy()
-        self._restore = {
+        was_blocked = {
             name: sig._is_blocked
             for name, sig in relay._signals.items()
             if not (name in self._exclude or sig in self._exclude)
         }
+        self._restore.append(
+            (relay._is_blocked, relay._sig_was_blocked.copy(), was_blocked)
+        )
         relay.block(exclude=self._exclude)
 
     def __exit__(self, *args: Any) -> None:
         relay = self._relay
-        relay._is_blocked = self._was_blocked
-        relay._sig_was_blocked = self._sig_was_blocked
-        for name, was_blocked in self._restore.items():
-            relay._signals[name]._is_blocked = was_blocked
+        relay._is_blocked, relay._sig_was_blocked, was_blocked = self._restore.pop()
+        for name, blocked in was_blocked.items():
+            relay._signals[name]._is_blocked = blocked
 
 
 # NOTE
diff --git a/src/psygnal/_signal.py b/src/psygnal/_signal.py
index 58dd00f..b922103 100644
--- a/src/psygnal/_signal.py
+++ b/src/psygnal/_signal.py
@@ -1566,13 +1566,15 @@ class _SignalBlocker:
     ) -> None:
         self._signal = signal
         self._exclude = exclude
-        self._was_blocked = signal._is_blocked
+        # the state found at each entry that has not been left yet
+        self._was_blocked: list[bool] = []
 
     def __enter__(self) -> None:
+        self._was_blocked.append(self._signal._is_blocked)
         self._signal.block(exclude=self._exclude)
 
     def __exit__(self, *args: Any) -> None:
-        if not self._was_blocked:
+        if not self._was_blocked.pop():
             self._signal.unblock()
 
 
@@ -1582,16 +1584,18 @@ class _SignalPauser:
     def __init__(
         self, signal: SignalInstance, reducer: ReducerFunc | None, initial: Any
     ) -> None:
-        self._was_paused = signal._is_paused
+        # the state found at each entry that has not been left yet
+        self._was_paused: list[bool] = []
         self._signal = signal
         self._reducer = reducer
         self._initial = initial
 
     def __enter__(self) -> None:
+        self._was_paused.append(self._signal._is_paused)
         self._signal.pause()
 
     def __exit__(self, *args: Any) -> None:
-        if not self._was_paused:
+        if not self._was_paused.pop():
             self._signal.resume(self._reducer, self._initial)
 
 
-- 
2.43.0


From 8d66ce3064da3642b14d372b048b15b69c6c5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:46 +0000
Subject: [PATCH 65/75] fix: descriptor uses the group of a class that no
 longer exists for a new class with the same id

---
 src/psygnal/_group_descriptor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 5ee5158..87ba53a 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -625,6 +625,8 @@ class SignalGroupDescriptor:
         type_id = id(owner)
         if type_id not in self._signal_groups:
             self._signal_groups[type_id] = self._create_group(owner)
+            # (once this class is gone, another one may have the same id)
+            weakref.finalize(owner, self._signal_groups.pop, type_id, None)
         return self._signal_groups[type_id]
 
     def _create_group(self, owner: type) -> type[SignalGroup]:
-- 
2.43.0


From 8a15a1c3e9a960794fdff1516bc4dd3c07b81845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:11 +0000
Subject: [PATCH 66/75] fix: model cannot be assigned any more after one of its
 properties could not be read

---
 src/psygnal/_evented_model.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 146655d..9d28327 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -199,7 +199,13 @@ class ComparisonDelayer:
 
     def __exit__(self, *_: Any, **__: Any) -> None:
         self._target._delay_check_semaphore -= 1
-        self._target._check_if_values_changed_and_emit_if_needed()
+        try:
+            self._target._check_if_values_changed_and_emit_if_needed()
+        except BaseException:
+            # e.g. a property could not be read: nothing may remain of this change
+            self._target._changes_queue.clear()
+            self._target._primary_changes.clear()
+            raise
 
 
 class EventedMetaclass(pydantic_main.ModelMetaclass):
@@ -674,7 +680,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         signal_instance: SignalInstance = group[name]
         if len(signal_instance) < 1:
             return self._super_setattr_(name, value)
-        old_value = getattr(self, name, object())
+        old_value = self._readable_value(name)
         self._super_setattr_(name, value)
         # the value may have been changed by a validator
         new_value = getattr(self, name, value)
@@ -707,13 +713,20 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
             return self._super_setattr_(name, value)
         self._primary_changes.add(name)
         if name not in self._changes_queue:
-            self._changes_queue[name] = getattr(self, name, object())
+            self._changes_queue[name] = self._readable_value(name)
 
         for dep in deps_with_callbacks:
             if dep not in self._changes_queue:
-                self._changes_queue[dep] = getattr(self, dep, object())
+                self._changes_queue[dep] = self._readable_value(dep)
         self._super_setattr_(name, value)
 
+    def _readable_value(self, name: str) -> Any:
+        """Return the current value, or a new object if it cannot be read."""
+        try:
+            return getattr(self, name)
+        except Exception:  # e.g. a property that is not defined for all values
+            return object()
+
     if PYDANTIC_V1:
 
         @contextmanager
-- 
2.43.0


From c4f17cecfab76f77d4f5a592ae1338632d7c2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:43 +0000
Subject: [PATCH 67/75] fix: item setters for other keys of an object are taken
 for one that is connected to a thread

---
 src/psygnal/_queue.py         | 3 +++
 src/psygnal/_weak_callback.py | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_queue.py b/src/psygnal/_queue.py
index 54153c6..57503f8 100644
--- a/src/psygnal/_queue.py
+++ b/src/psygnal/_queue.py
@@ -65,6 +65,9 @@ class QueuedCallback(WeakCallback):
     def dereference(self) -> Callable | None:
         return self._wrapped.dereference()
 
+    def _has_same_bound_args(self, other: WeakCallback) -> bool:
+        return self._wrapped._has_same_bound_args(other)
+
     @property
     def _bound_args(self) -> tuple[Any, ...]:
         return self._wrapped._bound_args
diff --git a/src/psygnal/_weak_callback.py b/src/psygnal/_weak_callback.py
index 2c31d2c..a5568e7 100644
--- a/src/psygnal/_weak_callback.py
+++ b/src/psygnal/_weak_callback.py
@@ -597,12 +597,16 @@ class WeakSetitem(WeakCallback):
 
     def _has_same_bound_args(self, other: WeakCallback) -> bool:
         # (the repr does not identify a key: different keys may have the same one)
-        key, other_key = self._itemkey, getattr(other, "_itemkey", None)
+        key, other_key = self._bound_args, other._bound_args
         try:
-            return bool(key is other_key or key == other_key)
+            return bool(key == other_key)
         except Exception:  # e.g. ambiguous truth value of an array
             return repr(key) == repr(other_key)
 
+    @property
+    def _bound_args(self) -> tuple[Any, ...]:
+        return (self._itemkey,)
+
     def cb(self, args: tuple[Any, ...] = ()) -> None:
         obj = self._obj_ref()
         if obj is None:
-- 
2.43.0


From c5dde3d61dbdc88ea3df0ff33e3637c280b61c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 68/75] fix: attributes and items that cannot be read cannot be
 set through a proxy

---
 src/psygnal/containers/_evented_proxy.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/psygnal/containers/_evented_proxy.py b/src/psygnal/containers/_evented_proxy.py
index 8bcb199..47783e2 100644
--- a/src/psygnal/containers/_evented_proxy.py
+++ b/src/psygnal/containers/_evented_proxy.py
@@ -1,4 +1,5 @@
 from functools import partial
+from operator import getitem
 from typing import Any, Callable, Generic, TypeVar
 from weakref import finalize
 
@@ -16,6 +17,14 @@ T = TypeVar("T")
 _UNSET = object()
 
 
+def _value_or_unset(get: Callable[[Any, Any], Any], obj: Any, key: Any) -> Any:
+    """Return `get(obj, key)`, or _UNSET if there is no value that can be read."""
+    try:
+        return get(obj, key)
+    except Exception:  # e.g. a new key in a dict, or an object without __getitem__
+        return _UNSET
+
+
 class ProxyEvents(SignalGroup):
     """ObjectProxy events."""
 
@@ -80,23 +89,20 @@ class EventedObjectProxy(ObjectProxy, Generic[T]):
         return _OBJ_CACHE[obj_id]
 
     def __setattr__(self, name: str, value: None) -> None:
-        before = getattr(self, name, _UNSET)
+        before = _value_or_unset(getattr, self, name)
         super().__setattr__(name, value)
-        if before is not (after := getattr(self, name, _UNSET)):
-            self.events.attribute_set(name, after)
+        if before is not (after := _value_or_unset(getattr, self, name)):
+            self.events.attribute_set(name, value if after is _UNSET else after)
 
     def __delattr__(self, name: str) -> None:
         super().__delattr__(name)
         self.events.attribute_deleted(name)
 
     def __setitem__(self, key: Any, value: Any) -> None:
-        try:
-            before = self[key]
-        except LookupError:  # e.g. a new key in a dict
-            before = _UNSET
+        before = _value_or_unset(getitem, self, key)
         super().__setitem__(key, value)
-        if before is not (after := self[key]):
-            self.events.item_set(key, after)
+        if before is not (after := _value_or_unset(getitem, self, key)):
+            self.events.item_set(key, value if after is _UNSET else after)
 
     def __delitem__(self, key: Any) -> None:
         super().__delitem__(key)
-- 
2.43.0


From d6a9e007d046e58a9adf29f8a6fa140265769606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:49 +0000
Subject: [PATCH 69/75] fix: model inherits the property setter of another base
 class than the property

---
 src/psygnal/_evented_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 9d28327..6e1d95a 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -282,9 +282,11 @@ class EventedMetaclass(pydantic_main.ModelMetaclass):
         cls.__property_setters__ = {}
         if allow_props:
             # inherit property setters from base classes
-            for b in reversed(cls.__bases__):
-                if hasattr(b, "__property_setters__"):
-                    cls.__property_setters__.update(b.__property_setters__)
+            # (from the class that defines them: there may be more than one)
+            for b in reversed(cls.__mro__[1:]):
+                for key, attr in getattr(b, "__property_setters__", {}).items():
+                    if key in vars(b):
+                        cls.__property_setters__[key] = attr
             # add property setters from this class
             for key, attr in namespace.items():
                 if _is_pydantic_descriptor_proxy(attr):
-- 
2.43.0


From 7773256d8c8807365a7f84889f6cb09cccbd5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 70/75] fix: model fields named like an attribute of a signal
 group cannot be assigned

---
 src/psygnal/_evented_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index 6e1d95a..e5656da 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -642,7 +642,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         with ComparisonDelayer(self):
             # Again delay comparison to avoid having events caused by callback functions
             for name, new_value in to_emit:
-                getattr(self._events, name)(new_value)
+                self._events[name](new_value)
 
     def __setattr__(self, name: str, value: Any) -> None:
         if (
@@ -687,7 +687,7 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
         # the value may have been changed by a validator
         new_value = getattr(self, name, value)
         if not _check_field_equality(type(self), name, new_value, old_value):
-            getattr(self._events, name)(new_value)
+            self._events[name](new_value)
 
     def _setattr_with_dependents(self, name: str, value: Any) -> None:
         """__setattr__ behavior when the class does properties."""
-- 
2.43.0


From ea1eb111b5e2a9b4d5117747e7c074a1a20206f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:28 +0000
Subject: [PATCH 71/75] fix: a callback refused by one signal of a group stays
 connected to the others

---
 src/psygnal/_group.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/psygnal/_group.py b/src/psygnal/_group.py
index 957b5b4..4909ac9 100644
--- a/src/psygnal/_group.py
+++ b/src/psygnal/_group.py
@@ -165,14 +165,30 @@ class SignalRelay(SignalInstance):
         """
 
         def _inner(slot: Callable) -> Callable:
-            for sig in self._signals.values():
-                sig.connect(
-                    slot,
-                    check_nargs=check_nargs,
-                    check_types=check_types,
-                    unique=unique,
-                    max_args=max_args,
-                )
+            connected: list[tuple[SignalInstance, WeakCallback]] = []
+            try:
+                for sig in self._signals.values():
+                    with sig._lock:
+                        before = {id(s) for s in sig._slots}
+                        sig.connect(
+                            slot,
+                            check_nargs=check_nargs,
+                            check_types=check_types,
+                            unique=unique,
+                            max_args=max_args,
+                        )
+                        connected.extend(
+                            (sig, s) for s in sig._slots if id(s) not in before
+                        )
+            except Exception:
+                # one of the signals refused it: don't connect it to the other ones
+                for sig, caller in connected:
+                    with sig._lock:
+                        for i, s in enumerate(sig._slots):
+                            if s is caller:
+                                sig._remove_slot(i)
+                                break
+                raise
             return slot
 
         return _inner if slot is None else _inner(slot)
-- 
2.43.0


From 396edc0ab470986a5966ca7e21e61f5b6c8dc4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 72/75] fix: models made by model_construct have no events and
 cannot be assigned

---
 src/psygnal/_evented_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psygnal/_evented_model.py b/src/psygnal/_evented_model.py
index e5656da..36334b7 100644
--- a/src/psygnal/_evented_model.py
+++ b/src/psygnal/_evented_model.py
@@ -503,6 +503,13 @@ class EventedModel(pydantic.BaseModel, metaclass=EventedMetaclass):
     if not PYDANTIC_V1:
         # a copy has events of its own (without the listeners of this model)
 
+        @classmethod
+        def model_construct(
+            cls, _fields_set: Union[set[str], None] = None, **values: Any
+        ) -> "Self":
+            # (`__init__` is not called)
+            return super().model_construct(_fields_set, **values)._with_new_events()
+
         def __copy__(self) -> "Self":
             return super().__copy__()._with_new_events()
 
-- 
2.43.0


From a660c2a19cec5dad8e3c8e25fc1aef79480961f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:35 +0000
Subject: [PATCH 73/75] fix: arrays of one or no element are compared as a
 whole in fields of any annotation

---
 src/psygnal/_group_descriptor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psygnal/_group_descriptor.py b/src/psygnal/_group_descriptor.py
index 87ba53a..5fe43cc 100644
--- a/src/psygnal/_group_descriptor.py
+++ b/src/psygnal/_group_descriptor.py
@@ -94,7 +94,15 @@ def _check_field_equality(
     are_equal = eq_map.setdefault(name, operator.eq)
     try:
         # may fail depending on the __eq__ method for the type
-        return bool(are_equal(after, before))
+        result = are_equal(after, before)
+        if (
+            are_equal is operator.eq
+            and (np := sys.modules.get("numpy", None)) is not None
+            and isinstance(result, np.ndarray)
+        ):
+            # element by element: compare the arrays as a whole
+            return bool(np.array_equal(after, before))
+        return bool(result)
     except Exception:
         if _fail:
             raise  # pragma: no cover
-- 
2.43.0


From 9ac62fbd13698807fa5d508f96bef6601eb72231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:38 +0000
Subject: [PATCH 74/75] fix: active item differs from the selected one after a
 listener failed

---
 src/psygnal/containers/_selection.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/psygnal/containers/_selection.py b/src/psygnal/containers/_selection.py
index b80ac4d..c25f389 100644
--- a/src/psygnal/containers/_selection.py
+++ b/src/psygnal/containers/_selection.py
@@ -123,11 +123,17 @@ class Selection(EventedOrderedSet[_T]):
             return
         if value is not None:
             self._check_in_parent(value)
-        self._active = value
+        previous, self._active = self._active, value
         # the changes made to the selection here are not to be notified separately
         self._setting_active = True
         try:
             self.clear() if value is None else self.select_only(value)
+        except BaseException:
+            # (e.g. a callback failed) only what is now selected can be active
+            self._setting_active = False
+            self._active = previous
+            self._update_active()
+            raise
         finally:
             self._setting_active = False
         self._current = value
@@ -175,8 +181,10 @@ class Selection(EventedOrderedSet[_T]):
 
     def _emit_change(self, added: tuple[_T, ...], removed: tuple[_T, ...]) -> None:
         """Emit a change event."""
-        super()._emit_change(added, removed)
-        self._update_active()
+        try:
+            super()._emit_change(added, removed)
+        finally:
+            self._update_active()
 
     def _check_in_parent(self, item: _T) -> None:
         if self._parent is not None and item not in self._parent:
-- 
2.43.0


From 0bd26a9bdabefc2b02b5b33717d4d874763cbea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 75/75] fix: events of evented containers in a list with child
 events are not re-emitted

---
 src/psygnal/containers/_evented_list.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/psygnal/containers/_evented_list.py b/src/psygnal/containers/_evented_list.py
index 833f87a..f63bf55 100644
--- a/src/psygnal/containers/_evented_list.py
+++ b/src/psygnal/containers/_evented_list.py
@@ -439,12 +439,15 @@ class EventedList(MutableSequence[_T]):
             return  # pragma: no cover
         obj = emitter.instance
         # look for the object itself first: other items may be equal to it
-        idx = next((i for i, item in enumerate(self._data) if item is obj), -1)
-        if idx == -1:  # pragma: no cover
-            try:
-                idx = self.index(obj)
-            except ValueError:
-                return
+        idx = next((i for i, x in enumerate(self._data) if x is obj and x is not None), -1)
+        if idx == -1:
+            # e.g. an evented container: its signals don't know whose signals they are
+            for i, item in enumerate(self._data):
+                if any(emitter is sig for sig in iter_signal_instances(item)):
+                    idx, obj = i, item
+                    break
+        if idx == -1:
+            return  # the child was removed in the meantime
 
         if (
             args
-- 
2.43.0

