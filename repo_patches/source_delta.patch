From 2e405c0a1398da3a89b00cf0178ee3880b44ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/82] fix: points and slots copy the data indexes dictionary
 they are created with

---
 timeseria/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..55b5f62 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -200,6 +200,8 @@ class DataPoint(Point):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Never share (and change) the dictionary of the caller
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
@@ -502,6 +504,8 @@ class DataSlot(Slot):
             else:
                 if not isinstance(data_indexes, dict):
                     raise ValueError('Got type "{}" for data_indexes, was expecitng a dict'.format(data_indexes.__class__.__name__))
+                # Never share (and change) the dictionary of the caller
+                data_indexes = dict(data_indexes)
         except KeyError:
             data_indexes = {}
         #else:
-- 
2.43.0


From ee09616048782926c30408ca7e196d2ed224c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 02/82] fix: time slots own their start and end points

---
 timeseria/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 55b5f62..220122f 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -431,6 +431,10 @@ class TimeSlot(Slot):
         #if end is None:
         #    self.end.change_tz(self.start.tz)
 
+        # Never share the start and end points, or changing the time zone of a slot would change other slots as well
+        self.start = copy(self.start)
+        self.end = copy(self.end)
+
         # Store time zone
         self.tz = start.tz
 
-- 
2.43.0


From 05a8d5ef23738ff2351be55de811561d05d0d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 03/82] fix: a refused item does not change the state of the
 time series

---
 timeseria/datastructures.py | 84 ++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 220122f..94b1f48 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1232,55 +1232,43 @@ class TimeSeries(Series):
         (or :obj:`TimePoint` and :obj:`TimeSlot`, which are useful in some particular circumstances) and in any case
         of the same type of the items already present in the time series, unless empty."""
 
-        if isinstance(item, TimePoint):
+        # Time zone and resolution to set, but only once the item has been accepted
+        tz = None
+        resolution = None
+        resolution_as_seconds = None
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
+        if isinstance(item, TimePoint):
 
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
+            # Check time ordering and handle the resolution.
+            if len(self)>0:
+                prev_t = self._item_by_i(-1).t
 
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
+                # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, prev_t)
+                if item.t < prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, prev_t))
 
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
+                if item.t == prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                    try:
-                        self._resolution
+                try:
+                    self._resolution
 
-                    except AttributeError:
+                except AttributeError:
 
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
+                    # Set the resolution as seconds for a bit of performance
+                    resolution_as_seconds = item.t - prev_t
 
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+                    # Set the resolution as time unit (up to the microsecond)
+                    time_diff = item.t - prev_t
+                    time_diff = int(time_diff*10000000)/10000000
+                    resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
 
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+                else:
+                    # If the resolution is constant (not variable), check that it still is
+                    if self._resolution != 'variable':
+                        if self._resolution_as_seconds != (item.t - prev_t):
+                            # ...otherwise, mark it as variable
+                            resolution = 'variable'
 
         elif isinstance(item, TimeSlot):
 
@@ -1290,7 +1278,7 @@ class TimeSeries(Series):
             # Check the timezone (only for slots, points are not affected by timezones)
             if not self.tz:
                 # If no timezone set, use the item one's
-                self._tz = item.tz
+                tz = item.tz
 
             else:
                 # Else, check for the same timezone
@@ -1309,14 +1297,24 @@ class TimeSeries(Series):
                     if abort:
                         raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
             except AttributeError:
-                self._resolution = item.unit
+                resolution = item.unit
 
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-        # Lastly, call the series append
+        # Call the series append
         super(TimeSeries, self).append(item)
 
+        # Lastly, now that the item has been accepted, update the time zone and the resolution
+        if tz is not None:
+            self._tz = tz
+        if resolution is not None:
+            self._resolution = resolution
+            if resolution_as_seconds is not None:
+                self._resolution_as_seconds = resolution_as_seconds
+            else:
+                self.__dict__.pop('_resolution_as_seconds', None)
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From 16f6bd849619ebd9050fbef80e645c6c393fac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 04/82] fix: resolution, time zone and detection caches follow
 the items of the series

---
 timeseria/datastructures.py | 88 ++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 21 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 94b1f48..473001e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -781,6 +781,7 @@ class Series(list):
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
             super(Series, self).insert(i,x)
+            self._items_changed()
 
         else:
             self.append(x)
@@ -798,6 +799,7 @@ class Series(list):
             pass
 
         super(Series, self).remove(x)
+        self._items_changed()
 
     def pop(self, i=None):
         """
@@ -815,13 +817,23 @@ class Series(list):
                     pass
                 else:
                     raise IndexError('Cannot pop an item in the middle of a series whose items follow a succession')
-            return super(Series, self).pop(i)
+            item = super(Series, self).pop(i)
         else:
-            return super(Series, self).pop()
+            item = super(Series, self).pop()
+        self._items_changed()
+        return item
 
     def clear(self):
         """Remove all items from the series."""
         super(Series, self).clear()
+        self._items_changed()
+
+    def _items_changed(self):
+        # Called after inserting or removing items: update what depends on them
+        try:
+            self._item_data_reference = self[0].data
+        except (IndexError, AttributeError):
+            self._item_data_reference = None
 
     def index(self, x, start=None, end=None):
         """
@@ -1250,25 +1262,7 @@ class TimeSeries(Series):
                 if item.t == prev_t:
                     raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                try:
-                    self._resolution
-
-                except AttributeError:
-
-                    # Set the resolution as seconds for a bit of performance
-                    resolution_as_seconds = item.t - prev_t
-
-                    # Set the resolution as time unit (up to the microsecond)
-                    time_diff = item.t - prev_t
-                    time_diff = int(time_diff*10000000)/10000000
-                    resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
-
-                else:
-                    # If the resolution is constant (not variable), check that it still is
-                    if self._resolution != 'variable':
-                        if self._resolution_as_seconds != (item.t - prev_t):
-                            # ...otherwise, mark it as variable
-                            resolution = 'variable'
+                resolution, resolution_as_seconds = self._compute_resolution(prev_t, item.t)
 
         elif isinstance(item, TimeSlot):
 
@@ -1308,6 +1302,35 @@ class TimeSeries(Series):
         # Lastly, now that the item has been accepted, update the time zone and the resolution
         if tz is not None:
             self._tz = tz
+        self._set_resolution(resolution, resolution_as_seconds)
+        self._clear_cache()
+
+    def _compute_resolution(self, prev_t, t):
+        # Returns the resolution to set (and its value as seconds) when there is a
+        # point at t right after the one at prev_t, or None if it does not change.
+        try:
+            self._resolution
+
+        except AttributeError:
+
+            # Set the resolution as seconds for a bit of performance
+            resolution_as_seconds = t - prev_t
+
+            # Set the resolution as time unit (up to the microsecond)
+            time_diff = t - prev_t
+            time_diff = int(time_diff*10000000)/10000000
+            return TimeUnit(_to_time_unit_string(time_diff, friendlier=True)), resolution_as_seconds
+
+        else:
+            # If the resolution is constant (not variable), check that it still is
+            if self._resolution != 'variable':
+                if self._resolution_as_seconds != (t - prev_t):
+                    # ...otherwise, mark it as variable
+                    return 'variable', None
+
+        return None, None
+
+    def _set_resolution(self, resolution, resolution_as_seconds):
         if resolution is not None:
             self._resolution = resolution
             if resolution_as_seconds is not None:
@@ -1315,6 +1338,29 @@ class TimeSeries(Series):
             else:
                 self.__dict__.pop('_resolution_as_seconds', None)
 
+    def _clear_cache(self):
+        # Delete what was detected on the items, as they changed
+        for attribute in ('_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution'):
+            self.__dict__.pop(attribute, None)
+
+    def _items_changed(self):
+        super(TimeSeries, self)._items_changed()
+        self._clear_cache()
+
+        # As long as there are slots, their resolution and time zone cannot change
+        if len(self)>0 and isinstance(self._item_by_i(0), TimeSlot):
+            return
+
+        # With no more slots there are no more constraints on the unit and time zone of the next one
+        resolution = self.__dict__.pop('_resolution', None)
+        resolution_as_seconds = self.__dict__.pop('_resolution_as_seconds', None)
+        if isinstance(resolution, TimeUnit) and resolution_as_seconds is None:
+            self.__dict__.pop('_tz', None)
+
+        # Re-compute the resolution of the points
+        for i in range(1, len(self)):
+            self._set_resolution(*self._compute_resolution(self._item_by_i(i-1).t, self._item_by_i(i).t))
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From a788d08eb68e072502eb01292266febccbbeb447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 05/82] fix: item assignment, deletion, in-place concatenation
 and repetition are disabled as the other list methods

---
 timeseria/datastructures.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 473001e..d426a56 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -861,10 +861,22 @@ class Series(list):
         return super(Series, self).__getitem__(**args)
 
     # Inherited methods to be disabled
-    def extend(self):
+    def extend(self, items=None):
         """Disabled (use the `merge` instead)."""
         raise NotImplementedError('Use the "merge()" instead')
 
+    def __iadd__(self, other):
+        raise NotImplementedError('Use the "merge()" instead')
+
+    def __imul__(self, other):
+        raise NotImplementedError('There is only one item by design')
+
+    def __setitem__(self, key, value):
+        raise NotImplementedError('Replacing items is not compatible with the ordering or succession')
+
+    def __delitem__(self, key):
+        raise NotImplementedError('Use the "pop()" or "remove()" instead')
+
     def count(self, x):
         """Disabled (there is only one item instance by design)."""
         raise NotImplementedError('There is only one item by design')
-- 
2.43.0


From 3c728f5cc5a49afece85dd57208fde5c00322989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 06/82] fix: inserting checks both neighbours, the data and the
 unit and time zone of slots

---
 timeseria/datastructures.py | 82 ++++++++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d426a56..1d5eb7b 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -689,14 +689,7 @@ class Series(list):
 
         # Check data type and set if not done already
         if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+            self._check_data(item)
         else:
             try:
                 self._item_data_reference = item.data
@@ -706,6 +699,19 @@ class Series(list):
         # Append
         super(Series, self).append(item)
 
+    def _check_data(self, item):
+        # Check that the data of an item is compatible with the one of the items already in the series
+        if not self._item_data_reference:
+            return
+        if not type(self._item_data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+        if isinstance(self._item_data_reference, list):
+            if len(self._item_data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+        if isinstance(self._item_data_reference, dict):
+            if set(self._item_data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+
     def __sum__(self, other):
         raise NotImplementedError
 
@@ -775,11 +781,19 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    # Negative positions count from the end, and out of range ones are not supported
+                    if not -len(self) <= i <= len(self):
+                        raise IndexError('Cannot insert an item in position "{}", out of range'.format(i)) from None
+                    if i < 0:
+                        i = len(self) + i
+                    if (i > 0 and not x > self[i-1]) or not self[i] > x:
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
 
+            # Check that the data is of the same kind
+            self._check_data(x)
+
             super(Series, self).insert(i,x)
             self._items_changed()
 
@@ -1281,28 +1295,12 @@ class TimeSeries(Series):
             # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
             # and if they have the same unit, which we test here instead as the __succedes__ is more general.
 
-            # Check the timezone (only for slots, points are not affected by timezones)
+            self._check_slot(item)
+
+            # If no time zone or resolution set, use the item ones
             if not self.tz:
-                # If no timezone set, use the item one's
                 tz = item.tz
-
-            else:
-                # Else, check for the same timezone
-                if self._tz != item.tz:
-                    raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
-
-            try:
-                if self._resolution != item.unit:
-                    # Try for floating point precision errors
-                    abort = False
-                    try:
-                        if not _is_close(self._resolution, item.unit):
-                            abort = True
-                    except (TypeError, ValueError, NotImplementedError):
-                        abort = True
-                    if abort:
-                        raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
-            except AttributeError:
+            if '_resolution' not in self.__dict__:
                 resolution = item.unit
 
         else:
@@ -1317,6 +1315,32 @@ class TimeSeries(Series):
         self._set_resolution(resolution, resolution_as_seconds)
         self._clear_cache()
 
+    def insert(self, i, x):
+        if len(self)>0 and isinstance(x, TimeSlot) and isinstance(x, self.item_type):
+            self._check_slot(x)
+        super(TimeSeries, self).insert(i, x)
+
+    def _check_slot(self, item):
+        # Check the timezone (only for slots, points are not affected by timezones)
+        if self.tz:
+            if self._tz != item.tz:
+                raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+
+        # Check the unit
+        try:
+            if self._resolution != item.unit:
+                # Try for floating point precision errors
+                abort = False
+                try:
+                    if not _is_close(self._resolution, item.unit):
+                        abort = True
+                except (TypeError, ValueError, NotImplementedError):
+                    abort = True
+                if abort:
+                    raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+        except AttributeError:
+            pass
+
     def _compute_resolution(self, prev_t, t):
         # Returns the resolution to set (and its value as seconds) when there is a
         # point at t right after the one at prev_t, or None if it does not change.
-- 
2.43.0


From 70ca7f8995e4d6424ca7032c4ef1f8525a03e106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 07/82] fix: the succession of slots is checked up to a
 microsecond

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1d5eb7b..635eb9a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -443,7 +443,7 @@ class TimeSlot(Slot):
     def __succedes__(self, other):
         if other.end.t != self.start.t:
             # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=1e-06):
                 return True
             return False
         else:
-- 
2.43.0


From 9f93fbe3dc5228f99a0af35bc08c85e81c44adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 08/82] fix: Series.index returns the index it finds and
 supports the default bounds

---
 timeseria/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 635eb9a..df2bc27 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -858,7 +858,11 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        if start is None:
+            start = 0
+        if end is None:
+            end = len(self)
+        return super(Series, self).index(x, start, end)
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From 9b1200aca57dd417b10ce07d2da116603226663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 09/82] fix: changing the time zone of an empty time series

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index df2bc27..b0800b1 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1470,7 +1470,7 @@ class TimeSeries(Series):
         """Change the time zone of the time series, in-place."""
         for time_point in self:
             time_point.change_tz(tz)
-        self._tz = time_point.tz
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
-- 
2.43.0


From 549029b519f9c24b7bb2c64ffc9555d3fe363ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 10/82] fix: loading as (or from CSV to) a subclass of
 TimeSeries returns the series

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b0800b1..ccccc41 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1599,7 +1599,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1691,7 +1691,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 7bd855d897e11da6ee9c6f60e34952a9a99b3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 11/82] fix: comparing a slot with something else gives False,
 as for points

---
 timeseria/datastructures.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ccccc41..934a686 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -349,11 +349,14 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
-        if not self.start == other.start:
-            return False
-        if not self.end == other.end:
+        try:
+            if not self.start == other.start:
+                return False
+            if not self.end == other.end:
+                return False
+            return True
+        except AttributeError:
             return False
-        return True
 
     def __succedes__(self, other):
         if other.end != self.start:
@@ -537,8 +540,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From 6be0e27c7472189ef7e1794c6386447e72919d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/82] fix: time series views are bounded to the items they
 cover

---
 timeseria/datastructures.py | 76 +++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 934a686..bca2be2 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1897,6 +1897,10 @@ class TimeSeriesView(TimeSeries):
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
         self.series = series
+        if series is not None:
+            # Same semantic as slicing: not set bounds are open, negative ones count from the end and the others are limited to the series
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.from_i = from_i
         self.to_i = to_i
         self.len = None
@@ -1905,34 +1909,21 @@ class TimeSeriesView(TimeSeries):
 
     def __getitem__(self, arg):
 
-        if self.series:
+        if self.series is not None:
 
             if isinstance(arg, slice):
 
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
+                if (arg.start is None or isinstance(arg.start, int)) and (arg.stop is None or isinstance(arg.stop, int)):
+                    slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                    return self.series[self.from_i + slice_start:self.from_i + slice_stop]
                 else:
-                    slice_stop = arg.stop
-
-                return self.series[slice_start:slice_stop]
+                    return super().__getitem__(arg)
 
             else:
                 if isinstance(arg, int):
+                    # TODO: also refuse negative positions on empty views, on which evaluating models with no window relies
+                    if arg >= len(self) or (len(self) and arg < -len(self)):
+                        raise IndexError('Position out of range for the view')
                     if arg>=0:
                         return self.series[self.from_i + arg]
                     else:
@@ -1942,36 +1933,39 @@ class TimeSeriesView(TimeSeries):
         else:
             return super().__getitem__(arg)
 
+    def _item_by_i(self, i):
+        if self.series is not None:
+            return self[i]
+        else:
+            return super()._item_by_i(i)
+
     def __iter__(self):
-        if self.series:
-            self.count = 0
-            return self
+        if self.series is not None:
+            # Every iteration has its own position
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
-        if self.series:
-            this_i = self.count + self.from_i
-
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
+    def __reversed__(self):
+        if self.series is not None:
+            return (self.series[i] for i in range(self.to_i-1, self.from_i-1, -1))
+        else:
+            return super().__reversed__()
 
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
+    def __contains__(self, item):
+        if self.series is not None:
+            return any(item == this_item for this_item in self)
         else:
-            return super().__next__()
+            return super().__contains__(item)
 
     def __len__(self):
-        if self.series:
+        if self.series is not None:
             return self.to_i-self.from_i
         else:
             return super().__len__()
 
     def __repr__(self):
-        if self.series:
+        if self.series is not None:
             return 'View from element #{} to element #{} of: {}'.format(self.from_i, self.to_i, self.series)
         else:
             return super().__repr__()
@@ -1984,20 +1978,20 @@ class TimeSeriesView(TimeSeries):
 
     @property
     def item_type(self):
-        if self.series:
+        if self.series is not None:
             return self.series.item_type
         else:
             return super().item_type
 
     @property
     def resolution(self):
-        if self.series:
+        if self.series is not None:
             return self.series.resolution
         else:
             return super().resolution
 
     def data_labels(self):
-        if self.series:
+        if self.series is not None:
             return self.series.data_labels()
         else:
             return super().data_labels()
-- 
2.43.0


From a3a05d38c468607accbb115fcf75f33ebe10fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 13/82] fix: negative positions before the first item are
 refused

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..b5dae3d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -837,6 +837,8 @@ class Get(Operation):
         # Handle negative index
         if at_i is not None and at_i < 0:
             at_i = len(series) - abs(at_i)
+            if at_i < 0:
+                raise IndexError('Position out of range')
 
         if at_i is not None:
             return series._item_by_i(at_i)
-- 
2.43.0


From 6ce1b35366adf6cb20ea0d335b857d848ab1d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 14/82] fix: slicing a time series with a step is refused
 instead of ignoring the step

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index bca2be2..a00f7d0 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1421,6 +1421,8 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
+            if arg.step not in (None, 1):
+                raise ValueError('Slicing with a step is not supported')
             if isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
             elif isinstance(arg.start, float) or isinstance(arg.stop, float):
-- 
2.43.0


From 357e22fc1f7f14af91555d86b0bddf57288f1879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 15/82] fix: filtered items do not share their data indexes,
 start and end with the original ones

---
 timeseria/operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index b5dae3d..e4c6035 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -869,6 +869,11 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            # Do not share the data indexes nor the start and end with the original item
+            filtered_item._data_indexes = dict(item.data_indexes)
+            if isinstance(item, Slot):
+                filtered_item.start = copy(item.start)
+                filtered_item.end = copy(item.end)
             filtered_series.append(filtered_item)
 
         # Re-set reference data as well
-- 
2.43.0


From fb19e6daa6067623cb98ff694e8a98ad2b672be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 16/82] fix: in-place derivative and integral work on the
 original labels and values, and integrals of several labels do not mix them

---
 timeseria/operations.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index e4c6035..417c3d7 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -264,6 +264,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # The labels (and the values) must be the original ones also when working in-place
+        data_labels = series.data_labels()
+        inplace_data = []
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +277,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -327,9 +331,9 @@ class Derivative(Operation):
                         der_data.append(diff)
                 else:
                     if data_is_keyvalue:
-                        item.data['{}_{}'.format(data_label, postfix)] = diff
+                        inplace_data.append((item, '{}_{}'.format(data_label, postfix), diff))
                     else:
-                        item.data[int(data_label)] = diff
+                        inplace_data.append((item, int(data_label), diff))
 
 
             # Create the item
@@ -348,6 +352,9 @@ class Derivative(Operation):
                 else:
                     raise NotImplementedError('Working on series other than slots or points not yet implemented')
 
+        for item, key, value in inplace_data:
+            item.data[key] = value
+
         if not inplace:
             return der_series
 
@@ -399,6 +406,11 @@ class Integral(Operation):
 
         last_values={}
 
+        # The labels (and the values) must be the original ones also when working in-place
+        data_labels = series.data_labels()
+        inplace_data = []
+        prev_right_components = {}
+
         for i, item in enumerate(series):
 
             # Do we have to create the previous point based on an offset?
@@ -440,7 +452,7 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
@@ -449,12 +461,12 @@ class Integral(Operation):
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_components[data_label] = series[i]._data_by_label(data_label)
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
@@ -484,9 +496,9 @@ class Integral(Operation):
                         data.append(value)
                 else:
                     if data_is_keyvalue:
-                        item.data['{}_{}'.format(data_label, postfix)] = value
+                        inplace_data.append((item, '{}_{}'.format(data_label, postfix), value))
                     else:
-                        item.data[int(data_label)] = value
+                        inplace_data.append((item, int(data_label), value))
 
 
                 last_values[data_label] = value
@@ -507,6 +519,9 @@ class Integral(Operation):
                 else:
                     raise NotImplementedError('Working on series other than slots or points not yet implemented')
 
+        for item, key, value in inplace_data:
+            item.data[key] = value
+
         if not inplace:
             return int_series
 
-- 
2.43.0


From 320c86aa5318eab8d6a5318ef65822ca2daf7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 17/82] fix: offsets given as a number with list data in
 integrals and cumulative sums

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 417c3d7..0a4ab80 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -433,7 +433,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
-- 
2.43.0


From fcf79c4c1fa33be7e1b72b262704df62f808dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 18/82] fix: typo in the error for a wrong moving average
 window

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 0a4ab80..b6d2c10 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -766,7 +766,7 @@ class MAvg(Operation):
         _check_indexed_data(series)
 
         if not window or window <1:
-            raise ValueError('A integer window >0 is required (got window="{}"'.frmat(window))
+            raise ValueError('A integer window >0 is required (got window="{}"'.format(window))
 
         if inplace:
             raise NotImplementedError('Computing a moving average in-place is not supported as it would change the series length')
-- 
2.43.0


From 05487ab00214db6f45568df9dd5f1c65ac35c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 19/82] fix: select refuses all the multiple conditions

---
 timeseria/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index b6d2c10..5df71cf 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1182,7 +1182,7 @@ class Select(Operation):
         _check_series_of_points_or_slots(series)
         _check_indexed_data(series)
 
-        if (' and ' or ' AND ' or ' or ' or ' OR ') in query:
+        if any(operator in query for operator in (' and ', ' AND ', ' or ', ' OR ')):
             raise NotImplementedError('Multiple conditions not yet supported')
 
         if '=' not in query:
-- 
2.43.0


From 51a222de8ff72ee825f742784062461dc0d2e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 20/82] fix: select returns an empty list when nothing matches

---
 timeseria/operations.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 5df71cf..93d7306 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1199,13 +1199,10 @@ class Select(Operation):
         value = float(query.split('=')[1])
 
         # Perform the select
-        selected = None
+        selected = []
         for item in series:
             if item._data_by_label(data_label) == value:
-                try:
-                    selected.append(item)
-                except:
-                    selected = [item]
+                selected.append(item)
         return selected
 
 
-- 
2.43.0


From f7906d06f280544a44cb340c23203e0a4095bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 21/82] fix: merging series without key-value data is refused

---
 timeseria/operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 93d7306..8d430ec 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1035,6 +1035,9 @@ class Merge(Operation):
 
         # Checks
         for i, series in enumerate(seriess):
+            _check_series_of_points_or_slots(series)
+            if not hasattr(series[0].data, 'keys'):
+                raise TypeError('Cannot merge series with data of type "{}", only key-value data is supported'.format(series[0].data.__class__.__name__))
             if series.resolution == 'variable':
                 raise ValueError('Cannot merge variable resolution series')
             if resolution is None:
-- 
2.43.0


From f714da803f8f255077094ac9efecdf490e5559a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 22/82] fix: aggregating with upsampling computes a new point
 instead of changing the data of the series

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..0ee5924 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -246,8 +246,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                        new_point_data[data_label] += point.data[data_label] * point.weight
+                new_point_t = from_t + (to_t - from_t) /2
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
-- 
2.43.0


From cf1b4fc32545b5863bc5e85f265776c485886b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 23/82] fix: resampling and aggregating do not attach support
 attributes to the points of the series

---
 timeseria/transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 0ee5924..f8ead9a 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -2,6 +2,7 @@
 """Series transformations as resampling and aggregation."""
 
 from propertime.utils import dt_from_s, s_from_dt, as_tz
+from copy import copy
 from datetime import datetime
 from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint, TimeSeries, TimeSeriesView
 from .utilities import _compute_data_loss, _compute_validity_regions
@@ -508,6 +509,10 @@ class Transformation(object):
         # Log
         logger.debug('Started resampling from "%s" (%s) to "%s" (%s)', from_dt, from_t, to_dt, to_t)
 
+        # Work on copies of the points, as validity and weights are attached to them
+        points = [copy(point) for point in series]
+        series = TimeSeries(*points, tz=series.tz)
+
         # Set some support vars
         slot_start_t = None
         slot_start_dt = None
-- 
2.43.0


From f9003b0a2edbd460c0ca579f6f48fc8504a75513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 24/82] fix: zero as start, end or fill value in
 transformations

---
 timeseria/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index f8ead9a..4632c58 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -274,7 +274,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
@@ -431,7 +431,7 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
+        if from_t is not None:
             from_dt = dt_from_s(from_t)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
@@ -462,7 +462,7 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
+        if to_t is not None:
             to_dt = dt_from_s(to_t)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
-- 
2.43.0


From d5e1281f96e9df673ad46ded5cb262ae2424075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 25/82] fix: interpolating before the first point is refused

---
 timeseria/interpolators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..747b843 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
-- 
2.43.0


From 35e879f3e2cceb98d68ed443bc446eb3ea56d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 26/82] fix: the uniform interpolator handles the first
 position and looks for the right ones

---
 timeseria/interpolators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 747b843..8827f44 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -89,12 +89,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +102,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if next_i is None or prev_i < 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
-- 
2.43.0


From 633fc4615b989b400d30b2dd4f96ad575299b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 27/82] fix: data which evaluates to false is checked as any
 other

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a00f7d0..4ade123 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -694,7 +694,7 @@ class Series(list):
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
         # Check data type and set if not done already
-        if self and self._item_data_reference:
+        if self and self._item_data_reference is not None:
             self._check_data(item)
         else:
             try:
@@ -707,7 +707,7 @@ class Series(list):
 
     def _check_data(self, item):
         # Check that the data of an item is compatible with the one of the items already in the series
-        if not self._item_data_reference:
+        if self._item_data_reference is None:
             return
         if not type(self._item_data_reference) == type(item.data):
             raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-- 
2.43.0


From a5b71f5a6d9a35ec0ec211238e31ec41487628b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:41 +0000
Subject: [PATCH 28/82] fix: divide the derivative at the ends of a variable
 resolution series by the actual distance

---
 timeseria/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 8d430ec..fd5203c 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -305,9 +305,9 @@ class Derivative(Operation):
                     if diff is not None:
                         diff = diff / sampling_interval
                     elif diff_right is None:
-                        diff = diff_left / sampling_interval
+                        diff = diff_left / ((series[i].t - series[i-1].t) if variable_resolution else sampling_interval)
                     elif diff_left is None:
-                        diff = diff_right / sampling_interval
+                        diff = diff_right / ((series[i+1].t - series[i].t) if variable_resolution else sampling_interval)
                     else:
                         if variable_resolution:
                             diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
-- 
2.43.0


From 230d5e03047aa303282b25b9172e84fe1062548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 29/82] fix: keep the time zone when adding or subtracting a
 unit to a time point

---
 timeseria/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..0757acb 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -160,7 +160,7 @@ class TimeUnit(TimeSpan, Unit):
         # This import has to stay here or a circular import will start. TODO: maybe refactor it?
         from .datastructures import TimePoint
         if isinstance(other, TimePoint):
-            return TimePoint(dt=self.shift(other.dt, times=1))
+            return TimePoint(dt=self.shift(other.dt, times=1), tz=other.tz)
         elif isinstance(other, self.__class__):
             return TimeUnit(years        = self.years + other.years,
                             months       = self.months + other.months,
@@ -177,7 +177,7 @@ class TimeUnit(TimeSpan, Unit):
         # This import has to stay here or a circular import will start. TODO: maybe refactor it?
         from .datastructures import TimePoint
         if isinstance(other, TimePoint):
-            return TimePoint(dt=self.shift(other.dt, times=-1))
+            return TimePoint(dt=self.shift(other.dt, times=-1), tz=other.tz)
         else:
             return super().__rsub__(other)
 
-- 
2.43.0


From 42f81032e7c0b60bedf4dfec2d762c2e4137169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:39 +0000
Subject: [PATCH 30/82] fix: the data loss of a point counts at most for the
 whole interval

---
 timeseria/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..f945174 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -767,9 +767,11 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
                 if point_valid_from_t >= to_t:
                     continue
 
-                # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
+                # Compute the contribution of this point data loss: all over the interval,
+                # overlapping first point, overlapping last point, or all included?
+                if point_valid_from_t < from_t and point_valid_to_t >= to_t:
+                    point_contribution = to_t - from_t
+                elif point_valid_from_t < from_t:
                     point_contribution = abs(from_t - point_valid_to_t)
                 elif point_valid_to_t >= to_t:
                     point_contribution = abs(to_t - point_valid_from_t)
-- 
2.43.0


From 427b91af5f9c90fba8a4d880da69a4ebf9956ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 31/82] fix: aggregating in slots with no points and fully lost
 data does not fail

---
 timeseria/transformations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 4632c58..0af16b0 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -228,10 +228,11 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
             # If we have no datapoints at all in the slot, we must create one to let operations not
             # supporting weights to properly work. If we have a full data loss, this can be just the
             # middle point from the series_dense_view_extended. Otherwise, we must compute it from
-            # scratch as we are upsamping with no data loss but still no points belonging to the slot.
+            # scratch as we are upsamping (with no data loss, or with the data loss of the original
+            # points) but still no points belonging to the slot.
 
+            series_dense_view = None
             if data_loss==1:
-                series_dense_view = None
                 for point in series_dense_view_extended:
                     try:
                         if point._interpolated:
@@ -240,9 +241,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                             series_dense_view = series.__class__(point)
                     except AttributeError:
                         pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
+            if not series_dense_view:
                 # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
-- 
2.43.0


From 9ced418f26b83f00c6a23766883c7e207c114018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 32/82] fix: a model whose fit fails is not fitted any more, as
 what it had learnt was overwritten

---
 timeseria/models/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..2a0acda 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -179,6 +179,9 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
 
+                # From now on what was learnt before (if anything) gets overwritten: not fitted until this fit succeeds
+                self.fitted = False
+
                 # Set resolution
                 try:
                     self.data['resolution'] = series.resolution
-- 
2.43.0


From 45edc915ecef559eed9b550d00375ce454089d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:01 +0000
Subject: [PATCH 33/82] fix: resolution of points which are not an integer
 number of seconds apart

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index f945174..b0cd3dd 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -958,7 +958,7 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    seconds_str = '{:.7f}'.format(seconds).rstrip('0').rstrip('.')
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From 50e569b5bfc486700d5024dcbca1d9e68a3e75b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 34/82] fix: sampling interval detection never giving up

---
 timeseria/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index b0cd3dd..0458e4a 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -111,6 +111,7 @@ def detect_sampling_interval(timeseries, confidence=False):
 
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
+        i += 1
 
     most_common_diff_total = 0
     most_common_diff = None
-- 
2.43.0


From 92372eddfd573645f31485f7b5c71dbc5b90636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 35/82] fix: storing series with an index set only on some of
 the items

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..2ed6915 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -781,7 +781,7 @@ class CSVFileStorage(Storage):
                     data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
                     data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
                     csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
                 else:
-- 
2.43.0


From 29eed95742d02cf802e4dc710fa7a61cf754a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 36/82] fix: loading series of one slot only

---
 timeseria/storages.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 2ed6915..4bace5b 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -562,7 +562,7 @@ class CSVFileStorage(Storage):
                 series_type = None
 
         # Otherwise, auto-detect
-        if not series_type or series_type=='slots':
+        if not series_type or (series_type=='slots' and not force_slot_unit):
 
             autodetect_series_type = True
 
@@ -634,7 +634,7 @@ class CSVFileStorage(Storage):
                 slot_unit = None
             elif series_type == 'slots':
                 series_type = DataTimeSlot
-                slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
+                slot_unit = None # Always given in this case, see below
             else:
                 raise ValueError('Unknown value "{}" for type. Accepted types are "points" or "slots".'.format(self.series_type))
         else:
-- 
2.43.0


From 64a80778f377f9607aa5c8323539a6be2cea7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:47 +0000
Subject: [PATCH 37/82] fix: file overwritten when storing series which cannot
 be stored

---
 timeseria/storages.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 4bace5b..3238224 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -751,6 +751,12 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
+        # Check type and content here as well, before starting to write (and thus overwriting what there is already)
+        if not len(series):
+            raise ValueError('Cannot store an empty series')
+        if not issubclass(series.item_type, (DataTimePoint, DataTimeSlot)):
+            raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
+
         with open(self.filename, 'w') as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
-- 
2.43.0


From 954ef175b6c345d11c12b4eab5d40784627edd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 38/82] fix: encoding not used when storing

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 3238224..432df61 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -757,7 +757,7 @@ class CSVFileStorage(Storage):
         if not issubclass(series.item_type, (DataTimePoint, DataTimeSlot)):
             raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
-        with open(self.filename, 'w') as csv_file:
+        with open(self.filename, 'w', encoding=self.encoding) as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
-- 
2.43.0


From 25d4c43e19b6de0a1ceb103f0dcb52c3be0642ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:11 +0000
Subject: [PATCH 39/82] fix: file overwritten when storing series with data
 which is not indexed

---
 timeseria/storages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 432df61..f8dcc2b 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -757,6 +757,9 @@ class CSVFileStorage(Storage):
         if not issubclass(series.item_type, (DataTimePoint, DataTimeSlot)):
             raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
+        # Set data labels here for the same reasons, this will fail if the data is not indexed
+        data_labels = [str(data_label) for data_label in series.data_labels()]
+
         with open(self.filename, 'w', encoding=self.encoding) as csv_file:
 
             # 0) Dump CSV-storage specific metadata & chck type
@@ -774,7 +777,7 @@ class CSVFileStorage(Storage):
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
             # 1) Dump headers
-            data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
+            data_labels_part = ','.join(data_labels)
             data_indexes_part = ','.join(['__'+index for index in data_indexes])
             if data_indexes_part:
                 csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
-- 
2.43.0


From 3edfce6de9314f6a658d41499e551644ca7d38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 40/82] fix: separator not used when storing

---
 timeseria/datastructures.py |  2 +-
 timeseria/storages.py       | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4ade123..30591bf 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1599,7 +1599,7 @@ class TimeSeries(Series):
             force_slot_unit = None
 
         from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        storage = CSVFileStorage(file_name, separator=metadata.get('separator', ','))
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index f8dcc2b..ee080c2 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -2,6 +2,7 @@
 """Data storages, as the CSV file storage."""
 
 import os
+import json
 import pytz
 import datetime
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
@@ -766,35 +767,35 @@ class CSVFileStorage(Storage):
             if issubclass(series.item_type, DataTimePoint):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}", "separator": {}}}\n'.format(series.tz, series.resolution, json.dumps(self.separator)))
 
             elif issubclass(series.item_type, DataTimeSlot):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}", "separator": {}}}\n'.format(series.tz, series.resolution, json.dumps(self.separator)))
 
             else:
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
             # 1) Dump headers
-            data_labels_part = ','.join(data_labels)
-            data_indexes_part = ','.join(['__'+index for index in data_indexes])
+            data_labels_part = self.separator.join(data_labels)
+            data_indexes_part = self.separator.join(['__'+index for index in data_indexes])
             if data_indexes_part:
-                csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+                csv_file.write(self.separator.join(['epoch', data_labels_part, data_indexes_part]) + '\n')
             else:
-                csv_file.write('epoch,{}\n'.format(data_labels_part))
+                csv_file.write(self.separator.join(['epoch', data_labels_part]) + '\n')
 
             # 2) Dump data (and data_indexes)
             for item in series:
                 if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                    data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
+                    data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
-                    data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
+                    data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
+                data_indexes_part = self.separator.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
-                    csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
+                    csv_file.write(self.separator.join([str(item.t), data_part, data_indexes_part]) + '\n')
                 else:
-                    csv_file.write('{},{}\n'.format(item.t, data_part))
+                    csv_file.write(self.separator.join([str(item.t), data_part]) + '\n')
 
 
 
-- 
2.43.0


From 1feaa41d172bcfb62e1506108983c96ddf07dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:53 +0000
Subject: [PATCH 41/82] fix: handling of slots which are not in succession

---
 timeseria/storages.py | 55 ++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index ee080c2..6c6dbc9 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -691,7 +691,8 @@ class CSVFileStorage(Storage):
                         raise e from None
         else:
 
-            for i, item in enumerate(items):
+            for item in items:
+                datatimeslot = None
                 try:
                     # Handle data_indexes (including the data_loss)
                     data_indexes = None
@@ -713,25 +714,41 @@ class CSVFileStorage(Storage):
                     # Append
                     series.append(datatimeslot)
 
-                except ValueError as e:
-                    # The only ValueError that could (should) arise here is a "Not in succession" error.
-                    missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
-                    while True:
-                        dt = prev_dt + slot_unit
-                        # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
-                        if s_from_dt(dt) >= item[0]:
-                            # We are arrived, append all the missing items and then the item we originally tried to and break
-                            for j, missing_timestamp in enumerate(missing_timestamps):
-                                # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
-                                series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
-                            break
-
-                        else:
+                except Exception as e:
+                    try:
+                        # If this is not a "Not in succession" error, there is nothing to fill
+                        if not isinstance(e, ValueError) or datatimeslot is None or not series or item[0] <= series[-1].end.t:
+                            raise e from None
+
+                        # Get the missing timestamps, starting from the end of the last slot appended
+                        prev_item = series[-1]
+                        missing_timestamps = []
+                        dt = prev_item.end.dt
+                        while s_from_dt(dt) < item[0] - 1e-06:
                             missing_timestamps.append(s_from_dt(dt))
-                        prev_dt = dt
+                            dt = dt + slot_unit
+
+                        # If not aligned, the item is not in succession even when filling the gap
+                        if s_from_dt(dt) - item[0] > 1e-06:
+                            raise e from None
+
+                        # Append all the missing items, with data set by interpolation, and then the item we originally tried to
+                        for j, missing_timestamp in enumerate(missing_timestamps):
+                            interpolated_data = {}
+                            for data_label in datatimeslot.data_labels():
+                                prev_value = prev_item._data_by_label(data_label)
+                                interpolated_data[data_label] = (((datatimeslot._data_by_label(data_label)-prev_value)/(len(missing_timestamps)+1)) * (j+1)) + prev_value
+                            if isinstance(item[1], list):
+                                interpolated_data = [interpolated_data[data_label] for data_label in datatimeslot.data_labels()]
+                            series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
+                        series.append(datatimeslot)
+
+                    except Exception as e:
+                        if self.skip_errors:
+                            if not self.silence_errors:
+                                logger.error(e)
+                        else:
+                            raise e from None
 
         return series
 
-- 
2.43.0


From 0fa66189bef27f236e0d219c562e510612027a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 42/82] fix: loaded periodic average reconstructors

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..21d9623 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -368,6 +368,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From 57821fd8de1bbc39db606b661c604ef5d233a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 43/82] fix: saving and loading Prophet models

---
 timeseria/models/base.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 2a0acda..7fd0a7c 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -457,6 +457,26 @@ class Model():
 class _ProphetModel(Model):
     '''A model using Prophet as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+        # Override the load method to load the Prophet model as well
+        from prophet.serialize import model_from_json
+        model = super().load(path)
+        with open('{}/prophet_model.json'.format(path), 'r') as f:
+            model.prophet_model = model_from_json(f.read())
+        return model
+
+    def save(self, path):
+        # Override the save method to save the Prophet model as well
+        from prophet.serialize import model_to_json
+        super(_ProphetModel, self).save(path)
+        try:
+            with open('{}/prophet_model.json'.format(path), 'w') as f:
+                f.write(model_to_json(self.prophet_model))
+        except Exception as e:
+            shutil.rmtree(path)
+            raise e
+
     @classmethod
     def _remove_timezone(cls, dt):
         return dt.replace(tzinfo=None)
-- 
2.43.0


From 19c8524a4b1d298c59dbad1d8ac4714ece0c4b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 44/82] fix: saving ARIMA models which could not be used once
 loaded

---
 timeseria/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 7fd0a7c..41ffae2 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -513,6 +513,10 @@ class _ProphetModel(Model):
 class _ARIMAModel(Model):
     '''A model using statsmodel's ARIMA as underlying engine, and providing some extra internal functions for common operations.'''
 
+    def save(self, path):
+        # The underlying model and the series used for the fit are not stored, it could not work once loaded
+        raise NotImplementedError('Saving ARIMA models is not supported')
+
     def _get_start_end_indexes(self, series, n):
 
         # Do the math to get the right indexes for the prediction, both out-of-sample and in-sample
-- 
2.43.0


From 1f6f42628e5d3bece670443b28be971ba9489443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 45/82] fix: loading anomaly detectors with the model class
 given in the init

---
 timeseria/models/anomaly_detectors.py | 6 +++---
 timeseria/models/base.py              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..a6efd54 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -189,10 +189,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         super(ModelBasedAnomalyDetector, self).__init__()
  
     @classmethod
-    def load(cls, path):
+    def load(cls, path, **kwargs):
 
-        # Load the anomaly detection model
-        model = super().load(path)
+        # Load the anomaly detection model. Requires the model_class if not set in the anomaly detector
+        model = super().load(path, **kwargs)
 
         # ..and load the inner model(s) as nested model
         if model.data['with_context']:
diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 41ffae2..e435be2 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -85,14 +85,14 @@ class Model():
             return self.data['id']
 
     @classmethod
-    def load(cls, path):
-        """Load the model from a path."""
+    def load(cls, path, **kwargs):
+        """Load the model from a path. Any extra argument is used to initialize the model."""
         # Do we have to load the model (if parametric?)
         #if not cls._is_parametric():
         #    raise ValueError('Loading a non-parametric model from a path does not make sense')
 
         # Create the model
-        model = cls()
+        model = cls(**kwargs)
 
         # Set the data (replaces the model ID also)
         with open(path+'/data.json', 'r') as f:
-- 
2.43.0


From 0fc9b1276ab7d8c360361a05baadb05e7092edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:10 +0000
Subject: [PATCH 46/82] fix: resampling and aggregating list data with missing
 points

---
 timeseria/interpolators.py   | 17 +++++++++++------
 timeseria/transformations.py |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 8827f44..bcfed07 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -49,7 +49,7 @@ class LinearInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         # Example:
         # Indexes  0 1 2 3 4 5 6 7
@@ -64,18 +64,20 @@ class LinearInterpolator(Interpolator):
             if False:
                 # TODO: check the math here, this should be a better approach but tests fail...
                 coordinate_increment = at - prev_point.t
-                value_diff = next_point.data[label] - prev_point.data[label]
+                value_diff = next_point._data_by_label(label) - prev_point._data_by_label(label)
                 interpolated_data[label] = prev_point.data[label] + (value_diff * coordinate_increment)
 
             else:
                 # Compute the "growth" ratio
-                diff = next_point.data[label] - prev_point.data[label]
+                diff = next_point._data_by_label(label) - prev_point._data_by_label(label)
                 delta_t = next_point.t - prev_point.t
                 ratio = diff / delta_t
 
                 # Compute the value of the data for the new point
-                interpolated_data[label] = prev_point.data[label] + ((at-prev_point.t)*ratio)
+                interpolated_data[label] = prev_point._data_by_label(label) + ((at-prev_point.t)*ratio)
 
+        if isinstance(prev_point.data, list):
+            interpolated_data = [interpolated_data[label] for label in self.series.data_labels()]
 
         return interpolated_data
 
@@ -116,10 +118,13 @@ class UniformInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         for label in self.series.data_labels():
-            interpolated_data[label] = prev_point.data[label] + ((next_point.data[label] - prev_point.data[label]) /2)
+            interpolated_data[label] = prev_point._data_by_label(label) + ((next_point._data_by_label(label) - prev_point._data_by_label(label)) /2)
+
+        if isinstance(prev_point.data, list):
+            interpolated_data = [interpolated_data[label] for label in self.series.data_labels()]
 
         return interpolated_data
 
diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 0af16b0..315e4ba 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -246,7 +246,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        new_point_data[data_label] += point.data[data_label] * point.weight
+                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
                 new_point_t = from_t + (to_t - from_t) /2
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
-- 
2.43.0


From 7b585ee691d8b9f8f359d55ad34115465c5ab557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:10 +0000
Subject: [PATCH 47/82] fix: reconstructing list data

---
 timeseria/models/reconstructors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 21d9623..e64d970 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -106,6 +106,10 @@ class Reconstructor(Model):
             else:
                 raise TypeError('Don\'t know how to handle data of type "{}" returned by the reconstructor prediction'.format(predicted_data.__class__.__name__))
 
+            # Do not change the type of the data
+            if isinstance(series[j].data, list) and isinstance(item_data, dict):
+                item_data = [item_data[data_label] for data_label in series.data_labels()]
+
             if inplace:
                 # Just change the data
                 series[j]._data = item_data
-- 
2.43.0


From 817713d397c708aaa22f558a67d77e5cb10494af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 48/82] fix: evaluating with context gave to the model what it
 had to predict

---
 timeseria/models/anomaly_detectors.py | 5 ++++-
 timeseria/models/forecasters.py       | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index a6efd54..a154b99 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -229,7 +229,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             elif issubclass(self.model_class, Forecaster):
 
                 if with_context:
-                    prediction = self.models[data_label].predict(series.view(from_i=0, to_i=i), steps=1, context_data=series[i].data)
+                    # Only the context labels: the model must not see what it has to predict
+                    context_data_labels = self.models[data_label].data['context_data_labels']
+                    context_data = {context_data_label: series[i]._data_by_label(context_data_label) for context_data_label in context_data_labels}
+                    prediction = self.models[data_label].predict(series.view(from_i=0, to_i=i), steps=1, context_data=context_data)
                 else:
                     prediction = self.model.predict(series.view(from_i=0, to_i=i), steps=1)
 
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..11a40ce 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -63,7 +63,9 @@ class Forecaster(Model):
     def _get_predicted_value(self, series, i, data_label, with_context):
 
         if with_context:
-            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1, context_data=series[i].data)
+            # Only the context labels: the model must not see what it has to predict
+            context_data = {context_data_label: series[i]._data_by_label(context_data_label) for context_data_label in self.data['context_data_labels']}
+            prediction = self.predict(series.view(from_i=0, to_i=i), steps=1, context_data=context_data)
         else:
             prediction = self.predict(series.view(from_i=0, to_i=i), steps=1)
 
-- 
2.43.0


From 4c0b32272c9827239f31fa6e9d3ca741b2f5f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 49/82] fix: evaluating forecasters which do not have their
 window in the data

---
 timeseria/models/forecasters.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 11a40ce..63c360f 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -253,6 +253,14 @@ class Forecaster(Model):
             if punctual_error_metric not in ['E', 'PE', 'LE']:
                 raise ValueError('The extra error metric "{}" is not supported'.format(punctual_error_metric))
 
+        # Handle the window, which can be set in the data or in the model
+        try:
+            window = self.data['window']
+        except (KeyError, AttributeError):
+            window = self.window
+        if not window:
+            window = 0
+
         # Handle results series
         if plot_results_series or return_results_series:
             generate_results_series = True
@@ -265,8 +273,8 @@ class Forecaster(Model):
                 raise ValueError('Returning the evaluation series is only supported with single step ahead forecasts')
 
             results_series = series.duplicate()
-            if self.data['window']:
-                results_series = results_series[self.data['window']:]
+            if window:
+                results_series = results_series[window:]
 
         # Support vars
         results = {}
@@ -275,13 +283,7 @@ class Forecaster(Model):
         actual_values = {}
         predicted_values = {}
 
-        try:
-            if not self.data['window']:
-                start_i = 0
-            else:
-                start_i = self.data['window']
-        except (KeyError, AttributeError):
-            start_i = 0
+        start_i = window
 
         # Start evaluating
         progress_step = len(series)/10
-- 
2.43.0


From b7ed5fddcc421a80d26e05638ab2b220f12e8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 50/82] fix: the MAPE of reconstructors

---
 timeseria/models/reconstructors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index e64d970..d3e51d6 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -258,11 +258,11 @@ class Reconstructor(Model):
 
                 # Compute RMSE and ME, and add to the evaluation_score
                 if 'RMSE' in metrics:
-                    evaluation_score['RMSE_{}_steps'.format(steps_round)] = sqrt(mean_squared_error(overall_predicted_values, overall_actual_values))
+                    evaluation_score['RMSE_{}_steps'.format(steps_round)] = sqrt(mean_squared_error(overall_actual_values, overall_predicted_values))
                 if 'MAE' in metrics:
-                    evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_actual_values, overall_predicted_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From c29dcf74959df5f0b2b992148427c1efe5090e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 51/82] fix: unsupported error metrics in evaluating
 reconstructors

---
 timeseria/models/reconstructors.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index d3e51d6..7898f9f 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -146,6 +146,11 @@ class Reconstructor(Model):
         if len(series.data_labels()) > 1:
             raise NotImplementedError('Evaluating on multivariate time sries is not yet implemented')
 
+        # Check the metrics
+        for metric in metrics:
+            if metric not in ['RMSE', 'MAE', 'MAPE']:
+                raise ValueError('The error metric "{}" is not supported'.format(metric))
+
         # Set evaluation_score steps if we have to
         if steps == 'auto':
             # TODO: move the "auto" concept as a function that can be overwritten by child classes
-- 
2.43.0


From 10cbd2a420b05e3179c461ba53bd360beace21c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:01 +0000
Subject: [PATCH 52/82] fix: unsupported error metrics in fitting anomaly
 detectors

---
 timeseria/models/anomaly_detectors.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index a154b99..01bec7f 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -270,6 +270,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             summary(bool): if to display a summary on the error_metric distribution fitting or selection.
         """
 
+        # Check error_metric type
+        if error_metric not in ['E', 'AE', 'PE', 'APE']:
+            raise ValueError('Unknown error_metric metric "{}"'.format(error_metric))
+
         # Handle the error distribution(s)
         if error_distribution == 'auto':
             error_distributions = kwargs.pop('error_distributions', fitter_library.fitter.get_common_distributions() +['gennorm'])
@@ -322,10 +326,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         # Store if to use context or not
         self.data['with_context'] = with_context
 
-        # Check and store error_metric type
-        if error_metric not in ['E', 'AE', 'PE', 'APE', 'SLE']:
-            raise ValueError('Unknown error_metric metric "{}"'.format(error_metric))
-
+        # Store error_metric type
         self.data['error_metric'] = error_metric
 
         # Initialize internal dictionaries
-- 
2.43.0


From 802bb1f247f043b247def9598ab566f97c5ba503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:22 +0000
Subject: [PATCH 53/82] fix: context data of slots in LSTM forecasters

---
 timeseria/models/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index e435be2..0e88487 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -14,7 +14,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -652,8 +652,11 @@ class _KerasModel(Model):
 
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
-            context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(start=window_datapoints[-1].end, unit=time_unit, data=context_data)
+            else:
+                context_datapoint_dt = window_datapoints[-1].dt + time_unit
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
-- 
2.43.0


From c3a2d27122f7cfb2f6bbf8b5d8037ff281f086aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 54/82] fix: index bounds given as a tuple

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 01bec7f..bae66d1 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -582,7 +582,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         for data_label in series.data_labels():
             abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
-            this_index_bounds = index_bounds[:]
+            this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
-- 
2.43.0


From ad0bd5ea9c02b3047aabc8270c317bada58cfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 55/82] fix: applying anomaly detectors which did not store the
 errors

---
 timeseria/models/anomaly_detectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index bae66d1..e4d7975 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -580,12 +580,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = list(index_bounds)
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
+                    if this_index_bounds[i] in ['max_err', 'avg_err']:
+                        if 'prediction_errors' not in self.data:
+                            raise ValueError('Cannot use the index bound "{}" if store_errors was not set in the fit'.format(this_index_bounds[i]))
+                        abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
                     if this_index_bounds[i] == 'max_err':
                         this_index_bounds[i] = max(abs_prediction_errors)
                     elif this_index_bounds[i] == 'avg_err':
-- 
2.43.0


From 0fce19f6ef52624f6f679c13916fc40b6f108a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:35 +0000
Subject: [PATCH 56/82] fix: name of the adherence when selecting the details

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index e4d7975..3160d68 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -751,7 +751,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From e92359b82c856ce0e85ac6b799a199f5b56a4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 57/82] fix: unknown settings in applying anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 3160d68..647c4ad 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -568,7 +568,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             # If the model is loaded, it will never get here
             pass
         else:
-            raise ValueError('Unknown error metric "{}"'.format(self.data['error']))
+            raise ValueError('Unknown error metric "{}"'.format(self.data['error_metric']))
+
+        # Check the settings
+        if index_type not in ['log', 'lin'] and not callable(index_type):
+            raise ValueError('Unknown index type "{}"'.format(index_type))
+        if multivariate_index_strategy not in ['max', 'avg', 'min'] and not callable(multivariate_index_strategy):
+            raise ValueError('Unknown multivariate index strategy "{}"'.format(multivariate_index_strategy))
+        if details and not isinstance(details, (bool, list)):
+            raise TypeError('The "details" argument accepts only True/False or a list containing what details to add, as strings.')
 
         # Set anomaly index boundaries
         x_starts = {}
-- 
2.43.0


From 235c759fef297a7b048d918dfddbdcc5e3dc9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 58/82] fix: data loss after the item in anomaly detectors
 based on reconstructors

---
 timeseria/models/anomaly_detectors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 647c4ad..7a95d6a 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -668,14 +668,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                     if series[i-j-1].data_loss is not None and series[i-j-1].data_loss >= data_loss_threshold:
                         abort=True
                         break
-                if not abort:
-                    if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                if not abort and issubclass(self.model_class, Reconstructor):
+                    for j in range(self.data['model_window']):
+                        if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
                             abort=True
                             break
             if abort:
                 # Just append the item as-is and continue
-                result_series.append(item)
+                result_series.append(deepcopy(item))
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From 593ee4e4ccf1e3e1bf603a29d79ed436b98c6f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 59/82] fix: fitting periodic average forecasters with an
 explicit window

---
 timeseria/models/forecasters.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 63c360f..5bf32e0 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -503,20 +503,20 @@ class PeriodicAverageForecaster(Forecaster):
                 logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
                 self.data['windows'][data_label]= periodicity
 
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
-- 
2.43.0


From 670e3b346265fcf782621b43e1505b5d9c137664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 60/82] fix: fitting on elements with a data loss set to None

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 0e88487..e6554c5 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -606,13 +606,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 5bf32e0..2e7e1e0 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -507,7 +507,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 7898f9f..9c6d810 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -427,7 +427,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From f565ee556207f67f19b7eda743a3bb9698151d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 61/82] fix: fitting reconstructors with not a single element
 below the data loss limit

---
 timeseria/models/reconstructors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 9c6d810..9182e8e 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -438,6 +438,9 @@ class PeriodicAverageReconstructor(Reconstructor):
                     totals[periodicity_index] +=1
                 processed += 1
 
+            if not processed:
+                raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
+
         averages={}
         for periodicity_index in sums:
             averages[periodicity_index] = sums[periodicity_index]/totals[periodicity_index]
-- 
2.43.0


From d49998804408e398481ae0ae38434f04cb2b31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 62/82] fix: periodicity of the labels of periodic average
 forecasters

---
 timeseria/models/forecasters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 2e7e1e0..64da8c2 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -491,17 +491,19 @@ class PeriodicAverageForecaster(Forecaster):
         for data_label in series.data_labels():
             # Set or detect periodicity
             if periodicity == 'auto':
-                periodicity =  detect_periodicity(series[data_label])
-                logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
+                label_periodicity =  detect_periodicity(series[data_label])
+                logger.info('Detected periodicity for "%s": %sx %s', data_label, label_periodicity, series.resolution)
+            else:
+                label_periodicity = periodicity
 
-            self.data['periodicities'][data_label]  = periodicity
+            self.data['periodicities'][data_label]  = label_periodicity
 
             # Set window
             if self._window != 'auto':
                 self.data['windows'][data_label] = self._window
             else:
-                logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
-                self.data['windows'][data_label]= periodicity
+                logger.info('Using a window of "{}" for "{}"'.format(label_periodicity, data_label))
+                self.data['windows'][data_label]= label_periodicity
 
             sums   = {}
             totals = {}
@@ -509,7 +511,7 @@ class PeriodicAverageForecaster(Forecaster):
             for item in series:
                 if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
-                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
                     sums[periodicity_index] = item.data[data_label]
                     totals[periodicity_index] = 1
-- 
2.43.0


From 789d5420bfed514450b5e71a530594f601c46631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 63/82] fix: fitting LSTM forecasters on a list of targets

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 64da8c2..ee72a0a 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -891,10 +891,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From e0b5edf2116c936f3bc93e805cd2f89089085346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 64/82] fix: normalization of LSTM forecasters on elements with
 too much data loss

---
 timeseria/models/forecasters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index ee72a0a..491370b 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -924,9 +924,12 @@ class LSTMForecaster(Forecaster, _KerasModel):
             # We need this to in order not to modify original data
             series = series.duplicate()
 
-            # Set min and max (for each label)
-            min_values = series.min()
-            max_values = series.max()
+            # Set min and max (for each label), only on the elements below the data loss limit
+            fit_items = [item for item in series if data_loss_limit is None or item.data_loss is None or item.data_loss < data_loss_limit]
+            if not fit_items:
+                raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
+            min_values = {data_label: min([item._data_by_label(data_label) for item in fit_items]) for data_label in data_labels}
+            max_values = {data_label: max([item._data_by_label(data_label) for item in fit_items]) for data_label in data_labels}
 
             # Normalize series
             for datapoint in series:
-- 
2.43.0


From feed933fbcd2f58d4fb6518f057e79fc2e301c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 65/82] fix: marking the last event of a series

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 7a95d6a..3fe782d 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -107,13 +107,13 @@ class AnomalyDetector(Model):
         if event_start is not None:
 
             # When was the last event over?
-            event_end = len(event_timeseries)
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
                 if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end - event_start + 1
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From f9ca204cd882fc3aa2fe5c10d0ae5beed690ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 66/82] fix: marking events with elements with no anomaly index

---
 timeseria/models/anomaly_detectors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 3fe782d..88800ca 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -64,20 +64,25 @@ class AnomalyDetector(Model):
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        # Elements with no anomaly index (as those with too much data loss) are not anomalous
+        def is_anomalous(item):
+            anomaly_index = item.data_indexes.get('anomaly')
+            return anomaly_index is not None and anomaly_index >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -86,7 +91,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -109,7 +114,7 @@ class AnomalyDetector(Model):
             # When was the last event over?
             event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-- 
2.43.0


From 64ed29495ae0a08d1c885392d1b249929ee607d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:51 +0000
Subject: [PATCH 67/82] fix: window of anomaly detectors fitted again with
 context

---
 timeseria/models/anomaly_detectors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 88800ca..c0db5e6 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -293,6 +293,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             # Fit separate models, one for each data label
             self.models = {}
             self.data['model_ids'] = {}
+            self.data.pop('model_window', None)
             for data_label in series.data_labels():
                 if verbose:
                     print('Fitting for "{}":'.format(data_label))
-- 
2.43.0


From 2082cf61dca6391b191edcd94b3a93306a06ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:05 +0000
Subject: [PATCH 68/82] fix: diffs of windows of one element

---
 timeseria/models/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index e6554c5..845d4cd 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -659,6 +659,9 @@ class _KerasModel(Model):
                 context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
+        if 'diffs' in features and len(window_datapoints) < 2:
+            raise ValueError('The "diffs" feature requires a window of at least two elements')
+
         # Compute the features
         window_features = []
         for i in range(len(window_datapoints)):
-- 
2.43.0


From 90604d7c1d92f9d1647fc49cbb3479131effb0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 69/82] fix: time and date columns in the position zero

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6c6dbc9..72cff9d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -95,7 +95,7 @@ class CSVFileStorage(Storage):
         if timestamp_column is None and time_column is None and date_column is None and not data_labels:
             raise ValueError('No timestamp column, time column, date column or data columns provided, cannot get anything from this CSV file')
 
-        if timestamp_column != 'auto' and (time_column or date_column):
+        if timestamp_column != 'auto' and (time_column is not None or date_column is not None):
             raise ValueError('Got both timestamp column and time/date columns, choose which approach to use.')
 
         if timestamp_column is not None and not isinstance(timestamp_column, int) and not isinstance(timestamp_column, str):
-- 
2.43.0


From c664fc639724164d916fad9411a963ff36e71220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 70/82] fix: start and end set to zero in CSV storages

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 72cff9d..901a74d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -181,7 +181,7 @@ class CSVFileStorage(Storage):
         if id:
             raise NotImplementedError('This storage does not support multiple time series, so the id argument cannot be used')
 
-        if start or end:
+        if start is not None or end is not None:
             raise NotImplementedError('This storage does not support loading only a portion of the time time series, so the start and end arguments cannot be used')
 
         # Sanity checks
-- 
2.43.0


From a650eb1d722e2551d8bfd739c2c316cf4e9ac484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 71/82] fix: limit set to zero in CSV storages

---
 timeseria/storages.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 901a74d..9081656 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -220,7 +220,7 @@ class CSVFileStorage(Storage):
         items = []
         with open(self.filename, 'r', encoding=self.encoding) as csv_file:
 
-            while True:
+            while limit is None or line_number < limit:
 
                 # TODO: replace me using a custom line separator
                 line = csv_file.readline()
@@ -529,10 +529,8 @@ class CSVFileStorage(Storage):
                 # Append to the series
                 items.append([t, data])
 
-                # Lastly, increase line_counter and check for limit
+                # Lastly, increase line_counter
                 line_number+=1
-                if limit and line_number >= limit:
-                    break
 
         # Were we able to read something?
         if not items:
-- 
2.43.0


From 0b5223c946975f4be2a3d8ad9cd165d8a81351c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 72/82] fix: file names and image resolutions of plots reaching
 the shell unquoted

---
 timeseria/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..4ae8811 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -8,6 +8,7 @@
 import os
 import uuid
 import datetime
+from shlex import quote
 from propertime.utils import dt_from_s, str_from_dt, dt_from_str, s_from_dt
 from .units import TimeUnit
 from .utilities import is_numerical, os_shell
@@ -1069,7 +1070,7 @@ define('"""+graph_id+"""', ['dgenv'], function (Dygraph) {
                 else:
                     image_resolution = '1280x440' if _headless_mode_switch else '1280x380'
             resolution = image_resolution.replace('x', ',')
-            command = '{} --no-sandbox --headless{} --disable-gpu --window-size={} --screenshot={} {}'.format(_chrom_executable, _headless_mode_switch, resolution, png_dest, html_dest)
+            command = '{} --no-sandbox --headless{} --disable-gpu --window-size={} --screenshot={} {}'.format(_chrom_executable, _headless_mode_switch, quote(resolution), quote(png_dest), quote(html_dest))
             logger.debug('Executing "{}"'.format(command))
             out = os_shell(command, capture=True)
 
-- 
2.43.0


From 745a208d391fe63777486753e69fa61fa7187784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:28 +0000
Subject: [PATCH 73/82] fix: resampler accepting weeks and composite calendar
 units

---
 timeseria/transformations.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 315e4ba..ed373fd 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -713,8 +713,7 @@ class Resampler(Transformation):
         else:
             self.time_unit = TimeUnit(unit)
 
-        unit_type = ''.join([char for char in str(self.time_unit) if not char.isdigit()])
-        if unit_type in ['Y', 'M', 'D']:
+        if self.time_unit.years or self.time_unit.months or self.time_unit.weeks or self.time_unit.days:
             raise ValueError('Sorry, time units involving calendar components are not supported by the Resampler (got "{}"). Use the Slotter instead.'.format(self.time_unit))
 
         # Set interpolator
-- 
2.43.0


From 809d01b28abaa7c26e3bd5d69090b47501643c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:28 +0000
Subject: [PATCH 74/82] fix: check for empty series in transformations coming
 too late

---
 timeseria/transformations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index ed373fd..dae031e 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -390,6 +390,9 @@ class Transformation(object):
         if not isinstance(series, TimeSeries):
             raise NotImplementedError('Transformations work only with TimeSeries data for now (got "{}")'.format(series.__class__.__name__))
 
+        if not series:
+            raise ValueError('Cannot process empty series')
+
         if not (issubclass(series.item_type, Point) or issubclass(series.item_type, Slot)):
                 raise TypeError('Series items are not Points nor Slots, cannot compute any transformation')
 
@@ -398,8 +401,6 @@ class Transformation(object):
             raise NotImplementedError('Including the extremes is not yet implemented')
         if not issubclass(series.item_type, DataTimePoint):
             raise TypeError('Can process only time series of DataTimePoints, got time series of items type "{}"'.format(series.item_type.__name__))
-        if not series:
-            raise ValueError('Cannot process empty series')
         if target not in ['points', 'slots']:
             raise ValueError('Don\'t know how to target "{}"'.format(target))
 
-- 
2.43.0


From 4973e35e69e3776d0c93da2cca4d3d08f6d2f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:28 +0000
Subject: [PATCH 75/82] fix: type checks of differences and cumulative sums
 coming too late

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index fd5203c..9228a0d 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -529,6 +529,7 @@ class Integral(Operation):
 class Diff(Derivative):
     """Incremental differences operation (callable object)."""
     def _call(self, series, inplace=False):
+        _check_series_of_points_or_slots(series)
         if series.resolution == 'variable':
             raise ValueError('The differences cannot be computed on variable resolution time series, resample it or use the derivative operation.')
         return super(Diff, self)._call(series, inplace=inplace, normalize=False, diffs=True)
@@ -537,6 +538,7 @@ class Diff(Derivative):
 class CSum(Integral):
     """Cumulative sum operation (callable object)."""
     def _call(self, series, inplace=False, offset=None):
+        _check_series_of_points_or_slots(series)
         if series.resolution == 'variable':
             raise ValueError('The cumulative sums cannot be computed on variable resolution time series, resample it or use the integral operation.')
         return super(CSum, self)._call(series, inplace=inplace, normalize=False, offset=offset)
-- 
2.43.0


From fc66a7546476beafc65aefd1b75485707a2fc263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:28 +0000
Subject: [PATCH 76/82] fix: merging with an empty series which is not the
 first

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 9228a0d..a8209f9 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1037,6 +1037,8 @@ class Merge(Operation):
 
         # Checks
         for i, series in enumerate(seriess):
+            if not series:
+                raise ValueError('Operations cannot work on empty series')
             _check_series_of_points_or_slots(series)
             if not hasattr(series[0].data, 'keys'):
                 raise TypeError('Cannot merge series with data of type "{}", only key-value data is supported'.format(series[0].data.__class__.__name__))
-- 
2.43.0


From 945e90935a55da72823091d6b0adebf04a52211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:43 +0000
Subject: [PATCH 77/82] fix: transformations of series with data which is not
 indexed

---
 timeseria/transformations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index dae031e..70e3aaf 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -5,7 +5,7 @@ from propertime.utils import dt_from_s, s_from_dt, as_tz
 from copy import copy
 from datetime import datetime
 from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint, TimeSeries, TimeSeriesView
-from .utilities import _compute_data_loss, _compute_validity_regions
+from .utilities import _compute_data_loss, _compute_validity_regions, _check_indexed_data
 from .operations import avg
 from .units import TimeUnit
 from .exceptions import ConsistencyException
@@ -401,6 +401,7 @@ class Transformation(object):
             raise NotImplementedError('Including the extremes is not yet implemented')
         if not issubclass(series.item_type, DataTimePoint):
             raise TypeError('Can process only time series of DataTimePoints, got time series of items type "{}"'.format(series.item_type.__name__))
+        _check_indexed_data(series)
         if target not in ['points', 'slots']:
             raise ValueError('Don\'t know how to target "{}"'.format(target))
 
-- 
2.43.0


From 78376cbf3af23ec8e045c5b772af825e44da10ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:44 +0000
Subject: [PATCH 78/82] fix: transformations of series with only one item

---
 timeseria/transformations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 70e3aaf..94e1b67 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -402,6 +402,8 @@ class Transformation(object):
         if not issubclass(series.item_type, DataTimePoint):
             raise TypeError('Can process only time series of DataTimePoints, got time series of items type "{}"'.format(series.item_type.__name__))
         _check_indexed_data(series)
+        if len(series) == 1:
+            raise ValueError('Cannot process a series with only one item')
         if target not in ['points', 'slots']:
             raise ValueError('Don\'t know how to target "{}"'.format(target))
 
-- 
2.43.0


From e1ae225f6f356cd22b27636f2dfc6c9040d29a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:44 +0000
Subject: [PATCH 79/82] fix: integral of a series of points with only one item

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index a8209f9..6e355e2 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -378,6 +378,8 @@ class Integral(Operation):
                 raise TypeError('Series items are not Points nor Slots, cannot compute an integral')
 
         if normalize:
+            if series.resolution is None:
+                raise ValueError('The integral cannot be computed on a series with undefined resolution')
             if series.resolution == 'variable':
                 variable_resolution = True
                 sampling_interval = series._autodetected_sampling_interval
-- 
2.43.0


From ac865fa8ec1cbdce55d6b1f6b0c1f99aa5deeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:30 +0000
Subject: [PATCH 80/82] fix: merging series of points with series of slots

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 6e355e2..6680fc2 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -1044,6 +1044,8 @@ class Merge(Operation):
             _check_series_of_points_or_slots(series)
             if not hasattr(series[0].data, 'keys'):
                 raise TypeError('Cannot merge series with data of type "{}", only key-value data is supported'.format(series[0].data.__class__.__name__))
+            if series.item_type != seriess[0].item_type:
+                raise TypeError('Cannot merge series of "{}" with series of "{}"'.format(seriess[0].item_type.__name__, series.item_type.__name__))
             if series.resolution == 'variable':
                 raise ValueError('Cannot merge variable resolution series')
             if resolution is None:
-- 
2.43.0


From a188631018181977a4cbd9dc73d740e2771e9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:55 +0000
Subject: [PATCH 81/82] fix: interpolator of a prediction kept in
 LinearInterpolationReconstructor

---
 timeseria/models/reconstructors.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 9182e8e..27985ec 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -346,17 +346,14 @@ class LinearInterpolationReconstructor(Reconstructor):
 
         logger.debug('Linear Interpolator reconstructing from #%s to #%s (included)', from_i, to_i)
 
-        try:
-            self.interpolator_initialize
-        except AttributeError:
-            from ..interpolators import LinearInterpolator
-            self.interpolator = LinearInterpolator(series)
+        from ..interpolators import LinearInterpolator
+        interpolator = LinearInterpolator(series)
 
         predicted_data = []
         for i in range(from_i, to_i+1):
 
             logger.debug('Processing point=%s', series[i])
-            step_predicted_data = self.interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
+            step_predicted_data = interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
 
             logger.debug('Predicted data=%s', step_predicted_data)
             predicted_data.append(step_predicted_data)
-- 
2.43.0


From 221325646e75bec2af4cea026fff958a4b4ad96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:37 +0000
Subject: [PATCH 82/82] fix: TimeSeries.from_df asked for slots raises a
 ValueError when the frequency cannot be inferred, and not an
 UnboundLocalError

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 30591bf..cd346e6 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1722,6 +1722,8 @@ class TimeSeries(Series):
             if not item_type:
                 logger.info('Cannot infer the freqency of the dataframe, will just create points')
                 item_type = DataTimePoint
+            elif item_type==DataTimeSlot:
+                raise ValueError('Cannot infer the freqency of the dataframe, cannot create slots')
 
         else:
 
-- 
2.43.0

