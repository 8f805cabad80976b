From d506e9eb1229e5902c9b4617d1de06609b415d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 001/118] fix: a rejected append must not alter the time series
 resolution, ordering or timezone state

---
 timeseria/datastructures.py | 76 +++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b21f9d..c944d99 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1224,55 +1224,44 @@ class TimeSeries(Series):
         (or :obj:`TimePoint` and :obj:`TimeSlot`, which are useful in some particular circumstances) and in any case
         of the same type of the items already present in the time series, unless empty."""
 
+        # Compute what to set on the series besides adding the item, but set it only once the item has been
+        # added, so that an item which gets rejected does not leave any trace on the series
+        attributes = {}
+
         if isinstance(item, TimePoint):
 
-            try:
-                self.prev_t
-            except AttributeError:
-                pass
-            else:
-                # Check time ordering and handle the resolution.
+            # Check time ordering and handle the resolution, with respect to the previous item if any. Note
+            # that when deep copying the items are appended one by one on an already set series resolution.
+            if len(self)>0 and isinstance(self._item_by_i(-1), TimePoint):
 
-                # The following if is to support the deepcopy, otherwise the original prev_t will be used
-                # TODO: maybe move the above to a "hasattr" plus an "and" instead of this logic?
-                if len(self)>0:
+                prev_t = self._item_by_i(-1).t
 
-                    # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, self.prev_t)
-                    if item.t < self.prev_t:
-                        raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, self.prev_t))
+                # logger.debug('Checking time ordering for t="%s" (prev_t="%s")', item.t, prev_t)
+                if item.t < prev_t:
+                    raise ValueError('Time t="{}" is out of order (prev t="{}")'.format(item.t, prev_t))
 
-                    if item.t == self.prev_t:
-                        raise ValueError('Time t="{}" is a duplicate'.format(item.t))
+                if item.t == prev_t:
+                    raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                    try:
-                        self._resolution
+                try:
+                    self._resolution
 
-                    except AttributeError:
+                except AttributeError:
 
-                        # Set the resolution as seconds for a bit of performance
-                        self._resolution_as_seconds = item.t - self.prev_t
+                    # Set the resolution as seconds for a bit of performance
+                    attributes['_resolution_as_seconds'] = item.t - prev_t
 
-                        # Set the resolution as time unit (up to the microsecond)
-                        time_diff = item.t - self.prev_t
-                        time_diff = int(time_diff*10000000)/10000000
-                        self._resolution = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+                    # Set the resolution as time unit (up to the microsecond)
+                    time_diff = item.t - prev_t
+                    time_diff = int(time_diff*10000000)/10000000
+                    attributes['_resolution'] = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
 
-                    else:
-                        # If the resolution is constant (not variable), check that it still is
-                        if self._resolution != 'variable':
-                            if self._resolution_as_seconds != (item.t - self.prev_t):
-                                # ...otherwise, mark it as variable
-                                del self._resolution_as_seconds
-                                self._resolution = 'variable'
-            finally:
-                # Delete the autodetected sampling interval cache if present
-                try:
-                    del self._autodetected_sampling_interval
-                    del self._autodetected_sampling_interval_confidence
-                except:
-                    pass
-                # And set the prev
-                self.prev_t = item.t
+                else:
+                    # If the resolution is constant (not variable), check that it still is
+                    if self._resolution != 'variable':
+                        if self._resolution_as_seconds != (item.t - prev_t):
+                            # ...otherwise, mark it as variable
+                            attributes['_resolution'] = 'variable'
 
         elif isinstance(item, TimeSlot):
 
@@ -1282,7 +1271,7 @@ class TimeSeries(Series):
             # Check the timezone (only for slots, points are not affected by timezones)
             if not self.tz:
                 # If no timezone set, use the item one's
-                self._tz = item.tz
+                attributes['_tz'] = item.tz
 
             else:
                 # Else, check for the same timezone
@@ -1301,14 +1290,17 @@ class TimeSeries(Series):
                     if abort:
                         raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
             except AttributeError:
-                self._resolution = item.unit
+                attributes['_resolution'] = item.unit
 
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
 
-        # Lastly, call the series append
+        # Call the series append
         super(TimeSeries, self).append(item)
 
+        # Lastly, set the attributes
+        self.__dict__.update(attributes)
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From 5e9518c0cfa2b6317823534e4a2029611e01edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 002/118] fix: discard the auto-detected sampling interval and
 guessed resolution when the time series changes

---
 timeseria/datastructures.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index c944d99..b3c9feb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1300,6 +1300,12 @@ class TimeSeries(Series):
 
         # Lastly, set the attributes
         self.__dict__.update(attributes)
+        self._reset_autodetections()
+
+    def _reset_autodetections(self):
+        # Discard what has been auto-detected on the items that were in the series so far
+        for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
+            self.__dict__.pop(attribute, None)
 
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
-- 
2.43.0


From 688440e37f403bfd9e7b8406d8e5bac6addba901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 003/118] fix: keep resolution, ordering and data checks up to
 date when removing or inserting items of a time series

---
 timeseria/datastructures.py | 92 +++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 19 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b3c9feb..0b83b22 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1243,25 +1243,7 @@ class TimeSeries(Series):
                 if item.t == prev_t:
                     raise ValueError('Time t="{}" is a duplicate'.format(item.t))
 
-                try:
-                    self._resolution
-
-                except AttributeError:
-
-                    # Set the resolution as seconds for a bit of performance
-                    attributes['_resolution_as_seconds'] = item.t - prev_t
-
-                    # Set the resolution as time unit (up to the microsecond)
-                    time_diff = item.t - prev_t
-                    time_diff = int(time_diff*10000000)/10000000
-                    attributes['_resolution'] = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
-
-                else:
-                    # If the resolution is constant (not variable), check that it still is
-                    if self._resolution != 'variable':
-                        if self._resolution_as_seconds != (item.t - prev_t):
-                            # ...otherwise, mark it as variable
-                            attributes['_resolution'] = 'variable'
+                attributes = self._compute_resolution(item.t, prev_t)
 
         elif isinstance(item, TimeSlot):
 
@@ -1302,11 +1284,83 @@ class TimeSeries(Series):
         self.__dict__.update(attributes)
         self._reset_autodetections()
 
+    def _compute_resolution(self, t, prev_t):
+        # Compute the resolution attributes to set given a new item and the previous one
+        attributes = {}
+        try:
+            self._resolution
+
+        except AttributeError:
+
+            # Set the resolution as seconds for a bit of performance
+            attributes['_resolution_as_seconds'] = t - prev_t
+
+            # Set the resolution as time unit (up to the microsecond)
+            time_diff = t - prev_t
+            time_diff = int(time_diff*10000000)/10000000
+            attributes['_resolution'] = TimeUnit(_to_time_unit_string(time_diff, friendlier=True))
+
+        else:
+            # If the resolution is constant (not variable), check that it still is
+            if self._resolution != 'variable':
+                if self._resolution_as_seconds != (t - prev_t):
+                    # ...otherwise, mark it as variable
+                    attributes['_resolution'] = 'variable'
+
+        return attributes
+
     def _reset_autodetections(self):
         # Discard what has been auto-detected on the items that were in the series so far
         for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
             self.__dict__.pop(attribute, None)
 
+    #=========================
+    #  Insert & removals
+    #=========================
+
+    def insert(self, i, x):
+        super(TimeSeries, self).insert(i, x)
+        self._refresh()
+
+    insert.__doc__ = Series.insert.__doc__
+
+    def remove(self, x):
+        super(TimeSeries, self).remove(x)
+        self._refresh()
+
+    remove.__doc__ = Series.remove.__doc__
+
+    def pop(self, i=None):
+        item = super(TimeSeries, self).pop(i)
+        self._refresh()
+        return item
+
+    pop.__doc__ = Series.pop.__doc__
+
+    def clear(self):
+        super(TimeSeries, self).clear()
+        self._refresh()
+
+    clear.__doc__ = Series.clear.__doc__
+
+    def _refresh(self):
+        # Re-compute what depends on the items of the series
+        self._reset_autodetections()
+        if len(self) > 0:
+            self._item_data_reference = getattr(self._item_by_i(0), 'data', None)
+        if len(self) > 0 and isinstance(self._item_by_i(0), TimeSlot):
+            # The unit is the same for all the slots
+            return
+        self.__dict__.pop('_resolution', None)
+        self.__dict__.pop('_resolution_as_seconds', None)
+        prev_t = None
+        for item in self:
+            if prev_t is not None:
+                self.__dict__.update(self._compute_resolution(item.t, prev_t))
+                if self._resolution == 'variable':
+                    break
+            prev_t = item.t
+
     def _item_by_t(self, t):
         # TODO: improve performance, bisection first, then use an index?
         for item in self:
-- 
2.43.0


From b9d2f56dd1c60d2a96427fcd6f4086f90c5240a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 004/118] fix: validate inserted items as the appended ones
 (next item order, data type and labels, slot unit)

---
 timeseria/datastructures.py | 93 +++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 35 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0b83b22..3b8ae85 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -681,14 +681,7 @@ class Series(list):
 
         # Check data type and set if not done already
         if self and self._item_data_reference:
-            if not type(self._item_data_reference) == type(item.data):
-                raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
-            if isinstance(self._item_data_reference, list):
-                if len(self._item_data_reference) != len(item.data):
-                    raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
-            if isinstance(self._item_data_reference, dict):
-                if set(self._item_data_reference.keys()) != set(item.data.keys()):
-                    raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+            self._check_item_data(item)
         else:
             try:
                 self._item_data_reference = item.data
@@ -698,6 +691,16 @@ class Series(list):
         # Append
         super(Series, self).append(item)
 
+    def _check_item_data(self, item):
+        if not type(self._item_data_reference) == type(item.data):
+            raise TypeError('Got different data: {} vs {}'.format(self._item_data_reference.__class__.__name__, item.data.__class__.__name__))
+        if isinstance(self._item_data_reference, list):
+            if len(self._item_data_reference) != len(item.data):
+                raise ValueError('Got different data lengths: {} vs {}'.format(len(self._item_data_reference), len(item.data)))
+        if isinstance(self._item_data_reference, dict):
+            if set(self._item_data_reference.keys()) != set(item.data.keys()):
+                raise ValueError('Got different data labels: {} vs {}'.format(self._item_data_reference.keys(), item.data.keys()))
+
     def __sum__(self, other):
         raise NotImplementedError
 
@@ -746,6 +749,16 @@ class Series(list):
             if not isinstance(x, self.item_type):
                 raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
 
+            # Check data type
+            if self._item_data_reference:
+                self._check_item_data(x)
+
+            # Handle negative and out of range positions as for the lists
+            if i < 0:
+                i = i+len(self) if i+len(self) > 0 else 0
+            elif i > len(self):
+                i = len(self)
+
             # Check ordering/succession
             if i == 0:
                 try:
@@ -767,7 +780,7 @@ class Series(list):
                 try:
                     self[0].__succedes__
                 except AttributeError:
-                    if not x > self[i-1]:
+                    if not x > self[i-1] or not self[i] > x:
                         raise ValueError('Cannot insert element "{}" in position "{}" with element "{}" as not in order'.format(x,i, self[i])) from None
                 else:
                     raise IndexError('Cannot insert an item in the middle of a series whose items follow a succession'.format(i))
@@ -1247,32 +1260,7 @@ class TimeSeries(Series):
 
         elif isinstance(item, TimeSlot):
 
-            # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
-            # and if they have the same unit, which we test here instead as the __succedes__ is more general.
-
-            # Check the timezone (only for slots, points are not affected by timezones)
-            if not self.tz:
-                # If no timezone set, use the item one's
-                attributes['_tz'] = item.tz
-
-            else:
-                # Else, check for the same timezone
-                if self._tz != item.tz:
-                    raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
-
-            try:
-                if self._resolution != item.unit:
-                    # Try for floating point precision errors
-                    abort = False
-                    try:
-                        if not _is_close(self._resolution, item.unit):
-                            abort = True
-                    except (TypeError, ValueError, NotImplementedError):
-                        abort = True
-                    if abort:
-                        raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
-            except AttributeError:
-                attributes['_resolution'] = item.unit
+            attributes = self._check_slot(item)
 
         else:
             raise TypeError('Adding data to a time series only accepts TimePoints o TimeSlots (got "{}")'.format(item.__class__.__name__))
@@ -1309,6 +1297,39 @@ class TimeSeries(Series):
 
         return attributes
 
+    def _check_slot(self, item):
+
+        attributes = {}
+
+        # Slots can belong to the same series if they are in succession (tested with the __succedes__ method)
+        # and if they have the same unit, which we test here instead as the __succedes__ is more general.
+
+        # Check the timezone (only for slots, points are not affected by timezones)
+        if not self.tz:
+            # If no timezone set, use the item one's
+            attributes['_tz'] = item.tz
+
+        else:
+            # Else, check for the same timezone
+            if self._tz != item.tz:
+                raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
+
+        try:
+            if self._resolution != item.unit:
+                # Try for floating point precision errors
+                abort = False
+                try:
+                    if not _is_close(self._resolution, item.unit):
+                        abort = True
+                except (TypeError, ValueError, NotImplementedError):
+                    abort = True
+                if abort:
+                    raise ValueError('Cannot add slots with a different unit than the series resolution (I have "{}" and you tried to add "{}")'.format(self._resolution, item.unit))
+        except AttributeError:
+            attributes['_resolution'] = item.unit
+
+        return attributes
+
     def _reset_autodetections(self):
         # Discard what has been auto-detected on the items that were in the series so far
         for attribute in ['_TimeSeries__autodetected_sampling_interval', '_TimeSeries__autodetected_sampling_interval_confidence', '_guessed_resolution']:
@@ -1319,6 +1340,8 @@ class TimeSeries(Series):
     #=========================
 
     def insert(self, i, x):
+        if len(self) > 0 and isinstance(x, TimeSlot) and isinstance(x, self.item_type):
+            self._check_slot(x)
         super(TimeSeries, self).insert(i, x)
         self._refresh()
 
-- 
2.43.0


From 46adbd8960c74842b1d77f0152553738ce18f889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 005/118] fix: enforce the series checks on item assignment,
 item deletion and in-place concatenation

---
 timeseria/datastructures.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 3b8ae85..32873a5 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -828,6 +828,33 @@ class Series(list):
         """Remove all items from the series."""
         super(Series, self).clear()
 
+    def __setitem__(self, key, value):
+        # Re-create the series in order to check the types, the data and the order or succession
+        if isinstance(key, slice):
+            value = list(value)
+        items = list(self)
+        items[key] = value
+        self.__class__(*items)
+        super(Series, self).__setitem__(key, value)
+        self._refresh()
+
+    def __delitem__(self, key):
+        if isinstance(key, slice):
+            for i in sorted(range(*key.indices(len(self))), reverse=True):
+                self.pop(i)
+        else:
+            self.pop(key)
+
+    def _refresh(self):
+        # Re-set what depends on the items of the series
+        if len(self) > 0:
+            self._item_data_reference = getattr(self._item_by_i(0), 'data', None)
+
+    def __iadd__(self, other):
+        for item in list(other):
+            self.append(item)
+        return self
+
     def index(self, x, start=None, end=None):
         """
         Return zero-based index in the series of the item whose value is equal to x.
@@ -1367,12 +1394,11 @@ class TimeSeries(Series):
     clear.__doc__ = Series.clear.__doc__
 
     def _refresh(self):
-        # Re-compute what depends on the items of the series
+        super(TimeSeries, self)._refresh()
         self._reset_autodetections()
-        if len(self) > 0:
-            self._item_data_reference = getattr(self._item_by_i(0), 'data', None)
         if len(self) > 0 and isinstance(self._item_by_i(0), TimeSlot):
             # The unit is the same for all the slots
+            self._resolution = self._item_by_i(0).unit
             return
         self.__dict__.pop('_resolution', None)
         self.__dict__.pop('_resolution_as_seconds', None)
-- 
2.43.0


From 364833aa5f3a17a5373bd8423ed2071afa76ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 006/118] fix: allow to pop the last item of a series whose
 items follow a succession also by its position

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 32873a5..9f01b23 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -813,7 +813,7 @@ class Series(list):
         if len(self) == 0:
             raise IndexError('Cannot pop from an empty series')
         if i is not None:
-            if i not in [0, len(self)]:
+            if i not in [0, len(self)-1, -1, -len(self)]:
                 try:
                     self[0].__succedes__
                 except AttributeError:
-- 
2.43.0


From 0ed8e4252b0be84925d9dbf35ba7f317326c7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 007/118] fix: return the position from the series index()
 method and support its default arguments

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9f01b23..4205365 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -864,7 +864,7 @@ class Series(list):
         used to limit the search to a particular subsequence of the list. The returned index is
         computed relative to the beginning of the full sequence rather than the start argument.
         """
-        super(Series, self).index(x, start, end)
+        return super(Series, self).index(x, 0 if start is None else start, len(self) if end is None else end)
 
     def copy(self):
         """Return a shallow copy of the series."""
-- 
2.43.0


From 9ee03db6a535b776c99c4ab77c44126ac8f15517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 008/118] fix: raise an IndexError for out of range negative
 indexes when getting a series item

---
 timeseria/operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 70906f5..fa6d161 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -837,6 +837,8 @@ class Get(Operation):
         # Handle negative index
         if at_i is not None and at_i < 0:
             at_i = len(series) - abs(at_i)
+            if at_i < 0:
+                raise IndexError('Series index out of range')
 
         if at_i is not None:
             return series._item_by_i(at_i)
-- 
2.43.0


From 559352f8b0378528176db2d928cd72099cabb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 009/118] fix: return a series instead of a plain list when
 copying a series

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4205365..8884d44 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,7 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
-from copy import deepcopy
+from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
@@ -868,7 +868,7 @@ class Series(list):
 
     def copy(self):
         """Return a shallow copy of the series."""
-        return super(Series, self).copy()
+        return copy(self)
 
     def duplicate(self):
         """ Return a deep copy of the series."""
-- 
2.43.0


From 2a06d1e066a2fab8efeb37d9f5a116cd79a88c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 010/118] fix: support slicing a time series in the square
 brackets notation with no bounds

---
 timeseria/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 8884d44..7e91ca7 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1424,7 +1424,9 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
-            if isinstance(arg.start, int) or isinstance(arg.stop, int):
+            if arg.start is None and arg.stop is None:
+                return self.slice()
+            elif isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
             elif isinstance(arg.start, float) or isinstance(arg.stop, float):
                 if arg.start is not None and not (isinstance(arg.start, Time)):
-- 
2.43.0


From 7cec31d43b8a82157b172041c62558b964140703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 011/118] fix: never expose items outside of a (non-empty) time
 series view, and support nested iterations over it

---
 timeseria/datastructures.py | 53 +++++++++++--------------------------
 1 file changed, 15 insertions(+), 38 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 7e91ca7..df6c7bb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1902,6 +1902,10 @@ class TimeSeriesView(TimeSeries):
 
     def __init__(self, *items, series=None, from_i=None, to_i=None, **kwargs):
         self.series = series
+        if series is not None:
+            # Set the boundaries, never exceeding the ones of the series
+            from_i, to_i, _ = slice(from_i, to_i).indices(len(series))
+            to_i = max(from_i, to_i)
         self.from_i = from_i
         self.to_i = to_i
         self.len = None
@@ -1914,34 +1918,15 @@ class TimeSeriesView(TimeSeries):
 
             if isinstance(arg, slice):
 
-                if isinstance(arg.start, int):
-                    if arg.start>=0:
-                        slice_start =  self.from_i + arg.start
-                    else:
-                        slice_start =  self.to_i - abs(arg.start)
-                elif arg.start is None:
-                    slice_start = self.from_i
-                else:
-                    slice_start = arg.start
-
-                if isinstance(arg.stop, int):
-                    if arg.stop>=0:
-                        slice_stop =  self.from_i + arg.stop
-                    else:
-                        slice_stop =  self.to_i - abs(arg.stop)
-                elif arg.stop is None:
-                    slice_stop = self.to_i
+                if all([value is None or isinstance(value, int) for value in (arg.start, arg.stop)]):
+                    slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
+                    return self.series[self.from_i + slice_start : self.from_i + max(slice_start, slice_stop)]
                 else:
-                    slice_stop = arg.stop
-
-                return self.series[slice_start:slice_stop]
+                    return super().__getitem__(arg)
 
             else:
                 if isinstance(arg, int):
-                    if arg>=0:
-                        return self.series[self.from_i + arg]
-                    else:
-                        return self.series[self.to_i - abs(arg)]
+                    return self._item_by_i(arg)
                 else:
                     return super().__getitem__(arg)
         else:
@@ -1949,25 +1934,17 @@ class TimeSeriesView(TimeSeries):
 
     def __iter__(self):
         if self.series:
-            self.count = 0
-            return self
+            return (self.series[i] for i in range(self.from_i, self.to_i))
         else:
             return super().__iter__()
 
-    def __next__(self):
+    def _item_by_i(self, i):
         if self.series:
-            this_i = self.count + self.from_i
-
-            if this_i >= self.to_i:
-                # If reached the end stop
-                raise StopIteration
-
-            else:
-                # Otherwise return the corresponding item
-                self.count += 1
-                return self.series[this_i]
+            if len(self) > 0 and not -len(self) <= i < len(self):
+                raise IndexError('Series view index out of range')
+            return self.series[self.from_i + i if i >= 0 else self.to_i + i]
         else:
-            return super().__next__()
+            return super()._item_by_i(i)
 
     def __len__(self):
         if self.series:
-- 
2.43.0


From f87e74fbb61a158ca33f782368ee06a0330dbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 012/118] fix: support slots and slot series across DST changes

---
 timeseria/datastructures.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index df6c7bb..fc46b1b 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -419,7 +419,8 @@ class TimeSlot(Slot):
 
         # Extra time zone checks
         if start and end:
-            if start.tz != end.tz:
+            # Compare as strings since the pytz time zones have different objects for their offsets (e.g. on DST)
+            if str(start.tz) != str(end.tz):
                 raise ValueError('{} start and end must have the same timezone (got start.tz="{}", end.tz="{}")'.format(self.__class__.__name__, start.tz, end.tz))
 
         # Call parent init
@@ -1338,7 +1339,8 @@ class TimeSeries(Series):
 
         else:
             # Else, check for the same timezone
-            if self._tz != item.tz:
+            # Compare as strings since the pytz time zones have different objects for their offsets (e.g. on DST)
+            if str(self.tz) != str(item.tz):
                 raise ValueError('Cannot append slots on different timezones (I have "{}" and you tried to add "{}")'.format(self.tz, item.start.tz))
 
         try:
-- 
2.43.0


From 0d4538a2c4e220acf6037eaf1aa32dafc6ea6af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 013/118] fix: do not mangle the decimals when converting
 seconds to a time unit string

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 40bb075..c5c634a 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -956,7 +956,7 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(seconds).replace('.0', '')
+    seconds_str = str(int(seconds)) if seconds == int(seconds) else str(seconds)
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From 78c4f58441f7afeeb9f30ebb40d47dea2b42a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 014/118] fix: do not loop forever when the sampling interval
 cannot be detected

---
 timeseria/datastructures.py | 8 ++++++--
 timeseria/utilities.py      | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index fc46b1b..be02e82 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1569,8 +1569,12 @@ class TimeSeries(Series):
             resolution_string = 'undefined resolution'
         else:
             if self.resolution == 'variable':
-                autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
-                resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                try:
+                    autodetected_sampling_interval_as_str = TimeUnit(_to_time_unit_string(self._autodetected_sampling_interval, friendlier=True))
+                    resolution_string = 'variable resolution (~{})'.format(autodetected_sampling_interval_as_str)
+                except Exception:
+                    # The sampling interval cannot always be detected
+                    resolution_string = 'variable resolution'
             else:
                 resolution_string = '{} resolution'.format(self.resolution)
         return resolution_string
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index c5c634a..80489ef 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -111,6 +111,7 @@ def detect_sampling_interval(timeseries, confidence=False):
 
         if i > 10:
             raise Exception('Cannot automatically detect the sampling interval')
+        i+=1
 
     most_common_diff_total = 0
     most_common_diff = None
-- 
2.43.0


From db95983e92e3a8f85dcd4095146866a1f3e30ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 015/118] fix: support (first) sampling intervals below 0.1
 milliseconds and with more decimals than the microsecond

---
 timeseria/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 80489ef..be41742 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -957,7 +957,7 @@ def _to_float(string,no_data_placeholders=[],label=None):
 def _to_time_unit_string(seconds, friendlier=True):
     """Converts seconds to a (friendlier) time unit string, as 1s, 1h, 10m etc.)"""
 
-    seconds_str = str(int(seconds)) if seconds == int(seconds) else str(seconds)
+    seconds_str = str(int(seconds)) if seconds == int(seconds) else '{:.7f}'.format(seconds).rstrip('0')
     if friendlier:
         if seconds_str == '60':
             seconds_str = '1m'
-- 
2.43.0


From a58c7ec4ee1a912eeff01207cd464f3608f19141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 016/118] fix: support the value argument in the time unit when
 set as keyword

---
 timeseria/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index b175157..e2da409 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -150,7 +150,7 @@ class TimeUnit(TimeSpan, Unit):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
             args[0] = '{}s'.format(args[0])
-        if kwargs and 'value' in kwargs and (isinstance(kwargs['seconds'], int) or isinstance(kwargs['seconds'], float)) :
+        if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)) :
             kwargs['seconds'] = kwargs.pop('value')
         super(TimeUnit, self).__init__(*args, **kwargs)
 
-- 
2.43.0


From 4119455231054feb5d32f8b7355e5cdd99be32e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 017/118] fix: return the series when loading it or creating it
 from CSV on a time series subclass

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index be02e82..d92ee58 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1616,7 +1616,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
 
     def save(self, file_name, overwrite=False, **kwargs):
@@ -1708,7 +1708,7 @@ class TimeSeries(Series):
         else:
             # TODO: the following is a huge performance hit...
             series_items = loaded_series.contents()
-            cls(*series_items)
+            return cls(*series_items)
 
     def to_csv(self, file_name, overwrite=False, **kwargs):
         """Store the time series as a CSV file."""
-- 
2.43.0


From 9422397c3972ce984a12644f3a3b9fe77bfab43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 018/118] fix: support changing the time zone of an empty time
 series

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d92ee58..d3aaf07 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1483,7 +1483,7 @@ class TimeSeries(Series):
         """Change the time zone of the time series, in-place."""
         for time_point in self:
             time_point.change_tz(tz)
-        self._tz = time_point.tz
+        self._tz = timezonize(tz)
 
     def as_tz(self, tz):
         """Get a copy of the time series on a new time zone."""
-- 
2.43.0


From b8e446d1a34342d21d5a4cf877ddc4919e380a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 019/118] fix: do not alter the data indexes passed as argument
 when creating an item with a data loss

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d3aaf07..862fed3 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -212,7 +212,7 @@ class DataPoint(Point):
         except KeyError:
             pass
         else:
-            data_indexes['data_loss'] = data_loss
+            data_indexes = {**data_indexes, 'data_loss': data_loss}
 
         # Set data indexes
         self._data_indexes = data_indexes
@@ -515,7 +515,7 @@ class DataSlot(Slot):
         except KeyError:
             pass
         else:
-            data_indexes['data_loss'] = data_loss
+            data_indexes = {**data_indexes, 'data_loss': data_loss}
 
         # Set data indexes
         self._data_indexes = data_indexes
-- 
2.43.0


From 61c9ec21e94dbb190cc77d67fef7df68f13815e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 020/118] fix: compute in-place derivatives, integrals and
 cumulative sums on the original data labels and values

---
 timeseria/operations.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index fa6d161..c7ff080 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -264,6 +264,10 @@ class Derivative(Operation):
         except TypeError:
             data_is_keyvalue = False
 
+        # Store the data labels and values before starting, as if working in-place they will change
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         for i, item in enumerate(series):
 
             # Skip the first element if computing diffs
@@ -273,7 +277,7 @@ class Derivative(Operation):
             if not inplace:
                 der_data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
                 diff_left = None
                 diff_right = None
                 diff = None
@@ -282,19 +286,19 @@ class Derivative(Operation):
                     if i == 0:
                         raise ConsistencyException('We should never get here')
                     else:
-                        diff = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff = values[i][data_label] - values[i-1][data_label]
                 else:
                     # Compute the derivative
                     if i == 0:
                         # Right increment for the first item
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_right = values[i+1][data_label] - values[i][data_label]
                     elif i == len(series)-1:
                         # Left increment for the last item. Divide by two if not normalizing by time resolution
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
                     else:
                         # Both left and right increment for the items in the middle
-                        diff_left = series[i]._data_by_label(data_label) - series[i-1]._data_by_label(data_label)
-                        diff_right = series[i+1]._data_by_label(data_label) - series[i]._data_by_label(data_label)
+                        diff_left = values[i][data_label] - values[i-1][data_label]
+                        diff_right = values[i+1][data_label] - values[i][data_label]
 
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
@@ -399,6 +403,10 @@ class Integral(Operation):
 
         last_values={}
 
+        # Store the data labels and values before starting, as if working in-place they will change
+        data_labels = series.data_labels()
+        values = [{data_label: item._data_by_label(data_label) for data_label in data_labels} for item in series]
+
         for i, item in enumerate(series):
 
             # Do we have to create the previous point based on an offset?
@@ -440,18 +448,18 @@ class Integral(Operation):
             if not inplace:
                 data = series[0].data.__class__()
 
-            for data_label in series.data_labels():
+            for data_label in data_labels:
 
                 # Get the value
                 if not normalize:
-                    value = series[i]._data_by_label(data_label)
+                    value = values[i][data_label]
                 else:
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = series[i]._data_by_label(data_label)
+                        prev_right_component = values[i][data_label]
                     else:
-                        left_component = (series[i-1]._data_by_label(data_label)*2) - prev_right_component
+                        left_component = (values[i-1][data_label]*2) - prev_right_component
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
                         prev_right_component = left_component
-- 
2.43.0


From d7c6a66179204f64ab1082295e91cb08f88e01c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 021/118] fix: do not mix the data labels when computing the
 integral of multivariate series

---
 timeseria/operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index c7ff080..9c16ec1 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -402,6 +402,7 @@ class Integral(Operation):
             data_is_keyvalue = False
 
         last_values={}
+        prev_right_components={}
 
         # Store the data labels and values before starting, as if working in-place they will change
         data_labels = series.data_labels()
@@ -457,12 +458,12 @@ class Integral(Operation):
                     # Compute the integral
                     if i == 0:
                         value=0
-                        prev_right_component = values[i][data_label]
+                        prev_right_components[data_label] = values[i][data_label]
                     else:
-                        left_component = (values[i-1][data_label]*2) - prev_right_component
+                        left_component = (values[i-1][data_label]*2) - prev_right_components[data_label]
                         # The "value" below is actually an increment, see below at  value = last_values[data_label] + value
                         value = left_component
-                        prev_right_component = left_component
+                        prev_right_components[data_label] = left_component
 
                 # Normalize the cumulative to get the actual integral
                 if normalize:
-- 
2.43.0


From 045d352a45c046734bcd1f00849cfcc80ee61ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 022/118] fix: support numerical offsets on list data in
 cumulative sums and integrals, and properly report invalid moving average
 windows

---
 timeseria/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 9c16ec1..9d236ee 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -430,7 +430,7 @@ class Integral(Operation):
                             prev_data['{}_{}'.format(data_label,postfix)] = offset
                     else:
                         for data_label in series.data_labels():
-                            prev_data.append(offset[data_label])
+                            prev_data.append(offset)
 
                 if isinstance(item, Point):
                     int_series.append(item.__class__(t = item.t - series.resolution,
@@ -760,7 +760,7 @@ class MAvg(Operation):
         _check_indexed_data(series)
 
         if not window or window <1:
-            raise ValueError('A integer window >0 is required (got window="{}"'.frmat(window))
+            raise ValueError('A integer window >0 is required (got window="{}")'.format(window))
 
         if inplace:
             raise NotImplementedError('Computing a moving average in-place is not supported as it would change the series length')
-- 
2.43.0


From fbfe378fc22dcbe03eaac829ce53b938d3155032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 023/118] fix: do not share the data indexes between the items
 of a series and of the series derived from it

---
 timeseria/datastructures.py | 8 ++++----
 timeseria/operations.py     | 1 +
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 862fed3..b165b63 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -214,8 +214,8 @@ class DataPoint(Point):
         else:
             data_indexes = {**data_indexes, 'data_loss': data_loss}
 
-        # Set data indexes
-        self._data_indexes = data_indexes
+        # Set data indexes (as a copy, not to share them with other items)
+        self._data_indexes = dict(data_indexes)
 
         # Call parent init
         super(DataPoint, self).__init__(*args, **kwargs)
@@ -517,8 +517,8 @@ class DataSlot(Slot):
         else:
             data_indexes = {**data_indexes, 'data_loss': data_loss}
 
-        # Set data indexes
-        self._data_indexes = data_indexes
+        # Set data indexes (as a copy, not to share them with other items)
+        self._data_indexes = dict(data_indexes)
 
         # Call parent init
         super(DataSlot, self).__init__(*args, **kwargs)
diff --git a/timeseria/operations.py b/timeseria/operations.py
index 9d236ee..0f6c1d5 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -878,6 +878,7 @@ class Filter(Operation):
         for item in series:
             filtered_item = copy(item)
             filtered_item._data = {data_label: item._data_by_label(data_label) for data_label in data_labels}
+            filtered_item._data_indexes = copy(item.data_indexes)
             filtered_series.append(filtered_item)
 
         # Re-set reference data as well
-- 
2.43.0


From c464a1a9f4a6d444a92d634b86a2defccf02cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 024/118] fix: do not change the time zone of other slots when
 changing the one of a slot sharing its start or end

---
 timeseria/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b165b63..0077089 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -446,6 +446,9 @@ class TimeSlot(Slot):
 
     def change_tz(self, tz):
         """Change the time zone of the slot, in-place."""
+        # The start and the end can be shared with other slots
+        self.start = copy(self.start)
+        self.end = copy(self.end)
         self.start.change_tz(tz)
         self.end.change_tz(tz)
         self.tz = self.start.tz
-- 
2.43.0


From 7fe30d7d47fe6b6f0136d81163008885b5a3f293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 025/118] fix: do not alter the source series data when
 aggregating in slots with no points and properly compute their values

---
 timeseria/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 44b9c9c..1084167 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -246,8 +246,8 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
                 new_point_data = {data_label:0 for data_label in data_labels}
                 for point in series_dense_view_extended:
                     for data_label in data_labels:
-                        point.data[data_label] += point.data[data_label] * point.weight
-                new_point_t = (to_t - from_t) /2
+                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
+                new_point_t = from_t + ((to_t - from_t) /2)
                 series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
-- 
2.43.0


From cf10b2d5c86ecb7ecdaaef81d77e5ba12fd8ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 026/118] fix: do not ignore zero-valued start, end and
 fill_with arguments in transformations

---
 timeseria/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 1084167..a314a9a 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -273,7 +273,7 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
     #  Compute slot data
     elif target=='slot':
 
-        if data_loss == 1 and fill_with:
+        if data_loss == 1 and fill_with is not None:
             for data_label in data_labels:
                 for operation in operations:
                     data['{}_{}'.format(data_label, operation.__name__)] = fill_with
@@ -430,7 +430,7 @@ class Transformation(object):
                     raise ValueError('Cannot use "{}" as end value, not a datetime nor an epoch timestamp'.format(end))
 
         # Set "from". TODO: check against shifted rounding if points?
-        if from_t:
+        if from_t is not None:
             from_dt = dt_from_s(from_t)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
@@ -461,7 +461,7 @@ class Transformation(object):
                 raise ValueError('Don\'t know how to target "{}"'.format(target))
 
         # Set "to". TODO: check against shifted rounding if points?
-        if to_t:
+        if to_t is not None:
             to_dt = dt_from_s(to_t)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
-- 
2.43.0


From 8809f616fc6ba4aa03264732cd790c1fa65cf419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 027/118] fix: do not leave the transformation weights on the
 source points as they affect the averages computed afterwards

---
 timeseria/transformations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index a314a9a..1f31d91 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -683,6 +683,11 @@ class Transformation(object):
                 if point.dt >= to_dt:
                     process_ended = True
 
+        # Remove the support attributes from the points, or they will affect other operations (e.g. the averages)
+        for point in series:
+            for attribute in ['valid_from', 'valid_to', 'weight']:
+                point.__dict__.pop(attribute, None)
+
         if target == 'points':
             logger.info('Resampled %s DataTimePoints in %s DataTimePoints', count, len(new_series))
         else:
-- 
2.43.0


From 335a05284fe3df4474dd99d5ce4a6bcd4f2c1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 028/118] fix: keep the time zone of a slot series up to date
 when replacing its only slot

---
 timeseria/datastructures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 0077089..daa4f0a 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1402,8 +1402,9 @@ class TimeSeries(Series):
         super(TimeSeries, self)._refresh()
         self._reset_autodetections()
         if len(self) > 0 and isinstance(self._item_by_i(0), TimeSlot):
-            # The unit is the same for all the slots
+            # The unit and the timezone are the same for all the slots
             self._resolution = self._item_by_i(0).unit
+            self._tz = self._item_by_i(0).tz
             return
         self.__dict__.pop('_resolution', None)
         self.__dict__.pop('_resolution_as_seconds', None)
-- 
2.43.0


From 0ea22cbfab31be4dfbc85d9dbc1cf7b1dedbf453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 029/118] fix: do not consider in succession slots which are up
 to more than a second apart

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index daa4f0a..e176590 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -437,8 +437,8 @@ class TimeSlot(Slot):
     # Overwrite parent succedes, this has better performance as it checks for only one dimension
     def __succedes__(self, other):
         if other.end.t != self.start.t:
-            # Take into account floating point rounding errors
-            if _is_close(other.end.t, self.start.t):
+            # Take into account floating point rounding errors (up to the microsecond)
+            if _is_close(other.end.t, self.start.t, rel_tol=0, abs_tol=1e-06):
                 return True
             return False
         else:
-- 
2.43.0


From d36c8dfcac35960851fab5677780c323cf2bc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 030/118] fix: use the actual spacing also at the ends when
 computing the derivative of variable resolution series

---
 timeseria/operations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index 0f6c1d5..a3626eb 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -240,7 +240,6 @@ class Derivative(Operation):
         if normalize:
             if series.resolution == 'variable':
                 variable_resolution = True
-                sampling_interval = series._autodetected_sampling_interval
             else:
                 variable_resolution = False
                 if isinstance(series.resolution, TimeUnit):
@@ -303,11 +302,11 @@ class Derivative(Operation):
                 # Combine and normalize (if required) the increments to get the actual derivative
                 if normalize:
                     if diff is not None:
-                        diff = diff / sampling_interval
+                        diff = diff / (series[i].t - series[i-1].t if variable_resolution else sampling_interval)
                     elif diff_right is None:
-                        diff = diff_left / sampling_interval
+                        diff = diff_left / (series[i].t - series[i-1].t if variable_resolution else sampling_interval)
                     elif diff_left is None:
-                        diff = diff_right / sampling_interval
+                        diff = diff_right / (series[i+1].t - series[i].t if variable_resolution else sampling_interval)
                     else:
                         if variable_resolution:
                             diff = ((diff_left / (series[i].t - series[i-1].t)) + (diff_right / (series[i+1].t - series[i].t))) /2
-- 
2.43.0


From f5a32bd7a8edf4158670e7ed22b6bb70023ffeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 031/118] fix: support storing series where not all of the
 items have the same data indexes

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 6e8f4fa..2ed6915 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -781,7 +781,7 @@ class CSVFileStorage(Storage):
                     data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
                     data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes[index]) for index in data_indexes])
+                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
                     csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
                 else:
-- 
2.43.0


From 7e7b7404e03542fdef4a6c2b3e1f34b234ff21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 032/118] fix: do not overwrite the file when the series cannot
 be stored

---
 timeseria/storages.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 2ed6915..a5e4260 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -748,6 +748,12 @@ class CSVFileStorage(Storage):
         if os.path.isfile(self.filename) and not overwrite:
             raise Exception('File already exists. use overwrite=True to overwrite.')
 
+        # Check that the series can be stored before touching the file, which would be otherwise lost
+        if not series:
+            raise ValueError('Cannot store an empty series')
+        if not issubclass(series.item_type, (DataTimePoint, DataTimeSlot)):
+            raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
+
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-- 
2.43.0


From f3334b4208a1ec5217cdcdbcbcfb07307a78799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 033/118] fix: do not mix the columns of a CSV file when some
 of them have no label

---
 timeseria/storages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index a5e4260..7a188ac 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -263,7 +263,8 @@ class CSVFileStorage(Storage):
                     # If it is, use it as labels (and continue with the next line)
                     if not_converted: # == len(line_items):
                         column_indexes = [i for i in range(len(line_items)) if _sanitize_string(line_items[i],NO_DATA_PLACEHOLDERS)]
-                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items if _sanitize_string(label,NO_DATA_PLACEHOLDERS)]
+                        # Keep also the missing labels (as None) or they will not be aligned with the columns
+                        column_labels = [_sanitize_string(label,NO_DATA_PLACEHOLDERS) for label in line_items]
                         logger.debug('Set column indexes = "%s"  and column labels = "%s"', column_indexes, column_labels)
                         continue
 
-- 
2.43.0


From 14f491eabe09cd2bc93b9a18b5f7b52c9ab5663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 034/118] fix: recognize the UTF-8 encoding also with only a
 few non-ASCII characters

---
 timeseria/utilities.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index be41742..f989ad7 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -75,7 +75,17 @@ def detect_encoding(file_name, streaming=False):
 
     else:
         with open(file_name, 'rb') as file_pointer:
-            chardet_results = chardet.detect(file_pointer.read())
+            content = file_pointer.read()
+        chardet_results = chardet.detect(content)
+
+        # With only a few non-ASCII characters the UTF-8 encoding might not be recognized
+        if not content.isascii() and not str(chardet_results['encoding']).lower().startswith('utf'):
+            try:
+                content.decode('utf-8')
+            except UnicodeDecodeError:
+                pass
+            else:
+                chardet_results['encoding'] = 'utf-8'
 
     logger.debug('Detected encoding "%s" with "%s" confidence (streaming=%s)', chardet_results['encoding'],chardet_results['confidence'], streaming)
     encoding = chardet_results['encoding']
-- 
2.43.0


From 27a41949c57152f3d749d760c8a12e73efd54d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 035/118] fix: use the separator and encoding of the storage
 also when writing CSV files, and load them back accordingly whatever the data
 labels

---
 timeseria/datastructures.py | 11 +++++++---
 timeseria/storages.py       | 40 +++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index e176590..fe5c7b9 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1592,8 +1592,12 @@ class TimeSeries(Series):
     def load(cls, file_name):
         """Load a series from a (CSV) file, in Timeseria format."""
 
+        from .storages import CSVFileStorage
+        from .utilities import detect_encoding
+
         metadata = None
-        with open(file_name) as f:
+        encoding = detect_encoding(file_name)
+        with open(file_name, encoding=encoding) as f:
             for line in f:
                 if line.startswith('#'):
                     if line.startswith('# Extra parameters:'):
@@ -1611,8 +1615,9 @@ class TimeSeries(Series):
         else:
             force_slot_unit = None
 
-        from .storages import CSVFileStorage
-        storage = CSVFileStorage(file_name)
+        # Note: the timestamp is always in the first column
+        storage = CSVFileStorage(file_name, timestamp_column=0, timestamp_format='epoch',
+                                 separator=metadata.get('separator', ','), encoding=metadata.get('encoding', encoding))
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 7a188ac..07655c7 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -2,6 +2,7 @@
 """Data storages, as the CSV file storage."""
 
 import os
+import json
 import pytz
 import datetime
 from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
@@ -205,8 +206,10 @@ class CSVFileStorage(Storage):
         data_type = None
 
         # Detect encoding if not set
-        if not self.encoding:
-            self.encoding = detect_encoding(self.filename, streaming=False)
+        if self.encoding:
+            encoding = self.encoding
+        else:
+            encoding = detect_encoding(self.filename, streaming=False)
 
         # Set and timezonize the timezone. Using this in the points or slots will be just a pointer
         if force_tz:
@@ -217,7 +220,7 @@ class CSVFileStorage(Storage):
         # Loop over all CSV rows
         # TODO: evaluate rU vs newline='\n'
         items = []
-        with open(self.filename, 'r', encoding=self.encoding) as csv_file:
+        with open(self.filename, 'r', encoding=encoding) as csv_file:
 
             while True:
 
@@ -758,41 +761,48 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
-        with open(self.filename, 'w') as csv_file:
+        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
+
+            # Non-default format parameters, required for loading back the series
+            format_parameters = ''
+            if self.separator != ',':
+                format_parameters += ', "separator": {}'.format(json.dumps(self.separator))
+            if self.encoding:
+                format_parameters += ', "encoding": {}'.format(json.dumps(self.encoding))
 
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, format_parameters))
 
             elif issubclass(series.item_type, DataTimeSlot):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"}}\n'.format(series.tz, series.resolution))
+                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, format_parameters))
 
             else:
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
 
             # 1) Dump headers
-            data_labels_part = ','.join([str(data_label) for data_label in series.data_labels()])
-            data_indexes_part = ','.join(['__'+index for index in data_indexes])
+            data_labels_part = self.separator.join([str(data_label) for data_label in series.data_labels()])
+            data_indexes_part = self.separator.join(['__'+index for index in data_indexes])
             if data_indexes_part:
-                csv_file.write('epoch,{},{}\n'.format(data_labels_part,data_indexes_part))
+                csv_file.write('{}\n'.format(self.separator.join(['epoch', data_labels_part, data_indexes_part])))
             else:
-                csv_file.write('epoch,{}\n'.format(data_labels_part))
+                csv_file.write('{}\n'.format(self.separator.join(['epoch', data_labels_part])))
 
             # 2) Dump data (and data_indexes)
             for item in series:
                 if isinstance (series[0].data, list) or isinstance (series[0].data, tuple):
-                    data_part = ','.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
+                    data_part = self.separator.join([str(item.data[int(data_label)]) for data_label in series.data_labels()])
                 else:
-                    data_part = ','.join([str(item.data[data_label]) for data_label in series.data_labels()])
-                data_indexes_part = ','.join([str(item.data_indexes.get(index)) for index in data_indexes])
+                    data_part = self.separator.join([str(item.data[data_label]) for data_label in series.data_labels()])
+                data_indexes_part = self.separator.join([str(item.data_indexes.get(index)) for index in data_indexes])
                 if data_indexes_part:
-                    csv_file.write('{},{},{}\n'.format(item.t, data_part, data_indexes_part))
+                    csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part, data_indexes_part])))
                 else:
-                    csv_file.write('{},{}\n'.format(item.t, data_part))
+                    csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part])))
 
 
 
-- 
2.43.0


From 50bf00a13bd8f7449e683a15385df63ffdae88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 036/118] fix: do not change the data type of a CSV storage
 when getting only some columns

---
 timeseria/storages.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 07655c7..c6ed522 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -204,6 +204,7 @@ class CSVFileStorage(Storage):
 
         # Data type
         data_type = None
+        requested_data_type = self.data_type
 
         # Detect encoding if not set
         if self.encoding:
@@ -453,7 +454,7 @@ class CSVFileStorage(Storage):
                         if _is_list_of_integers(data_labels):
                             # Case where we have been given a list of integers
                             data_label_indexes = data_labels
-                            self.data_type = list
+                            requested_data_type = list
 
                         else:
                             # Case where we have been given a list of labels
@@ -492,15 +493,15 @@ class CSVFileStorage(Storage):
 
                 # Set data type
                 if not data_type:
-                    if data_label_names and len(data_label_names) > 1 and self.data_type == float:
+                    if data_label_names and len(data_label_names) > 1 and requested_data_type == float:
                         raise Exception('Requested data format as float but got more than 1 value')
-                    if self.data_type=='auto':
+                    if requested_data_type=='auto':
                         if not data_label_names:
                             data_type = list
                         else:
                             data_type = dict
                     else:
-                        data_type = self.data_type
+                        data_type = requested_data_type
 
                 # Set data
                 try:
-- 
2.43.0


From ffdaea88e5f73c826f368456772435d51665e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 037/118] fix: do not require to detect the sampling interval
 when loading slots with a given unit

---
 timeseria/storages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index c6ed522..ab1fff3 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -566,8 +566,12 @@ class CSVFileStorage(Storage):
                 # Go in auto mode
                 series_type = None
 
+        # If we were explicitly given a slot unit, there is nothing to detect
+        if series_type == 'slots' and force_slot_unit:
+            slot_unit = force_slot_unit
+
         # Otherwise, auto-detect
-        if not series_type or series_type=='slots':
+        elif not series_type or series_type=='slots':
 
             autodetect_series_type = True
 
@@ -639,7 +643,6 @@ class CSVFileStorage(Storage):
                 slot_unit = None
             elif series_type == 'slots':
                 series_type = DataTimeSlot
-                slot_unit = TimeUnit('{}s'.format(detected_sampling_interval))
             else:
                 raise ValueError('Unknown value "{}" for type. Accepted types are "points" or "slots".'.format(self.series_type))
         else:
-- 
2.43.0


From fd6d8bde4897bbda6a0aed59a21cc751bee38e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:58 +0000
Subject: [PATCH 038/118] fix: refuse to store in CSV files series with labels
 which would be lost or misinterpreted

---
 timeseria/storages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index ab1fff3..cc43f67 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -765,6 +765,14 @@ class CSVFileStorage(Storage):
         # Set data_indexes here once for all or there will be a slowdown afterwards
         data_indexes = series._all_data_indexes()
 
+        # Labels which would not be correctly interpreted when getting back the series cannot be stored
+        for label in [str(data_label) for data_label in series.data_labels()] + ['__'+index for index in data_indexes]:
+            if not label or self.separator in label or _sanitize_string(label, NO_DATA_PLACEHOLDERS) != label:
+                raise ValueError('Cannot store the label "{}" in a CSV file'.format(label))
+        for data_label in series.data_labels():
+            if str(data_label).startswith('__'):
+                raise ValueError('Cannot store the label "{}" in a CSV file as reserved for the data indexes'.format(data_label))
+
         with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
 
             # Non-default format parameters, required for loading back the series
-- 
2.43.0


From d27e0034350d2f9b07fa0d770566661f21192c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 039/118] fix: properly fill missing slots when getting series
 with list data or data indexes from CSV files, and skip errors also for slots

---
 timeseria/storages.py | 48 ++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index cc43f67..e18dead 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -721,24 +721,38 @@ class CSVFileStorage(Storage):
                     series.append(datatimeslot)
 
                 except ValueError as e:
-                    # The only ValueError that could (should) arise here is a "Not in succession" error.
-                    missing_timestamps = []
-                    prev_dt = dt_from_s(items[i-1][0], tz=tz)
-                    while True:
-                        dt = prev_dt + slot_unit
-                        # Note: the equal here is just to prevent endless loops, the check shoudl actally be just an equal
-                        if s_from_dt(dt) >= item[0]:
-                            # We are arrived, append all the missing items and then the item we originally tried to and break
-                            for j, missing_timestamp in enumerate(missing_timestamps):
-                                # Set data by interpolation
-                                interpolated_data = {data_label: (((items[i][1][data_label]-items[i-1][1][data_label])/(len(missing_timestamps)+1)) * (j+1)) + items[i-1][1][data_label]  for data_label in  items[-1][1] }
-                                series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
-                            series.append(DataTimeSlot(t=item[0], unit=slot_unit, data=item[1], data_loss=DEFAULT_SLOT_DATA_LOSS, tz=tz))
-                            break
-
-                        else:
+                    try:
+                        # The only ValueError that could (should) arise here is a "Not in succession" error.
+                        if not series:
+                            raise e from None
+                        missing_timestamps = []
+                        prev_slot = series[-1]
+                        dt = prev_slot.end.dt
+                        while s_from_dt(dt) < item[0]:
                             missing_timestamps.append(s_from_dt(dt))
-                        prev_dt = dt
+                            dt = dt + slot_unit
+
+                        # If we did not arrive exactly to the item there are no slots to be added that can make it in succession
+                        if not missing_timestamps or s_from_dt(dt) != item[0]:
+                            raise e from None
+
+                        # We are arrived, append all the missing items and then the item we originally tried to
+                        for j, missing_timestamp in enumerate(missing_timestamps):
+                            # Set data by interpolation
+                            weight = (j+1)/(len(missing_timestamps)+1)
+                            if isinstance(item[1], dict):
+                                interpolated_data = {data_label: ((item[1][data_label]-prev_slot.data[data_label])*weight) + prev_slot.data[data_label] for data_label in item[1]}
+                            else:
+                                interpolated_data = [((value-prev_value)*weight) + prev_value for prev_value, value in zip(prev_slot.data, item[1])]
+                            series.append(DataTimeSlot(t=missing_timestamp, unit=slot_unit, data=interpolated_data, data_loss=1, tz=tz))
+                        series.append(datatimeslot)
+
+                    except Exception as e:
+                        if self.skip_errors:
+                            if not self.silence_errors:
+                                logger.error(e)
+                        else:
+                            raise e from None
 
         return series
 
-- 
2.43.0


From 59160b2ac003e780f15c50645843741c1a9ef338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 040/118] fix: detect also leap years and 29-day months when
 choosing the slot unit for CSV files

---
 timeseria/storages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index e18dead..63a7aa9 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -434,7 +434,7 @@ class CSVFileStorage(Storage):
                         logger.debug('Cannot parse timestamp "%s" (%s) in line #%s, skipping the line.', timestamp, e, line_number)
                         continue
                     else:
-                        raise ValueError('Cannot parse timestamp "{}" ({}) in line #%{}, aborting. Set "skip_errors=True" to drop them instead.'.format(timestamp, e, line_number)) from None
+                        raise ValueError('Cannot parse timestamp "{}" ({}) in line #{}, aborting. Set "skip_errors=True" to drop them instead.'.format(timestamp, e, line_number)) from None
 
                 #====================
                 #  Data part
@@ -591,12 +591,12 @@ class CSVFileStorage(Storage):
             detected_sampling_interval = detect_sampling_interval(sample_timepointseries)
 
             # Years
-            if detected_sampling_interval in [86400*365, 886400*366]:
+            if detected_sampling_interval in [86400*365, 86400*366]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1Y')
 
             # Months
-            elif detected_sampling_interval in [86400*31, 86400*30, 86400*28]:
+            elif detected_sampling_interval in [86400*31, 86400*30, 86400*29, 86400*28]:
                 detected_series_type = DataTimeSlot
                 auto_slot_unit = TimeUnit('1M')
 
-- 
2.43.0


From 1567022b8f44cb975564e03adbca6b26c61022ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 041/118] fix: support loading back series saved on time zones
 with no name as the fixed-offset ones

---
 timeseria/datastructures.py |  4 ++--
 timeseria/storages.py       | 31 +++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index fe5c7b9..feb8885 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1592,7 +1592,7 @@ class TimeSeries(Series):
     def load(cls, file_name):
         """Load a series from a (CSV) file, in Timeseria format."""
 
-        from .storages import CSVFileStorage
+        from .storages import CSVFileStorage, _tz_from_str
         from .utilities import detect_encoding
 
         metadata = None
@@ -1609,7 +1609,7 @@ class TimeSeries(Series):
 
         force_points = True if metadata['type'] == 'points' else False
         force_slots = True if metadata['type'] == 'slots' else False
-        force_tz = metadata['tz']
+        force_tz = _tz_from_str(metadata['tz'])
         if force_slots:
             force_slot_unit = metadata['resolution']
         else:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index 63a7aa9..2ecfff7 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -2,6 +2,7 @@
 """Data storages, as the CSV file storage."""
 
 import os
+import re
 import json
 import pytz
 import datetime
@@ -22,6 +23,32 @@ NO_DATA_PLACEHOLDERS = ['na', 'nan', 'null', 'nd', 'undef']
 DEFAULT_SLOT_DATA_LOSS = None
 
 
+#======================
+#  Support functions
+#======================
+
+def _tz_to_str(tz):
+    """Convert a time zone to a string, using the offset for the fixed-offset time zones with no name."""
+    try:
+        timezonize(str(tz))
+        return str(tz)
+    except Exception:
+        offset = tz.utcoffset(None)
+        if offset is None:
+            return str(tz)
+        minutes = int(offset.total_seconds() // 60)
+        return '{}{:02d}:{:02d}'.format('-' if minutes < 0 else '+', abs(minutes) // 60, abs(minutes) % 60)
+
+
+def _tz_from_str(string):
+    """Get back the time zone from its string representation."""
+    match = re.fullmatch('([+-])([0-9]{2}):([0-9]{2})', string)
+    if match:
+        minutes = int(match.group(2))*60 + int(match.group(3))
+        return pytz.FixedOffset(-minutes if match.group(1) == '-' else minutes)
+    return timezonize(string)
+
+
 #======================
 #  Base Storage class
 #======================
@@ -800,12 +827,12 @@ class CSVFileStorage(Storage):
             if issubclass(series.item_type, DataTimePoint):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, format_parameters))
+                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(_tz_to_str(series.tz), series.resolution, format_parameters))
 
             elif issubclass(series.item_type, DataTimeSlot):
                 csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
                 csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(series.tz, series.resolution, format_parameters))
+                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(_tz_to_str(series.tz), series.resolution, format_parameters))
 
             else:
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
-- 
2.43.0


From af42bd3f683400477f1725d5b1bf9574efc41ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 042/118] fix: do not take for a header the first line of a CSV
 file with no header and with decimal commas

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 2ecfff7..7a584c8 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -284,7 +284,7 @@ class CSVFileStorage(Storage):
                     not_converted = 0
                     for value in line_items:
                         try:
-                            float(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
+                            _to_float(value,NO_DATA_PLACEHOLDERS)
                         except:
                             try:
                                 dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
-- 
2.43.0


From 6caac0f588ebb5f78f005fff0b09f0f5c3eaa368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 043/118] fix: skip also the CSV file lines with no timestamp
 when skipping errors

---
 timeseria/storages.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 7a584c8..b6cbeb1 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -370,6 +370,14 @@ class CSVFileStorage(Storage):
                 if timestamp_column_index is None and time_column_index is None and date_column_index is None:
                     raise ConsistencyException('Could not set timestamp_column_index nor time_column_index nor date_column_index, somehting wrong happened.')
 
+                # Is the timestamp missing?
+                if any(index is not None and index >= len(line_items) for index in (timestamp_column_index, time_column_index, date_column_index)):
+                    if self.skip_errors:
+                        logger.debug('Cannot find the timestamp in line #%s, skipping the line.', line_number)
+                        continue
+                    else:
+                        raise ValueError('Cannot find the timestamp in line #{}, aborting. Set "skip_errors=True" to drop them instead.'.format(line_number))
+
                 # Ok,now get the timestamp as string
                 if timestamp_column_index is not None:
                     # Just use the Timestamp column
-- 
2.43.0


From d6a768bf85fd3bd999d574ef7580954cd22dc0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 044/118] fix: do not take the decimals of the seconds in ISO
 8601 timestamps as microseconds whatever their number

---
 timeseria/datastructures.py |  6 +++---
 timeseria/storages.py       | 10 +++++-----
 timeseria/utilities.py      |  9 ++++++++-
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index feb8885..100063e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -7,10 +7,10 @@ from pandas import DataFrame
 from datetime import datetime
 from pytz import UTC
 from propertime import Time
-from propertime.utils import s_from_dt , dt_from_s, timezonize, dt_from_str, str_from_dt
+from propertime.utils import s_from_dt , dt_from_s, timezonize, str_from_dt
 
 from .units import Unit, TimeUnit
-from .utilities import _is_close, _to_time_unit_string
+from .utilities import _is_close, _to_time_unit_string, _dt_from_str
 from .utilities import _is_index_based, _is_key_based, _has_numerical_values
 from .exceptions import ConsistencyException
 
@@ -1659,7 +1659,7 @@ class TimeSeries(Series):
                     item_t = float(key)
                 except ValueError:
                     try:
-                        item_t = s_from_dt(dt_from_str(key))
+                        item_t = s_from_dt(_dt_from_str(key))
                     except Exception as e:
                         raise e from None
             else:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index b6cbeb1..698438d 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -6,10 +6,10 @@ import re
 import json
 import pytz
 import datetime
-from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float
+from .utilities import detect_encoding, _sanitize_string, _is_list_of_integers, _to_float, _dt_from_str
 from .units import TimeUnit
 from .datastructures import TimePoint, DataTimePoint, DataTimeSlot, TimeSeries
-from propertime.utils import dt_from_str, dt_from_s, s_from_dt, timezonize, now_dt
+from propertime.utils import dt_from_s, s_from_dt, timezonize, now_dt
 from .exceptions import NoDataException, FloatConversionError, ConsistencyException
 
 # Setup logging
@@ -287,7 +287,7 @@ class CSVFileStorage(Storage):
                             _to_float(value,NO_DATA_PLACEHOLDERS)
                         except:
                             try:
-                                dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
+                                _dt_from_str(_sanitize_string(value,NO_DATA_PLACEHOLDERS))
                             except:
                                 not_converted += 1
 
@@ -438,7 +438,7 @@ class CSVFileStorage(Storage):
                             except:
                                 try:
                                     # is this an iso8601?
-                                    dt = dt_from_str(timestamp)
+                                    dt = _dt_from_str(timestamp)
                                     logger.debug('Auto-detected timestamp format: iso8601')
                                     self.timestamp_format = 'iso8601'
                                 except:
@@ -450,7 +450,7 @@ class CSVFileStorage(Storage):
 
                         # ISO8601 format?
                         elif self.timestamp_format == 'iso8601':
-                            dt = dt_from_str(timestamp)
+                            dt = _dt_from_str(timestamp)
 
                         # Custom format?
                         else:
diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index f989ad7..617b24b 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -11,7 +11,7 @@ from numpy import fft
 from scipy.signal import find_peaks
 from .exceptions import ConsistencyException, FloatConversionError
 from datetime import datetime
-from propertime.utils import s_from_dt
+from propertime.utils import s_from_dt, dt_from_str
 import subprocess
 from collections import namedtuple
 import numpy as np
@@ -938,6 +938,13 @@ def _sanitize_string(string, no_data_placeholders=[]):
     return string
 
 
+def _dt_from_str(string):
+    """Create a datetime object from an ISO 8601 string, with any number of decimals for the seconds"""
+
+    # The decimals are otherwise always assumed as microseconds
+    return dt_from_str(re.sub('\\.([0-9]{1,6})[0-9]*', lambda match: '.' + match.group(1).ljust(6, '0'), string))
+
+
 def _is_list_of_integers(the_list):
     """Check if the list if made of integers"""
 
-- 
2.43.0


From b0e7cae5f0ceb8803066297681fcdea4de09117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 045/118] fix: support converting series with list data to data
 frames

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 100063e..b051db2 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1860,7 +1860,7 @@ class TimeSeries(Series):
 
         df = DataFrame(columns=columns)
         for item in self:
-            values = [item.data[data_label] for data_label in data_labels]
+            values = [item._data_by_label(data_label) for data_label in data_labels]
             if dump_data_loss:
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
-- 
2.43.0


From 105fa13b42aaf2bcb186846d8aa3f8997c9aed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 046/118] fix: do not lose the existing file when the data
 cannot be written or encoded

---
 timeseria/storages.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index 698438d..fbc0394 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Data storages, as the CSV file storage."""
 
+import io
 import os
 import re
 import json
@@ -822,7 +823,8 @@ class CSVFileStorage(Storage):
             if str(data_label).startswith('__'):
                 raise ValueError('Cannot store the label "{}" in a CSV file as reserved for the data indexes'.format(data_label))
 
-        with open(self.filename, 'w', encoding=self.encoding if self.encoding else 'utf-8') as csv_file:
+        # Prepare the content in memory first, in order not to lose an existing file if something goes wrong
+        with io.StringIO() as csv_file:
 
             # Non-default format parameters, required for loading back the series
             format_parameters = ''
@@ -865,6 +867,12 @@ class CSVFileStorage(Storage):
                 else:
                     csv_file.write('{}\n'.format(self.separator.join([str(item.t), data_part])))
 
+            content = csv_file.getvalue().encode(self.encoding if self.encoding else 'utf-8')
+
+        # 3) Write the file
+        with open(self.filename, 'wb') as csv_file:
+            csv_file.write(content)
+
 
 
 
-- 
2.43.0


From ae252c36d9d663e8820cfc179e4eac8ce33e55b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 047/118] fix: compute the contribution of previous data losses
 according to the validity of the points, or the data loss could exceed the
 actual one

---
 timeseria/utilities.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index 617b24b..ad45bb2 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -768,24 +768,15 @@ def _compute_data_loss(series, from_t, to_t, force=False, sampling_interval=None
 
             if point.data_loss:
 
-                # Set validity
-                point_valid_from_t = point.t - (sampling_interval/2)
-                point_valid_to_t = point.t + (sampling_interval/2)
-
                 # Skip points which have not to be taken into account
-                if point_valid_to_t < from_t:
+                if point.valid_to < from_t:
                     continue
-                if point_valid_from_t >= to_t:
+                if point.valid_from >= to_t:
                     continue
 
-                # Compute the contribution of this point data loss: overlapping
-                # first point, overlapping last point, or all included?
-                if point_valid_from_t < from_t:
-                    point_contribution = abs(from_t - point_valid_to_t)
-                elif point_valid_to_t >= to_t:
-                    point_contribution = abs(to_t - point_valid_from_t)
-                else:
-                    point_contribution = sampling_interval
+                # Compute the contribution of this point data loss, according to
+                # the part of its validity region which falls in the interval
+                point_contribution = min(point.valid_to, to_t) - max(point.valid_from, from_t)
 
                 #logger.debug('----------------')
                 #count+=1
-- 
2.43.0


From 4af51e98ce3889bab01874e95892585b7177dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 048/118] fix: support aggregating in slots with no points when
 these fall in the validity of points with a full data loss

---
 timeseria/transformations.py | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index 1f31d91..ea451c1 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -7,7 +7,6 @@ from .datastructures import Point, Slot, DataTimeSlot, TimePoint, DataTimePoint,
 from .utilities import _compute_data_loss, _compute_validity_regions
 from .operations import avg
 from .units import TimeUnit
-from .exceptions import ConsistencyException
 from . import operations as operations_module
 from .interpolators import LinearInterpolator
 
@@ -225,30 +224,15 @@ def _compute_new(target, series, from_t, to_t, slot_first_point_i, slot_last_poi
 
         if slot_first_point_i is None and slot_last_point_i is None:
             # If we have no datapoints at all in the slot, we must create one to let operations not
-            # supporting weights to properly work. If we have a full data loss, this can be just the
-            # middle point from the series_dense_view_extended. Otherwise, we must compute it from
-            # scratch as we are upsamping with no data loss but still no points belonging to the slot.
-
-            if data_loss==1:
-                series_dense_view = None
-                for point in series_dense_view_extended:
-                    try:
-                        if point._interpolated:
-                            if series_dense_view:
-                                raise ConsistencyException('Found more than one reconstructed point in a fully missing slot')
-                            series_dense_view = series.__class__(point)
-                    except AttributeError:
-                        pass
-                if not series_dense_view:
-                    raise ConsistencyException('Could not find any reconstructed point in a fully missing slot')
-            else:
-                # Just create a point based on the series_dense_view_extended weights (TODO: are we including the interpolated?):
-                new_point_data = {data_label:0 for data_label in data_labels}
-                for point in series_dense_view_extended:
-                    for data_label in data_labels:
-                        new_point_data[data_label] += point._data_by_label(data_label) * point.weight
-                new_point_t = from_t + ((to_t - from_t) /2)
-                series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
+            # supporting weights to properly work.
+            # Just create a point based on the series_dense_view_extended weights, including the interpolated ones
+            # (which in case of a slot with no data at all is the only one with a weight).
+            new_point_data = {data_label:0 for data_label in data_labels}
+            for point in series_dense_view_extended:
+                for data_label in data_labels:
+                    new_point_data[data_label] += point._data_by_label(data_label) * point.weight
+            new_point_t = from_t + ((to_t - from_t) /2)
+            series_dense_view = TimeSeries(DataTimePoint(t=new_point_t, data=new_point_data, tz=series.tz))
 
         else:
             # Create a view of the original series to provide only the datapoints belonging to the slot
-- 
2.43.0


From a9b722c312f30f501fa0d8051da973f28ff58732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:11 +0000
Subject: [PATCH 049/118] fix: check the start and end of a transformation on
 the time zone of the series

---
 timeseria/transformations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index ea451c1..c555889 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -415,11 +415,12 @@ class Transformation(object):
 
         # Set "from". TODO: check against shifted rounding if points?
         if from_t is not None:
-            from_dt = dt_from_s(from_t)
+            from_dt = dt_from_s(from_t, tz=series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_t))
         elif from_dt:
             from_t = s_from_dt(from_dt)
+            from_dt = as_tz(from_dt, series.tz)
             if from_dt != self.time_unit.round(from_dt):
                 raise ValueError('The provided from_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, from_dt))
         else:
@@ -446,11 +447,12 @@ class Transformation(object):
 
         # Set "to". TODO: check against shifted rounding if points?
         if to_t is not None:
-            to_dt = dt_from_s(to_t)
+            to_dt = dt_from_s(to_t, tz=series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_t is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_t))
         elif to_dt:
             to_t = s_from_dt(to_dt)
+            to_dt = as_tz(to_dt, series.tz)
             if to_dt != self.time_unit.round(to_dt):
                 raise ValueError('The provided to_dt is not consistent with the self.time_unit of "{}" (Got "{}")'.format(self.time_unit, to_dt))
         else:
-- 
2.43.0


From 655a94d1016ac71a55612339b30f2f54583f9c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 050/118] fix: do not go beyond the requested end of a
 transformation when followed by missing data

---
 timeseria/transformations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index c555889..be82047 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -569,6 +569,10 @@ class Transformation(object):
                 while slot_end_t <= point.t:
                     logger.debug('Checking for end %s with point %s', slot_end_t, point.t)
 
+                    if end is not None and slot_start_t is not None and slot_end_t > to_t:
+                        # Do not go beyond the requested end if there are no points for a while after it
+                        break
+
                     if slot_start_t is None:
                         # If we are in the pre-first slot, just silently spin a new slot
                         pass
-- 
2.43.0


From e3a7fd3daeee69916fa10d551b2852f67201add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 051/118] fix: support aggregating in calendar slots when the
 first point, moved by a slot, would fall in a DST change or in no day

---
 timeseria/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index be82047..fc842c8 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -485,7 +485,7 @@ class Transformation(object):
             logger.info('Using auto-detected sampling interval: %ss', validity)
 
         # Check if upsamplimg (with some tolearance):
-        if validity > (self.time_unit.as_seconds(series[0].dt) * 1.10):
+        if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
         # Compute validity regions
-- 
2.43.0


From eef9e98e55e733b4815cfc2d9b035b082931fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:01 +0000
Subject: [PATCH 052/118] fix: support numerical time units below a tenth of
 millisecond and with floating point noise

---
 timeseria/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/units.py b/timeseria/units.py
index e2da409..36487e2 100644
--- a/timeseria/units.py
+++ b/timeseria/units.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 """Units, including the TimeUnit, which fully supports calendar arithmetic."""
 
-from .utilities import is_numerical
+from .utilities import is_numerical, _to_time_unit_string
 from propertime import TimeSpan
 
 # Setup logging
@@ -149,7 +149,7 @@ class TimeUnit(TimeSpan, Unit):
     def __init__(self, *args, **kwargs):
         if args and (isinstance(args[0], int) or isinstance(args[0], float)):
             args = list(args)
-            args[0] = '{}s'.format(args[0])
+            args[0] = _to_time_unit_string(args[0], friendlier=False)
         if kwargs and 'value' in kwargs and (isinstance(kwargs['value'], int) or isinstance(kwargs['value'], float)) :
             kwargs['seconds'] = kwargs.pop('value')
         super(TimeUnit, self).__init__(*args, **kwargs)
-- 
2.43.0


From bf060061aa75ce53c445763e1e4f8f7ac4616a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 053/118] fix: search for the surrounding points and refuse
 times outside the series in the interpolators

---
 timeseria/interpolators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 6e147f8..0ce58f6 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -37,7 +37,7 @@ class LinearInterpolator(Interpolator):
                     next_i = i
                     break
 
-            if next_i is None:
+            if next_i is None or next_i == 0:
                 raise ValueError('Trying to interpolate a point outside the series: prev_i="{}", next_i="{}", at="{}", series="{}"'.format(prev_i, next_i, at, self.series))
 
         else:
@@ -89,12 +89,12 @@ class UniformInterpolator(Interpolator):
 
     def evaluate(self, at, prev_i=None, next_i=None):
 
-        if prev_i and next_i is None:
+        if prev_i is not None and next_i is None:
             raise ValueError('If you provide the prev_i you also need to provide the next_i')
-        if next_i and prev_i is None:
+        if next_i is not None and prev_i is None:
             raise ValueError('If you provide the next_i you also need to provide the prev_i')
 
-        if not prev_i:
+        if prev_i is None and next_i is None:
             logger.warning('You are not providing the prev_i and next_i, this will cause the interpolator to look for them and likely introduce a slow down')
 
             # Search for the prev_i:
@@ -102,9 +102,9 @@ class UniformInterpolator(Interpolator):
                 if item.t > at:
                     prev_i = i-1
                     next_i = i
-                break
+                    break
 
-            if next_i is None:
+            if next_i is None or next_i == 0:
                 raise ValueError('Trying to interpolate a point outside the series')
 
         else:
-- 
2.43.0


From 7e2d582ef5717e6cb9228608293691853af0b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 054/118] fix: support interpolating list data

---
 timeseria/interpolators.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/timeseria/interpolators.py b/timeseria/interpolators.py
index 0ce58f6..2785117 100644
--- a/timeseria/interpolators.py
+++ b/timeseria/interpolators.py
@@ -49,7 +49,7 @@ class LinearInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         # Example:
         # Indexes  0 1 2 3 4 5 6 7
@@ -69,13 +69,17 @@ class LinearInterpolator(Interpolator):
 
             else:
                 # Compute the "growth" ratio
-                diff = next_point.data[label] - prev_point.data[label]
+                prev_value = prev_point._data_by_label(label)
+                diff = next_point._data_by_label(label) - prev_value
                 delta_t = next_point.t - prev_point.t
                 ratio = diff / delta_t
 
                 # Compute the value of the data for the new point
-                interpolated_data[label] = prev_point.data[label] + ((at-prev_point.t)*ratio)
+                interpolated_data[label] = prev_value + ((at-prev_point.t)*ratio)
 
+        # Get back to the list format if the series items use it
+        if not isinstance(self.series[0].data, dict):
+            interpolated_data = [interpolated_data[str(i)] for i in range(len(interpolated_data))]
 
         return interpolated_data
 
@@ -116,10 +120,15 @@ class UniformInterpolator(Interpolator):
         next_point = self.series[next_i]
 
         # Compute the increment with respect to the interpolation
-        interpolated_data = self.series[0].data.__class__()
+        interpolated_data = {}
 
         for label in self.series.data_labels():
-            interpolated_data[label] = prev_point.data[label] + ((next_point.data[label] - prev_point.data[label]) /2)
+            prev_value = prev_point._data_by_label(label)
+            interpolated_data[label] = prev_value + ((next_point._data_by_label(label) - prev_value) /2)
+
+        # Get back to the list format if the series items use it
+        if not isinstance(self.series[0].data, dict):
+            interpolated_data = [interpolated_data[str(i)] for i in range(len(interpolated_data))]
 
         return interpolated_data
 
-- 
2.43.0


From 215ded5bc8f3692541c14733b229ac2f7fe35b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 055/118] fix: support fitting the periodic average forecaster
 with a given window

---
 timeseria/models/forecasters.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index e15e6bb..89f359a 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -499,20 +499,20 @@ class PeriodicAverageForecaster(Forecaster):
                 logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
                 self.data['windows'][data_label]= periodicity
 
-                sums   = {}
-                totals = {}
-                processed = 0
-                for item in series:
-                    if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
-                        continue
-                    periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
-                    if not periodicity_index in sums:
-                        sums[periodicity_index] = item.data[data_label]
-                        totals[periodicity_index] = 1
-                    else:
-                        sums[periodicity_index] += item.data[data_label]
-                        totals[periodicity_index] +=1
-                    processed += 1
+            sums   = {}
+            totals = {}
+            processed = 0
+            for item in series:
+                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                    continue
+                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                if not periodicity_index in sums:
+                    sums[periodicity_index] = item.data[data_label]
+                    totals[periodicity_index] = 1
+                else:
+                    sums[periodicity_index] += item.data[data_label]
+                    totals[periodicity_index] +=1
+                processed += 1
 
             if not processed:
                 raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
-- 
2.43.0


From 1c59f8df71f24861c038dd7c6a3294b28a6a0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 056/118] fix: detect the periodicity of each data label in the
 periodic average forecaster

---
 timeseria/models/forecasters.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 89f359a..7f44000 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -487,17 +487,19 @@ class PeriodicAverageForecaster(Forecaster):
         for data_label in series.data_labels():
             # Set or detect periodicity
             if periodicity == 'auto':
-                periodicity =  detect_periodicity(series[data_label])
-                logger.info('Detected periodicity for "%s": %sx %s', data_label, periodicity, series.resolution)
+                label_periodicity =  detect_periodicity(series[data_label])
+                logger.info('Detected periodicity for "%s": %sx %s', data_label, label_periodicity, series.resolution)
+            else:
+                label_periodicity = periodicity
 
-            self.data['periodicities'][data_label]  = periodicity
+            self.data['periodicities'][data_label]  = label_periodicity
 
             # Set window
             if self._window != 'auto':
                 self.data['windows'][data_label] = self._window
             else:
-                logger.info('Using a window of "{}" for "{}"'.format(periodicity, data_label))
-                self.data['windows'][data_label]= periodicity
+                logger.info('Using a window of "{}" for "{}"'.format(label_periodicity, data_label))
+                self.data['windows'][data_label]= label_periodicity
 
             sums   = {}
             totals = {}
@@ -505,7 +507,7 @@ class PeriodicAverageForecaster(Forecaster):
             for item in series:
                 if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
                     continue
-                periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected)
+                periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
                     sums[periodicity_index] = item.data[data_label]
                     totals[periodicity_index] = 1
-- 
2.43.0


From 2b448eb7fe72f11354b36795dd7f102891384153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 057/118] fix: average the periodic average forecaster offset
 on all of the window items

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 7f44000..8b7e67d 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -573,7 +573,7 @@ class PeriodicAverageForecaster(Forecaster):
                     diffs += (real_value - predict_value)
 
                 # Sum the avg diff between the real and the forecast on the window to the forecast (the offset)
-                offset = diffs/j
+                offset = diffs/self.data['windows'][data_label]
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-- 
2.43.0


From faf910a677e77b97f19e3ba73f9001a310b47ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 058/118] fix: compute the periodicity index also for calendar
 resolutions and before the epoch

---
 timeseria/utilities.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index ad45bb2..d250e91 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -5,7 +5,7 @@ import re
 import random
 import numpy
 import chardet
-from math import log
+from math import floor, log
 from chardet.universaldetector import UniversalDetector
 from numpy import fft
 from scipy.signal import find_peaks
@@ -871,6 +871,13 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     from .units import Unit, TimeUnit
     # Handle specific cases
     if isinstance(resolution, TimeUnit):
+        # Units of variable length cannot be counted on the timestamp
+        if resolution.years or resolution.months:
+            months_count = (item.dt.year - 1970)*12 + (item.dt.month - 1)
+            return (months_count // (resolution.years*12 + resolution.months)) % periodicity
+        if resolution.weeks or resolution.days:
+            days_count = item.dt.toordinal() - datetime(1970,1,1).toordinal()
+            return (days_count // (resolution.weeks*7 + resolution.days)) % periodicity
         resolution_s = resolution.as_seconds(item.dt)
     elif isinstance(resolution, Unit):
         if isinstance(resolution, list):
@@ -885,7 +892,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
     if not dst_affected:
 
         # Get index based on item timestamp, normalized to unit, modulus periodicity
-        periodicity_index =  int(item.t / resolution_s) % periodicity
+        periodicity_index =  floor(item.t / resolution_s) % periodicity
 
     else:
 
@@ -896,7 +903,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         if dst_timedelta.days == 0 and dst_timedelta.seconds == 0:
             # No DST
-            periodicity_index = int(item.t / resolution_s) % periodicity
+            periodicity_index = floor(item.t / resolution_s) % periodicity
 
         else:
             # DST
@@ -910,7 +917,7 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
             dst_offset_s = dst_timedelta.seconds # 3600 usually
 
             # Compute the periodicity index
-            periodicity_index = (int((item.t + dst_offset_s) / resolution_s) % periodicity)
+            periodicity_index = (floor((item.t + dst_offset_s) / resolution_s) % periodicity)
 
     return periodicity_index
 
-- 
2.43.0


From 9ebbd2618db6619a6cd38878ac7293415d4f648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 059/118] fix: restore the averages when loading a periodic
 average reconstructor

---
 timeseria/models/reconstructors.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index fb324e6..21d9623 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -368,6 +368,13 @@ class PeriodicAverageReconstructor(Reconstructor):
 
     window = 1
 
+    @classmethod
+    def load(cls, path):
+        model = super().load(path)
+        # Convert the average dict keys back to integers
+        model.data['averages'] = {int(key):value for key, value in model.data['averages'].items()}
+        return model
+
     @Reconstructor.fit_function
     def fit(self, series, periodicity='auto', dst_affected=False, offset_method='average', data_loss_limit=1.0, verbose=False):
         # TODO: periodicity, dst_affected, offset_method -> move them in the init?
-- 
2.43.0


From 6fd7bd73557ef38621432382b63dd927b75c6509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:33 +0000
Subject: [PATCH 060/118] fix: do not fit the periodic average reconstructor
 when all of the data is lost

---
 timeseria/models/reconstructors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 21d9623..f6a177d 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -429,6 +429,9 @@ class PeriodicAverageReconstructor(Reconstructor):
                     totals[periodicity_index] +=1
                 processed += 1
 
+        if not processed:
+            raise ValueError('Too much data loss (not a single element below the limit), cannot fit!')
+
         averages={}
         for periodicity_index in sums:
             averages[periodicity_index] = sums[periodicity_index]/totals[periodicity_index]
-- 
2.43.0


From 9d4918b36633d5fb5eb7a5fa22f0a57b55468f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 061/118] fix: support evaluating reconstructors with
 predictions as list of dicts

---
 timeseria/models/reconstructors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index f6a177d..5a76bd6 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -242,7 +242,12 @@ class Reconstructor(Model):
                         real_values.append(series[j].data[data_label])
 
                     # Add predicted and real values to the overall data to be later used for the RMS etc.
-                    overall_predicted_values += predicted_values[data_label]
+                    if isinstance(predicted_values, list):
+                        # List of dicts
+                        overall_predicted_values += [step_predicted_values[data_label] for step_predicted_values in predicted_values]
+                    else:
+                        # Dict of lists
+                        overall_predicted_values += predicted_values[data_label]
                     overall_actual_values += real_values
                     processed_samples+=1
 
-- 
2.43.0


From d501a3b1ca910e776ff2f94102e574ea03786978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:27 +0000
Subject: [PATCH 062/118] fix: use the series time zone when predicting with
 the Prophet reconstructor, as in its fit

---
 timeseria/models/reconstructors.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 5a76bd6..ad11959 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -5,7 +5,6 @@ import copy
 from sklearn.metrics import mean_absolute_error, mean_squared_error
 from pandas import DataFrame
 from math import sqrt
-from propertime.utils import dt_from_s
 
 from ..utilities import detect_periodicity, _get_periodicity_index, mean_absolute_percentage_error
 from ..units import TimeUnit
@@ -540,7 +539,7 @@ class ProphetReconstructor(Reconstructor, _ProphetModel):
         items_to_reconstruct = []
         for j in range(from_i, to_i+1):
             items_to_reconstruct.append(series[j])
-        data_to_reconstruct = [self._remove_timezone(dt_from_s(item.t)) for item in items_to_reconstruct]
+        data_to_reconstruct = [self._remove_timezone(item.dt) for item in items_to_reconstruct]
         dataframe_to_reconstruct = DataFrame(data_to_reconstruct, columns = ['ds'])
 
         # Apply Prophet fit
-- 
2.43.0


From fbb958bb1d72627139ed9701e3473b697c91aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:56 +0000
Subject: [PATCH 063/118] fix: mark anomalous events which are still open at
 the end of the series

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1eb623d..0250ee0 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -107,13 +107,13 @@ class AnomalyDetector(Model):
         if event_start is not None:
 
             # When was the last event over?
-            event_end = len(event_timeseries)
+            event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
                 if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-            event_persistence =  event_end - event_start
+            event_persistence =  event_end - event_start + 1
             if event_persistence < min_persistence:
                 logger.debug('  discarding as below minimum persistence')
             else:
-- 
2.43.0


From 9f7ff9b4895ce9cf12e4b0e573601483f0d681d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 064/118] fix: do not stop detecting anomalies at the first
 lost item when using a reconstructor

---
 timeseria/models/anomaly_detectors.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 0250ee0..f57cc42 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -655,9 +655,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         break
                 if not abort:
                     if issubclass(self.model_class, Reconstructor):
-                        if series[i-j-1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
-                            abort=True
-                            break
+                        for j in range(self.data['model_window']):
+                            if series[i+j+1].data_loss is not None and series[i+j+1].data_loss >= data_loss_threshold:
+                                abort=True
+                                break
             if abort:
                 # Just append the item as-is and continue
                 result_series.append(item)
-- 
2.43.0


From f9a9b1b959de4a8e5fa21bc45d2eca9f44be4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 065/118] fix: do not share items between the series and the
 anomaly detection results

---
 timeseria/models/anomaly_detectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index f57cc42..1c0dafa 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -660,8 +660,8 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                                 abort=True
                                 break
             if abort:
-                # Just append the item as-is and continue
-                result_series.append(item)
+                # Just append (a copy of) the item as-is and continue
+                result_series.append(deepcopy(item))
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From 8cf15122ef81f7e01cd672035fd694b6386a3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 066/118] fix: name of the adherence details of the anomaly
 detectors

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 1c0dafa..bbd985d 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -745,7 +745,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         if 'err' in details:
                             item.data['{}_err'.format(data_label)] = prediction_error
                         if 'adh' in details:
-                            item.data['{}_adh)'.format(data_label)] = y/y_max
+                            item.data['{}_adh'.format(data_label)] = y/y_max
                     elif isinstance(details, bool):
                         item.data['{}_pred'.format(data_label)] = predicted
                         item.data['{}_err'.format(data_label)] = prediction_error
-- 
2.43.0


From 6da677e5d46a9822f99e668ceaaff365a50f2bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 067/118] fix: support a list of target data labels in the LSTM
 forecaster

---
 timeseria/models/forecasters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 8b7e67d..b265bbd 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -887,10 +887,10 @@ class LSTMForecaster(Forecaster, _KerasModel):
         else:
             if isinstance(target, str):
                 target_data_labels = [target]
-            elif isinstance(target_data_labels, list):
+            elif isinstance(target, list):
                 target_data_labels = target
             else:
-                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target_data_labels.__class__.__name__))
+                raise TypeError('Don\'t know how to target for data labels as type "{}"'.format(target.__class__.__name__))
             for target_data_label in target_data_labels:
                 if target_data_label not in series.data_labels():
                     raise ValueError('Cannot target data label "{}" as not found in the series labels ({})'.format(target_data_label, series.data_labels()))
-- 
2.43.0


From e47f00f6ab7e88030ede168cfff29ce9122136e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 068/118] fix: do not check the resolution of single point
 series in the models, as they have none

---
 timeseria/models/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index f7ef855..dc7cb94 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -223,7 +223,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -263,7 +263,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
@@ -297,7 +297,7 @@ class Model():
             if isinstance(series, TimeSeries):
                 _check_timeseries(series)
                 if self._is_parametric():
-                    if isinstance(series.item_type, Point) and len(series) == 1:
+                    if issubclass(series.item_type, Point) and len(series) == 1:
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-- 
2.43.0


From aa2e53d011307b7cd03fce61a57efd7210d0ae54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 069/118] fix: only remove the prefix from the cross validation
 arguments

---
 timeseria/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index dc7cb94..39378d3 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -341,10 +341,10 @@ class Model():
         for kwarg in kwargs:
             if kwarg.startswith('fit_'):
                 consumed_kwargs.append(kwarg)
-                fit_kwargs[kwarg.replace('fit_', '')] = kwargs[kwarg]
+                fit_kwargs[kwarg[len('fit_'):]] = kwargs[kwarg]
             if kwarg.startswith('evaluate_'):
                 consumed_kwargs.append(kwarg)
-                evaluate_kwargs[kwarg.replace('evaluate_', '')] = kwargs[kwarg]
+                evaluate_kwargs[kwarg[len('evaluate_'):]] = kwargs[kwarg]
         for consumed_kwarg in consumed_kwargs:
             kwargs.pop(consumed_kwarg)
 
-- 
2.43.0


From 4a1dad12e05abbf2549e5e8b6f56cdf032a57fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 070/118] fix: do not leave an unusable directory when the
 model data cannot be saved

---
 timeseria/models/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 39378d3..c4af972 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -126,24 +126,24 @@ class Model():
         if os.path.exists(path):
             raise ValueError('The path "{}" already exists'.format(path))
 
-        # Prepare model dir and dump data as json
-        os.makedirs(path)
-        model_data_file = '{}/data.json'.format(path)
-
         # Temporary change the resolution to its string representation (if any)
         if 'resolution' in self.data:
             resolution_obj = self.data['resolution']
             self.data['resolution'] = str(resolution_obj)
 
-        # Write the data
+        # Dump the data as json
         try:
-            with open(model_data_file, 'w') as f:
-                f.write(json.dumps(self.data))
+            data_as_json = json.dumps(self.data)
         finally:
             # In any case revert resolution back to object (if any)
             if 'resolution' in self.data:
                 self.data['resolution'] = resolution_obj
 
+        # Prepare the model dir and write the data
+        os.makedirs(path)
+        with open('{}/data.json'.format(path), 'w') as f:
+            f.write(data_as_json)
+
         logger.info('Saved model with id "%s" in "%s"', self.data['id'], path)
 
 
-- 
2.43.0


From 18a58089641bc4f42efd2c05eded5d144e2db92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 071/118] fix: do not let the fit series of ARIMA models change
 after the fit

---
 timeseria/models/forecasters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b265bbd..08c59e0 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -711,8 +711,8 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
         self.model_res = self.model.fit(disp=verbose)
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (which can then change).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -770,8 +770,8 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
 
         self.model = autoarima_model
 
-        # Save the series we used for the fit.
-        self.fit_series = series
+        # Save the series we used for the fit (which can then change).
+        self.fit_series = series.duplicate()
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
-- 
2.43.0


From b2f26e3eb3951514f1f936acd38aefa69366b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 072/118] fix: support recent statsmodels versions in the ARIMA
 forecaster

---
 timeseria/models/forecasters.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 08c59e0..7db0898 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -708,8 +708,12 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data = array(series.to_df()[data_label])
 
         # Save model and fit
-        self.model = sm.tsa.ARIMA(data, (self.p,self.d,self.q))
-        self.model_res = self.model.fit(disp=verbose)
+        self.model = sm.tsa.ARIMA(data, order=(self.p,self.d,self.q))
+        try:
+            self.model_res = self.model.fit(disp=verbose)
+        except TypeError:
+            # Since version 0.13
+            self.model_res = self.model.fit()
 
         # Save the series we used for the fit (which can then change).
         self.fit_series = series.duplicate()
@@ -728,8 +732,11 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         if self.fit_series[-1].t != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
-        # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-        return [{data_label: value} for value in self.model_res.forecast(steps)[0]]
+        # Return the predicion. Before statsmodels 0.13 we need the [0] to access yhat, other indexes are erorrs etc.
+        forecast = self.model_res.forecast(steps)
+        if isinstance(forecast, tuple):
+            forecast = forecast[0]
+        return [{data_label: value} for value in forecast]
 
 
 #=========================
-- 
2.43.0


From ee43d137c55a14d6f43f1e010088b8a845e99dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 073/118] fix: do not use predictions of a previous fit in the
 anomaly detectors

---
 timeseria/models/anomaly_detectors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index bbd985d..ead68cb 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -216,6 +216,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         else:
             self.model.save('{}/model'.format(path))
 
+    def _predictive_model_ids(self):
+        # These change at every fit
+        return self.data['model_ids'] if self.data['with_context'] else self.data['model_id']
+
     def _get_actual_value(self, series, i, data_label):
         actual = series[i].data[data_label]
         return actual
@@ -512,6 +516,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
             series.predictions[i] = ith_predictions
 
         series.preprocessed_by = self.id
+        series.preprocessed_with = self._predictive_model_ids()
         return series
 
     @Model.apply_function
@@ -621,7 +626,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
         # Is this series pre-processed?
         try:
-            preprocessed = True if series.preprocessed_by == self.id else False
+            preprocessed = True if series.preprocessed_by == self.id and series.preprocessed_with == self._predictive_model_ids() else False
         except AttributeError:
             preprocessed = False
 
-- 
2.43.0


From 3844c1e7e9ff9530353894c908b90f2292de470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 074/118] fix: do not require the fit errors for anomaly index
 bounds which do not need them

---
 timeseria/models/anomaly_detectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index ead68cb..653bb28 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -581,12 +581,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         y_maxes = {}
 
         for data_label in series.data_labels():
-            abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
             y_maxes[data_label] = error_distribution_functions[data_label](self.data['error_distributions_params'][data_label]['loc'])
             this_index_bounds = index_bounds[:]
 
             for i in range(2):
                 if isinstance(this_index_bounds[i], str):
+                    if this_index_bounds[i] in ['max_err', 'avg_err']:
+                        if 'prediction_errors' not in self.data:
+                            raise ValueError('Cannot use "{}" as anomaly index bound if store_errors was not set in the fit'.format(this_index_bounds[i]))
+                        abs_prediction_errors = [abs(prediction_error) for prediction_error in self.data['prediction_errors'][data_label]]
                     if this_index_bounds[i] == 'max_err':
                         this_index_bounds[i] = max(abs_prediction_errors)
                     elif this_index_bounds[i] == 'avg_err':
-- 
2.43.0


From f7a21d4a62bdbda162109103f7f3352f7b3a4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 075/118] fix: forecast single data points also with
 forecasters without a fit

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 7db0898..2fe5c70 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -128,7 +128,7 @@ class Forecaster(Model):
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + self.data['resolution'],
+                forecast = DataTimePoint(t = forecast_start_item.t + (self.data['resolution'] if 'resolution' in self.data else series.resolution),
                                          tz = series.tz,
                                          data  = predicted_data)
 
-- 
2.43.0


From 6d9bf5ebe113036ef0ccbdfce29a1b6b13dc0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 076/118] fix: do not require resolution and data labels for
 parametric models without a fit

---
 timeseria/models/base.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c4af972..784f4e1 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -227,8 +227,10 @@ class Model():
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-                        _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                        if 'resolution' in self.data:
+                            _check_resolution(series, self.data['resolution'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Check context
             if 'context_data' in kwargs and kwargs['context_data'] and ('context_data_labels' not in self.data or not self.data['context_data_labels']):
@@ -267,8 +269,10 @@ class Model():
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-                        _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                        if 'resolution' in self.data:
+                            _check_resolution(series, self.data['resolution'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Call apply logic
             return apply_function(self, series, *args, **kwargs)
@@ -301,8 +305,10 @@ class Model():
                         # Do not check if the data is a point time series and has only one item
                         pass
                     else:
-                        _check_resolution(series, self.data['resolution'])
-                    _check_data_labels(series, self.data['data_labels'])
+                        if 'resolution' in self.data:
+                            _check_resolution(series, self.data['resolution'])
+                    if 'data_labels' in self.data:
+                        _check_data_labels(series, self.data['data_labels'])
 
             # Call evaluate logic
             return evaluate_function(self, series, *args, **kwargs)
-- 
2.43.0


From 98c597e165e742ae17931c19885f493c54392f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 077/118] fix: support forecasting from a series with a single
 point

---
 timeseria/models/forecasters.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 2fe5c70..0ebef25 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -100,6 +100,10 @@ class Forecaster(Model):
 
         # Handle list of predictions or single prediction
         forecast_start_item = series[-1]
+
+        # Series with a single point have no resolution, use the fit one
+        resolution = series.resolution if series.resolution is not None else self.data.get('resolution')
+
         if isinstance(predicted_data,list):
             if context_data:
                 raise NotImplementedError('Context with multi step-ahead predictions is not yet implemented')
@@ -114,7 +118,7 @@ class Forecaster(Model):
                                                  #tz = series.tz,
                                                  data = data))
                 else:
-                    forecast.append(DataTimePoint(t = last_item.t + series.resolution,
+                    forecast.append(DataTimePoint(t = last_item.t + resolution,
                                                   tz = series.tz,
                                                   data = data))
                 last_item = forecast[-1]
@@ -128,7 +132,7 @@ class Forecaster(Model):
                                         #tz = series.tz,
                                         data  = predicted_data)
             else:
-                forecast = DataTimePoint(t = forecast_start_item.t + (self.data['resolution'] if 'resolution' in self.data else series.resolution),
+                forecast = DataTimePoint(t = forecast_start_item.t + resolution,
                                          tz = series.tz,
                                          data  = predicted_data)
 
@@ -537,6 +541,9 @@ class PeriodicAverageForecaster(Forecaster):
         # Get forecast start item
         predict_start_item = series[-1]
 
+        # Series with a single point have no resolution, use the fit one
+        resolution = series.resolution if series.resolution is not None else self.data['resolution']
+
         # Support vars
         predict_timestamps = []
         predict_data = []
@@ -548,14 +555,14 @@ class PeriodicAverageForecaster(Forecaster):
             # Set forecast timestamp
             if isinstance(series[0], Slot):
                 try:
-                    predict_timestamp = predict_timestamps[-1] + series.resolution
+                    predict_timestamp = predict_timestamps[-1] + resolution
                     predict_timestamps.append(predict_timestamp)
                 except IndexError:
                     predict_timestamp = predict_start_item.end
                     predict_timestamps.append(predict_timestamp)
 
             else:
-                predict_timestamp = TimePoint(t = predict_start_item.t + (series.resolution.as_seconds()*step), tz = predict_start_item.tz )
+                predict_timestamp = TimePoint(t = predict_start_item.t + (resolution.as_seconds()*step), tz = predict_start_item.tz )
 
             # Perform the forecast for each data label
             this_step_predict_data = {}
@@ -567,7 +574,7 @@ class PeriodicAverageForecaster(Forecaster):
                     series_index = len(series) - 1 - self.data['windows'][data_label] + j
                     real_value = series[series_index].data[data_label]
                     predict_value = self.data['averages'][data_label][_get_periodicity_index(series[series_index],
-                                                                                              series.resolution,
+                                                                                              resolution,
                                                                                               self.data['periodicities'][data_label],
                                                                                               dst_affected=self.data['dst_affected'])]
                     diffs += (real_value - predict_value)
@@ -577,7 +584,7 @@ class PeriodicAverageForecaster(Forecaster):
 
                 # Compute the forecast data
                 periodicity_index = _get_periodicity_index(predict_timestamp,
-                                                           series.resolution,
+                                                           resolution,
                                                            self.data['periodicities'][data_label],
                                                            dst_affected=self.data['dst_affected'])
 
-- 
2.43.0


From d0544ae3f356600626ca5e8c5048ca88f057b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 078/118] fix: handle items with an unknown data loss when
 fitting models

---
 timeseria/models/base.py           | 4 ++--
 timeseria/models/forecasters.py    | 2 +-
 timeseria/models/reconstructors.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 784f4e1..6a39a19 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -585,13 +585,13 @@ class _KerasModel(Model):
                 # Add window elements
                 window_elements_vector = []
                 for j in range(window):
-                    if data_loss_limit is not None and 'data_loss' in series[i-window+j].data_indexes and series[i-window+j].data_indexes['data_loss'] >= data_loss_limit:
+                    if data_loss_limit is not None and series[i-window+j].data_loss is not None and series[i-window+j].data_loss >= data_loss_limit:
                         raise TooMuchDataLoss()
                     window_elements_vector.append(series[i-window+j])
 
                 # Add target values
                 target_values_sub_vector = []
-                if data_loss_limit is not None and 'data_loss' in series[i].data_indexes and series[i].data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and series[i].data_loss is not None and series[i].data_loss >= data_loss_limit:
                     raise TooMuchDataLoss()
                 for target_data_label in target_data_labels:
                     target_values_sub_vector.append(series[i].data[target_data_label])
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 0ebef25..63f1fce 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -509,7 +509,7 @@ class PeriodicAverageForecaster(Forecaster):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, label_periodicity, dst_affected)
                 if not periodicity_index in sums:
diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index ad11959..abacc5f 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -422,7 +422,7 @@ class PeriodicAverageReconstructor(Reconstructor):
             totals = {}
             processed = 0
             for item in series:
-                if data_loss_limit is not None and 'data_loss' in item.data_indexes and item.data_indexes['data_loss'] >= data_loss_limit:
+                if data_loss_limit is not None and item.data_loss is not None and item.data_loss >= data_loss_limit:
                     continue
                 periodicity_index = _get_periodicity_index(item, series.resolution, periodicity, dst_affected=dst_affected)
                 if not periodicity_index in sums:
-- 
2.43.0


From df24eb13dd480697bfaf10187a1a5ed1bd8a40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:24 +0000
Subject: [PATCH 079/118] fix: mirror the errors around the center of their
 distribution

---
 timeseria/models/anomaly_detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 653bb28..f580e83 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -712,7 +712,7 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
                 # Reverse values on the left side of the error distribution
                 if prediction_error < self.data['error_distributions_params'][data_label]['loc']:
-                    prediction_error =  abs(prediction_error) + self.data['error_distributions_params'][data_label]['loc']
+                    prediction_error = 2*self.data['error_distributions_params'][data_label]['loc'] - prediction_error
 
                 # Compute the anomaly index in the given range (which defaults to 0, max_err)
                 # Below the start it means anomaly (0), above always anomaly (1). In the middle it
-- 
2.43.0


From e786acdfb17864d1d951b86ad0d4c4b5145f269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 080/118] fix: support marking events also on items without an
 anomaly index

---
 timeseria/models/anomaly_detectors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index f580e83..93f7dfd 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -64,20 +64,25 @@ class AnomalyDetector(Model):
             event_timeseries = timeseries.duplicate()
         event_start = None
 
+        def is_anomalous(item):
+            # Items with too much data loss have no anomaly index
+            anomaly_index = item.data_indexes.get('anomaly')
+            return anomaly_index is not None and anomaly_index >= index_treshold
+
         for i, item in enumerate(event_timeseries):
 
             # Set no event by default
             item.data_indexes['anomaly_event'] = 0
 
             # Detect new (potential) event start
-            if item.data_indexes['anomaly'] >= index_treshold:
+            if is_anomalous(item):
                 if event_start is None:
                     logger.debug('Starting to suspect event @ element #%s',i)
                     event_start = i
 
             # Detect event end
             if event_start is not None:
-                if item.data_indexes['anomaly'] < index_treshold:
+                if not is_anomalous(item):
                     logger.debug('Evaluating element #%s to trigger an event end', i)
 
                     # Are we still within the max gap? If so, don't close the (potential) event yet
@@ -86,7 +91,7 @@ class AnomalyDetector(Model):
                     event_ended = True
                     logger.debug('  checking elements from #%s to #%s', from_i, to_i)
                     for j in range(from_i, to_i+1):
-                        if event_timeseries[j].data_indexes['anomaly'] >= index_treshold:
+                        if is_anomalous(event_timeseries[j]):
                             event_ended = False
                     if event_ended:
                         logger.debug('  event was ended @ element #%s', i - max_gap - 1)
@@ -109,7 +114,7 @@ class AnomalyDetector(Model):
             # When was the last event over?
             event_end = event_start
             for i in range(len(event_timeseries)-1, event_start, -1):
-                if  event_timeseries[i].data_indexes['anomaly'] >= index_treshold:
+                if is_anomalous(event_timeseries[i]):
                     event_end = i
                     break
             logger.debug('  event was ended @ element #%s', event_end)
-- 
2.43.0


From 411ca2d3455ab64ce2908b38433d2bdf3c17404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 081/118] fix: keep the anomaly index between 0 and 1

---
 timeseria/models/anomaly_detectors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 93f7dfd..8d01991 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -741,6 +741,10 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                         else:
                             raise ValueError('Unknown index type "{}"'.format(index_type))
 
+                    # The distribution is not decreasing all over the range if its center is after the start
+                    if index_type in ['lin', 'log']:
+                        anomaly_index = min(max(anomaly_index, 0), 1)
+
                 if threshold is not None:
                     if anomaly_index < threshold:
                         anomaly_index = 0
-- 
2.43.0


From eb066966270e83f3cee8b78f6d7d7327df6ab3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 082/118] fix: support the anomaly detection details on series
 with too much data loss

---
 timeseria/models/anomaly_detectors.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 8d01991..dba5293 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -673,8 +673,14 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
                                 abort=True
                                 break
             if abort:
-                # Just append (a copy of) the item as-is and continue
-                result_series.append(deepcopy(item))
+                # Just append (a copy of) the item as-is and continue. The details (if any) are not defined
+                item = deepcopy(item)
+                if details:
+                    for data_label in series.data_labels():
+                        for detail in ['pred', 'err', 'adh']:
+                            if details is True or detail in details:
+                                item.data['{}_{}'.format(data_label, detail)] = None
+                result_series.append(item)
                 continue
 
             # Start computing the anomaly index
-- 
2.43.0


From b07d194b850885c18fbe6a090790958b49f728fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:53 +0000
Subject: [PATCH 083/118] fix: evaluate also forecasters which set their window
 as an attribute

---
 timeseria/models/forecasters.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 63f1fce..b698992 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -255,6 +255,9 @@ class Forecaster(Model):
             if punctual_error_metric not in ['E', 'PE', 'LE']:
                 raise ValueError('The extra error metric "{}" is not supported'.format(punctual_error_metric))
 
+        # Handle the window
+        window = self.data['window'] if 'window' in self.data else self.window
+
         # Handle results series
         if plot_results_series or return_results_series:
             generate_results_series = True
@@ -267,8 +270,8 @@ class Forecaster(Model):
                 raise ValueError('Returning the evaluation series is only supported with single step ahead forecasts')
 
             results_series = series.duplicate()
-            if self.data['window']:
-                results_series = results_series[self.data['window']:]
+            if window:
+                results_series = results_series[window:]
 
         # Support vars
         results = {}
@@ -277,13 +280,7 @@ class Forecaster(Model):
         actual_values = {}
         predicted_values = {}
 
-        try:
-            if not self.data['window']:
-                start_i = 0
-            else:
-                start_i = self.data['window']
-        except (KeyError, AttributeError):
-            start_i = 0
+        start_i = window if window else 0
 
         # Start evaluating
         progress_step = len(series)/10
-- 
2.43.0


From b3081b387d9407b0b999b18fab73820fef06dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 084/118] fix: use the default error metrics if the one
 minimized in the fit is not supported in the evaluation

---
 timeseria/models/forecasters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b698992..23225e9 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -238,7 +238,7 @@ class Forecaster(Model):
             fit_minimized_error_metric = None
 
         if error_metrics == 'auto':
-            if fit_minimized_error_metric:
+            if fit_minimized_error_metric in ['MSE', 'RMSE', 'MAE', 'HAE', 'MAPE', 'HAPE', 'MALE', 'HALE']:
                 error_metrics = [fit_minimized_error_metric]
                 logger.info('Using the same aggregate error metric minimized in the fit phase to evaluate: {}'.format(fit_minimized_error_metric))
             else:
-- 
2.43.0


From 3e110fc43ba851505bd729b8257b1cd7a588c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 085/118] fix: compute the MAPE of the reconstructors with
 respect to the actual values

---
 timeseria/models/reconstructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index abacc5f..1786025 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -262,7 +262,7 @@ class Reconstructor(Model):
                 if 'MAE' in metrics:
                     evaluation_score['MAE_{}_steps'.format(steps_round)] = mean_absolute_error(overall_predicted_values, overall_actual_values)
                 if 'MAPE' in metrics:
-                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_predicted_values, overall_actual_values)
+                    evaluation_score['MAPE_{}_steps'.format(steps_round)] = mean_absolute_percentage_error(overall_actual_values, overall_predicted_values)
 
         # Compute overall RMSE
         if 'RMSE' in metrics:
-- 
2.43.0


From dc1ae630d692588927ccb91301dc4ce3bbbb1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 086/118] fix: save and load also what the Prophet models
 learned in the fit

---
 timeseria/models/base.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 6a39a19..b094aed 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -460,6 +460,26 @@ class Model():
 class _ProphetModel(Model):
     '''A model using Prophet as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+        # Override the load method to load the Prophet model as well
+        from prophet.serialize import model_from_json
+        model = super(_ProphetModel, cls).load(path)
+        with open('{}/prophet_model.json'.format(path), 'r') as f:
+            model.prophet_model = model_from_json(f.read())
+        return model
+
+    def save(self, path):
+        # Override the save method to save the Prophet model as well
+        super(_ProphetModel, self).save(path)
+        try:
+            from prophet.serialize import model_to_json
+            with open('{}/prophet_model.json'.format(path), 'w') as f:
+                f.write(model_to_json(self.prophet_model))
+        except Exception as e:
+            shutil.rmtree(path)
+            raise e
+
     @classmethod
     def _remove_timezone(cls, dt):
         return dt.replace(tzinfo=None)
-- 
2.43.0


From c0574d9395371d44741820877df9b1b87eb11737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 087/118] fix: save and load also what the ARIMA models learned
 in the fit

---
 timeseria/models/base.py        | 19 +++++++++++++++++++
 timeseria/models/forecasters.py | 10 ++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index b094aed..8961f4d 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -4,6 +4,7 @@
 import os
 import json
 import uuid
+import pickle
 import functools
 import statistics
 from propertime.utils import now_s, dt_from_s, s_from_dt
@@ -516,6 +517,24 @@ class _ProphetModel(Model):
 class _ARIMAModel(Model):
     '''A model using statsmodel's ARIMA as underlying engine, and providing some extra internal functions for common operations.'''
 
+    @classmethod
+    def load(cls, path):
+        # Override the load method to load the ARIMA model as well
+        model = super(_ARIMAModel, cls).load(path)
+        with open('{}/arima_model.pickle'.format(path), 'rb') as f:
+            model.__dict__.update(pickle.load(f))
+        return model
+
+    def save(self, path):
+        # Override the save method to save the ARIMA model as well
+        super(_ARIMAModel, self).save(path)
+        try:
+            with open('{}/arima_model.pickle'.format(path), 'wb') as f:
+                pickle.dump({key: value for key, value in self.__dict__.items() if key in ['p', 'd', 'q', 'model', 'model_res']}, f)
+        except Exception as e:
+            shutil.rmtree(path)
+            raise e
+
     def _get_start_end_indexes(self, series, n):
 
         # Do the math to get the right indexes for the prediction, both out-of-sample and in-sample
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index 23225e9..b1db6d7 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -719,8 +719,9 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
             # Since version 0.13
             self.model_res = self.model.fit()
 
-        # Save the series we used for the fit (which can then change).
+        # Save the series we used for the fit (which can then change), and where it ends.
         self.fit_series = series.duplicate()
+        self.data['fit_end_t'] = series[-1].t
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -733,7 +734,7 @@ class ARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same data point where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.data['fit_end_t'] != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. Before statsmodels 0.13 we need the [0] to access yhat, other indexes are erorrs etc.
@@ -781,8 +782,9 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
 
         self.model = autoarima_model
 
-        # Save the series we used for the fit (which can then change).
+        # Save the series we used for the fit (which can then change), and where it ends.
         self.fit_series = series.duplicate()
+        self.data['fit_end_t'] = series[-1].t
 
         # The ARIMA models, as Prophet, have no window
         self.data['window'] = 0
@@ -793,7 +795,7 @@ class AARIMAForecaster(Forecaster, _ARIMAModel):
         data_label = self.data['data_labels'][0]
 
         # Chack that we are applying on a time series ending with the same datapoint where the fit series was
-        if self.fit_series[-1].t != series[-1].t:
+        if self.data['fit_end_t'] != series[-1].t:
             raise NonContiguityError('Sorry, this model can be applied only on a time series ending with the same timestamp as the time series used for the fit.')
 
         # Return the predicion. We need the [0] to access yhat, other indexes are erorrs etc.
-- 
2.43.0


From 8ddeda8ffd06d622e0b4b4770c02ffadece3584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 088/118] fix: do not leave an unusable directory if the inner
 model of an anomaly detector cannot be saved

---
 timeseria/models/anomaly_detectors.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index dba5293..852a17a 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 """Anomaly detection models."""
 
+import shutil
 from copy import deepcopy
 from ..utilities import _Gaussian, rescale
 from .forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
@@ -215,11 +216,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
         super(ModelBasedAnomalyDetector, self).save(path)
 
         # ..and save the inner model(s) as nested model
-        if self.data['with_context']:
-            for data_label in self.models:
-                self.models[data_label].save('{}/{}_model'.format(path, data_label))
-        else:
-            self.model.save('{}/model'.format(path))
+        try:
+            if self.data['with_context']:
+                for data_label in self.models:
+                    self.models[data_label].save('{}/{}_model'.format(path, data_label))
+            else:
+                self.model.save('{}/model'.format(path))
+        except Exception as e:
+            shutil.rmtree(path)
+            raise e
 
     def _predictive_model_ids(self):
         # These change at every fit
-- 
2.43.0


From f447b1f27eec8ad6b10570260a1aa43e821b606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 089/118] fix: do not use the normalization of a previous fit
 if fitting the LSTM forecaster without

---
 timeseria/models/forecasters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index b1db6d7..faf985e 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -946,6 +946,12 @@ class LSTMForecaster(Forecaster, _KerasModel):
             self.data['min_values'] = min_values
             self.data['max_values'] = max_values
 
+        else:
+
+            # Discard the normalization factors of a previous fit, if any
+            self.data.pop('min_values', None)
+            self.data.pop('max_values', None)
+
         # Move to matrix representation
         window_elements_matrix, target_values_vector, context_data_vector = self._to_matrix_representation(series = series,
                                                                                                            window = self.data['window'],
-- 
2.43.0


From 5ceed31f4ec76fe08562d923f24ac50ed2dbc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:41 +0000
Subject: [PATCH 090/118] fix: support context data also for slots and with a
 single point window

---
 timeseria/models/base.py        | 9 ++++++---
 timeseria/models/forecasters.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index 8961f4d..c743722 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -15,7 +15,7 @@ import shutil
 from ..exceptions import NotFittedError
 from ..utilities import _check_timeseries, _check_resolution, _check_data_labels, _item_is_in_range
 from ..units import TimeUnit
-from ..datastructures import Point, Series, TimeSeries, TimeSeriesView
+from ..datastructures import Point, Slot, Series, TimeSeries, TimeSeriesView
 
 # Setup logging
 import logging
@@ -670,8 +670,11 @@ class _KerasModel(Model):
 
         # Handle context data if any (as "fake", context datapoint).
         if context_data:
-            context_datapoint_dt = window_datapoints[-1].dt + time_unit
-            context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
+            if isinstance(window_datapoints[-1], Slot):
+                context_datapoint = window_datapoints[-1].__class__(start = window_datapoints[-1].end, unit = window_datapoints[-1].unit, data = context_data)
+            else:
+                context_datapoint_dt = window_datapoints[-1].dt + time_unit
+                context_datapoint = window_datapoints[-1].__class__(dt = context_datapoint_dt, data = context_data)
             window_datapoints.append(context_datapoint)
 
         # Compute the features
diff --git a/timeseria/models/forecasters.py b/timeseria/models/forecasters.py
index faf985e..785bd30 100644
--- a/timeseria/models/forecasters.py
+++ b/timeseria/models/forecasters.py
@@ -1038,8 +1038,11 @@ class LSTMForecaster(Forecaster, _KerasModel):
                 for data_label in context_data:
                     context_data[data_label] = (context_data[data_label] - self.data['min_values'][data_label]) / (self.data['max_values'][data_label] - self.data['min_values'][data_label])
 
+        # Series with a single point have no resolution, use the fit one
+        resolution = series.resolution if series.resolution is not None else self.data['resolution']
+
         # Compute window (plus context) features
-        window_features = self._compute_window_features(window_datapoints, data_labels=self.data['data_labels'], time_unit=series.resolution, features=self.data['features'], context_data=context_data)
+        window_features = self._compute_window_features(window_datapoints, data_labels=self.data['data_labels'], time_unit=resolution, features=self.data['features'], context_data=context_data)
 
         # Perform the predict and set prediction data
         yhat = self.keras_model.predict(array([window_features]), verbose=verbose)
-- 
2.43.0


From 5e7130d32d06c633dd753c7e4a1cd5eedfe134d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 091/118] fix: do not share the data between a time series and
 the dictionary it is converted to or created from

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index b051db2..9b76feb 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1664,7 +1664,7 @@ class TimeSeries(Series):
                         raise e from None
             else:
                 raise ValueError('Cannot handle keys other than int, float or datetime (got "{}"'.format(key.__class__.__name__))
-            data = dictionary[key]
+            data = copy(dictionary[key])
             if not (isinstance(data, list) or isinstance(data, dict)):
                 data = {'value': data}
 
@@ -1686,7 +1686,7 @@ class TimeSeries(Series):
         """Convert a time series to a dictionary."""
         timeseries_as_dict = {}
         for item in self:
-            timeseries_as_dict[item.dt] = item.data
+            timeseries_as_dict[item.dt] = copy(item.data)
         return timeseries_as_dict
 
 
-- 
2.43.0


From 988eb66ee4b1e1d5b45eadd4d43fd411527cfc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:01 +0000
Subject: [PATCH 092/118] fix: do not leave the last items out of the
 aggregated plots

---
 timeseria/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 24e70b4..ea30b1b 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -232,8 +232,9 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 except KeyError:
                     pass
 
-            # Dump aggregated data?
-            if (i!=0)  and ((i % aggregate_by)==0):
+            # Dump aggregated data? If at the end of the series, what is left is not to be lost
+            if ((i % aggregate_by)==0) or i==len(serie):
+                aggregated_items = aggregate_by if (i % aggregate_by)==0 else i % aggregate_by
                 if issubclass(serie.item_type, DataTimePoint):
                     last_t = item.t
                 elif issubclass(serie.item_type,DataTimeSlot):
@@ -243,7 +244,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
 
                 # Data
                 for i, label in enumerate(labels):
-                    avg = data_sums[i]/aggregate_by
+                    avg = data_sums[i]/aggregated_items
                     if full_precision:
                         data_part+='[{},{},{}],'.format(data_mins[i], avg, data_maxs[i])
                     else:
@@ -252,7 +253,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 # data_indexes
                 for i, index in enumerate(data_indexes_to_plot):
                     if index_sums[i] is not None:
-                        aggregated_index_value = index_sums[i]/aggregate_by
+                        aggregated_index_value = index_sums[i]/aggregated_items
                         if full_precision:
                             data_part+='[0,{},{}],'.format(aggregated_index_value,aggregated_index_value)
                         else:
-- 
2.43.0


From d6933dfc0ae7edaa24659061712ac73a35d7a3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 093/118] fix: place the plot marks on the time zone of the
 series, and support the ones with a negative UTC offset

---
 timeseria/plots.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index ea30b1b..8134e58 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -8,7 +8,7 @@
 import os
 import uuid
 import datetime
-from propertime.utils import dt_from_s, str_from_dt, dt_from_str, s_from_dt
+from propertime.utils import dt_from_s, s_from_dt
 from .units import TimeUnit
 from .utilities import is_numerical, os_shell
 try:
@@ -100,14 +100,10 @@ _extra_colormap_rgb = [
 def to_rgba_str_from_norm_rgb(rgb, a):
     return 'rgba({},{},{},{})'.format(rgb[0]*255,rgb[1]*255,rgb[2]*255,a)
 
-def _utc_fake_s_from_dt(dt):
-    dt_str = str_from_dt(dt)
-    if '+' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('+')[0]+'+00:00'))
-    elif '-' in dt_str:
-        return s_from_dt(dt_from_str(dt_str.split('-')[0]+'+00:00'))
-    else:
+def _utc_fake_s_from_dt(dt, tz):
+    if dt.tzinfo is None:
         raise ValueError('Cannot convert to fake UTC epoch a datetime without a timezone')
+    return s_from_dt(dt.astimezone(tz).replace(tzinfo=datetime.timezone.utc))
 
 def _check_data_for_plot(data):
     if is_numerical(data):
@@ -901,8 +897,8 @@ animatedZooms: true,"""
             raise TypeError('Mark start/end marks be datetime objects')
 
         # Convert the mark to fake epoch milliseconds
-        mark_start = _utc_fake_s_from_dt(mark[0])*1000
-        mark_end   = _utc_fake_s_from_dt(mark[1])*1000
+        mark_start = _utc_fake_s_from_dt(mark[0], series.tz)*1000
+        mark_end   = _utc_fake_s_from_dt(mark[1], series.tz)*1000
 
         # Add js code
         dygraphs_javascript += 'underlayCallback: function(canvas, area, g) {'
-- 
2.43.0


From e91fd9999d0091eb19b5c3fb5cc80d31565ae0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 094/118] fix: do not leave negative or null values out of the
 value range of the plots

---
 timeseria/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 8134e58..6d184a9 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -719,13 +719,14 @@ function legendFormatter(data) {
         plot_max = str(global_max+((global_max-global_min)*0.1))
     else:
         # Case where there is a straight line
-        plot_min = str(global_min*0.99)
-        plot_max = str(global_max*1.01)
+        margin = abs(global_min)*0.01 if global_min else 0.01
+        plot_min = str(global_min-margin)
+        plot_max = str(global_max+margin)
 
     # Overwrite plot min and max?
     if value_range != 'auto':
-        plot_min = str(value_range[0]*0.99)
-        plot_max = str(value_range[1]*1.01)
+        plot_min = str(value_range[0]-abs(value_range[0])*0.01)
+        plot_max = str(value_range[1]+abs(value_range[1])*0.01)
 
     #dygraphs_javascript += '"Timestamp,{}\\n{}",'.format(labels, dg_data)
     dygraphs_javascript += '{},'.format(dg_data)
-- 
2.43.0


From ec39b3b363357aabff5246f735d4e64d2dcd3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:22 +0000
Subject: [PATCH 095/118] fix: support any data label in the plots

---
 timeseria/plots.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index 6d184a9..ba2214c 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -6,6 +6,7 @@
 #================================================================#
 
 import os
+import json
 import uuid
 import datetime
 from propertime.utils import dt_from_s, s_from_dt
@@ -567,7 +568,7 @@ function legendFormatter(data) {
 
       if (g.getOption('showLabelsOnHighlight') !== true) return '';
 
-      var data_indexes = """+str(series._all_data_indexes())+""";
+      var data_indexes = """+json.dumps(series._all_data_indexes())+""";
       var sepLines = g.getOption('labelsSeparateLines');
       var first_data_index = true;
       var html;
@@ -684,31 +685,26 @@ function legendFormatter(data) {
     _check_data_for_plot(series[0].data)
 
     # Loop over all the data labels
-    labels=''
+    labels_list = ['Timestamp']
     if data_labels_to_plot:
         for data_label_to_plot in data_labels_to_plot:
             if isinstance(series[0].data, list) or isinstance(series[0].data, tuple):
                 if len(data_labels_to_plot) == 1:
-                    labels='value,'
+                    labels_list.append('value')
                 else:
-                    labels += 'value {},'.format(data_label_to_plot)
+                    labels_list.append('value {}'.format(data_label_to_plot))
             else:
-                labels += '{},'.format(data_label_to_plot)
-        # Remove last comma
-        labels = labels[0:-1]
+                labels_list.append(str(data_label_to_plot))
     else:
-        labels='value'
+        labels_list.append('value')
 
     # Set index labels
     for index in data_indexes_to_plot:
-        labels+=',{}'.format(index)
+        labels_list.append(str(index))
 
     # Handle series mark (as index)
     if mark and RENDER_MARK_AS_INDEX:
-        labels+=',data_mark'
-
-    # Prepare labels string list for Dygraphs
-    labels_list = ['Timestamp'] + labels.split(',')
+        labels_list.append('data_mark')
 
     # Get series data in Dygraphs format (and aggregate if too much data and find global min and max)
     global_min, global_max, dg_data = _to_dg_data(series, data_labels_to_plot, data_indexes_to_plot, full_precision, aggregate_by, mark)
@@ -734,7 +730,7 @@ function legendFormatter(data) {
 #dateWindow: [0,"""+str(_utc_fake_s_from_dt(series[-1].end.dt)*1000)+"""],
 
     dygraphs_javascript += """{\
-labels: """+str(labels_list)+""",
+labels: """+json.dumps(labels_list)+""",
 drawGrid: true,
 drawPoints:"""+drawPoints_value+""",
 strokeWidth: 1.5,
@@ -829,7 +825,7 @@ animatedZooms: true,"""
 
         # Now create the entry for this data index
         dygraphs_javascript += """
-        '"""+data_index_to_plot+"""': {
+        """+json.dumps(data_index_to_plot)+""": {
          //customBars: false, // Does not work?
          axis: 'y2',
          drawPoints: false,
@@ -856,7 +852,7 @@ animatedZooms: true,"""
     # Add all non-index series to be included in the miniplot
     for label in data_labels_to_plot:
         dygraphs_javascript += """
-           '"""+str(label)+"""': {
+           """+json.dumps(str(label))+""": {
              showInRangeSelector:true
            },"""
 
-- 
2.43.0


From c89cc218ee4df0281ef2b219cde74ae9d62b08fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 096/118] fix: support comparing slots with anything else, as
 for the points

---
 timeseria/datastructures.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 9b76feb..1e1d35e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -347,11 +347,14 @@ class Slot():
         return self.__repr__()
 
     def __eq__(self, other):
-        if not self.start == other.start:
-            return False
-        if not self.end == other.end:
+        try:
+            if not self.start == other.start:
+                return False
+            if not self.end == other.end:
+                return False
+            return True
+        except AttributeError:
             return False
-        return True
 
     def __succedes__(self, other):
         if other.end != self.start:
@@ -533,8 +536,11 @@ class DataSlot(Slot):
             return 'Slot @ [{},{}] with data "{}"'.format(self.start.__coordinates_repr__, self.end.__coordinates_repr__, self.data)
 
     def __eq__(self, other):
-        if self._data != other._data:
-            return False
+        try:
+            if self._data != other._data:
+                return False
+        except AttributeError:
+            pass
         return super(DataSlot, self).__eq__(other)
 
     @property
-- 
2.43.0


From 54e666259e34dfa4f10f405f5f2e8467700ea460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 097/118] fix: refuse strings and NaNs as point coordinates

---
 timeseria/datastructures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 1e1d35e..a113f53 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -2,6 +2,7 @@
 """Base data structures as Points, Slots and Series."""
 
 import json
+import math
 from copy import copy, deepcopy
 from pandas import DataFrame
 from datetime import datetime
@@ -37,7 +38,8 @@ class Point():
         # Validate
         for arg in args:
             try:
-                float(arg)
+                if isinstance(arg, str) or math.isnan(float(arg)):
+                    raise ValueError
             except:
                 raise Exception('Got non-numerical argument: "{}"'.format(arg))
 
-- 
2.43.0


From d9a2a48932036971137c9b0c5fee219ea7717187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 098/118] fix: refuse slots which end before their start

---
 timeseria/datastructures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index a113f53..4176e74 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -336,6 +336,9 @@ class Slot():
             if start == end:
                 raise ValueError('{} start and end must not be the same (got start="{}", end="{}")'.format(self.__class__.__name__, start,end))
 
+        if len(start.coordinates) == 1 and start > end:
+            raise ValueError('{} end must not be before its start (got start="{}", end="{}")'.format(self.__class__.__name__, start, end))
+
         self.start = start
         self.end   = end
 
-- 
2.43.0


From 95e09ff6b0cd1eac5fe9a8706f01943fe5452f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 099/118] fix: support steps when slicing time series, instead
 of ignoring them

---
 timeseria/datastructures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4176e74..5eb8850 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1441,7 +1441,14 @@ class TimeSeries(Series):
 
     def __getitem__(self, arg):
         if isinstance(arg, slice):
-            if arg.start is None and arg.stop is None:
+            if arg.step is not None and arg.step != 1:
+                if not all([value is None or isinstance(value, int) for value in (arg.start, arg.stop)]):
+                    raise ValueError('Slicing with a step is supported only by position')
+                sliced_series = self.__class__()
+                for item in self.contents()[arg]:
+                    sliced_series.append(item)
+                return sliced_series
+            elif arg.start is None and arg.stop is None:
                 return self.slice()
             elif isinstance(arg.start, int) or isinstance(arg.stop, int):
                 return self.slice(from_i=arg.start, to_i=arg.stop)
@@ -1944,7 +1951,9 @@ class TimeSeriesView(TimeSeries):
 
             if isinstance(arg, slice):
 
-                if all([value is None or isinstance(value, int) for value in (arg.start, arg.stop)]):
+                if arg.step is not None and arg.step != 1:
+                    return self.series[self.from_i:self.to_i][arg]
+                elif all([value is None or isinstance(value, int) for value in (arg.start, arg.stop)]):
                     slice_start, slice_stop, _ = slice(arg.start, arg.stop).indices(len(self))
                     return self.series[self.from_i + slice_start : self.from_i + max(slice_start, slice_stop)]
                 else:
-- 
2.43.0


From 41e38682704e82a91135651894c1c2768565ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 100/118] fix: do not return all the items when asking for the
 last zero ones

---
 timeseria/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5eb8850..289cdec 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1194,7 +1194,7 @@ class Series(list):
             Args:
                 n: the number of last elements to return .
         """
-        return list(self[-n:])
+        return list(self[-n:]) if n else []
 
 
 
-- 
2.43.0


From f065c8bb5fde6acd2a5cd9891ae60c960d306b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 101/118] fix: write the comments of stored series with the
 comment characters of the storage

---
 timeseria/datastructures.py | 12 ++++++++----
 timeseria/storages.py       | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 289cdec..d9b208e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1614,12 +1614,15 @@ class TimeSeries(Series):
         from .utilities import detect_encoding
 
         metadata = None
+        comment_char = None
         encoding = detect_encoding(file_name)
         with open(file_name, encoding=encoding) as f:
             for line in f:
-                if line.startswith('#'):
-                    if line.startswith('# Extra parameters:'):
-                        metadata = json.loads(line.replace('# Extra parameters:',''))
+                if comment_char is None:
+                    comment_char = line[0]
+                if line.startswith(comment_char):
+                    if line[1:].startswith(' Extra parameters:'):
+                        metadata = json.loads(line[1:].replace(' Extra parameters:','',1))
                 else:
                     break
         if not metadata:
@@ -1635,7 +1638,8 @@ class TimeSeries(Series):
 
         # Note: the timestamp is always in the first column
         storage = CSVFileStorage(file_name, timestamp_column=0, timestamp_format='epoch',
-                                 separator=metadata.get('separator', ','), encoding=metadata.get('encoding', encoding))
+                                 separator=metadata.get('separator', ','), encoding=metadata.get('encoding', encoding),
+                                 comment_chars=metadata.get('comment_chars', ['#', ';']))
         loaded_series = storage.get(force_points=force_points, force_slots=force_slots, force_tz=force_tz, force_slot_unit=force_slot_unit)
 
         if loaded_series.__class__ == cls:
diff --git a/timeseria/storages.py b/timeseria/storages.py
index fbc0394..d4fd560 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -833,16 +833,22 @@ class CSVFileStorage(Storage):
             if self.encoding:
                 format_parameters += ', "encoding": {}'.format(json.dumps(self.encoding))
 
+            # The comments must be recognized as such when getting back the series
+            comment_char = '#'
+            if self.comment_chars and '#' not in self.comment_chars:
+                comment_char = self.comment_chars[0]
+                format_parameters += ', "comment_chars": {}'.format(json.dumps(list(self.comment_chars)))
+
             # 0) Dump CSV-storage specific metadata & chck type
             if issubclass(series.item_type, DataTimePoint):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(_tz_to_str(series.tz), series.resolution, format_parameters))
+                csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
+                csv_file.write('{} {}\n'.format(comment_char, series))
+                csv_file.write('{} Extra parameters: {{"type": "points", "tz": "{}", "resolution": "{}"{}}}\n'.format(comment_char, _tz_to_str(series.tz), series.resolution, format_parameters))
 
             elif issubclass(series.item_type, DataTimeSlot):
-                csv_file.write('# Generated by Timeseria CSVFileStorage at {}\n'.format(now_dt()))
-                csv_file.write('# {}\n'.format(series))
-                csv_file.write('# Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(_tz_to_str(series.tz), series.resolution, format_parameters))
+                csv_file.write('{} Generated by Timeseria CSVFileStorage at {}\n'.format(comment_char, now_dt()))
+                csv_file.write('{} {}\n'.format(comment_char, series))
+                csv_file.write('{} Extra parameters: {{"type": "slots", "tz": "{}", "resolution": "{}"{}}}\n'.format(comment_char, _tz_to_str(series.tz), series.resolution, format_parameters))
 
             else:
                 raise TypeError('Can store only time series of DataTimePoints or DataTimeSlots')
-- 
2.43.0


From 653f24cb610f3d545cf01267cafd8cc53c5c13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 102/118] fix: do not drop columns when getting float data from
 a CSV file with no header

---
 timeseria/storages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeseria/storages.py b/timeseria/storages.py
index d4fd560..6e54b56 100644
--- a/timeseria/storages.py
+++ b/timeseria/storages.py
@@ -529,7 +529,7 @@ class CSVFileStorage(Storage):
 
                 # Set data type
                 if not data_type:
-                    if data_label_names and len(data_label_names) > 1 and requested_data_type == float:
+                    if len(data_label_indexes) > 1 and requested_data_type == float:
                         raise Exception('Requested data format as float but got more than 1 value')
                     if requested_data_type=='auto':
                         if not data_label_names:
-- 
2.43.0


From 6a1d9f160a3a4e6535cd263d6d6c23a559c5b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 103/118] fix: delete slices of a series at once, or not at all

---
 timeseria/datastructures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index d9b208e..babd992 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -855,8 +855,12 @@ class Series(list):
 
     def __delitem__(self, key):
         if isinstance(key, slice):
-            for i in sorted(range(*key.indices(len(self))), reverse=True):
-                self.pop(i)
+            # Re-create the series in order to check the order or succession
+            items = list(self)
+            del items[key]
+            self.__class__(*items)
+            super(Series, self).__delitem__(key)
+            self._refresh()
         else:
             self.pop(key)
 
-- 
2.43.0


From d1d1a47f1750b591282f270fe64bc5110babdbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:28 +0000
Subject: [PATCH 104/118] fix: do not leave part of the items in the series
 when adding them is refused

---
 timeseria/datastructures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index babd992..cb9a5d5 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -870,7 +870,11 @@ class Series(list):
             self._item_data_reference = getattr(self._item_by_i(0), 'data', None)
 
     def __iadd__(self, other):
-        for item in list(other):
+        items = list(other)
+        if len(items) > 1:
+            # Check all of the items before adding any of them
+            self.__class__(*(list(self)[-1:] + items))
+        for item in items:
             self.append(item)
         return self
 
-- 
2.43.0


From f23ef3a73e58105d10c9b4e2e6580961f8ccb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:57 +0000
Subject: [PATCH 105/118] fix: do not break the order of a series when
 multiplying it in place

---
 timeseria/datastructures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index cb9a5d5..ec4173e 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -878,6 +878,10 @@ class Series(list):
             self.append(item)
         return self
 
+    def __imul__(self, value):
+        self[:] = list(self) * value
+        return self
+
     def index(self, x, start=None, end=None):
         """
         Return zero-based index in the series of the item whose value is equal to x.
-- 
2.43.0


From 0514c580608f69c7998d7eba83303f93ee66fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 106/118] fix: refuse to rename a data label as another one,
 which would be lost

---
 timeseria/datastructures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index ec4173e..4dd4698 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -964,6 +964,8 @@ class Series(list):
         """Rename a data label, in-place."""
         if len(self) > 0 and not self._item_data_reference:
             raise TypeError('Series items have no data, cannot rename a label')
+        if len(self) > 0 and new_data_label != old_data_label and old_data_label in self[0].data and new_data_label in self[0].data:
+            raise ValueError('There is already a data label "{}"'.format(new_data_label))
         for item in self:
             # TODO: move to the DataPoint/DataSlot?
             item.data[new_data_label] = item.data.pop(old_data_label)
-- 
2.43.0


From 350c9a205c449fd0047e1cae4280b0e7fb810673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:24 +0000
Subject: [PATCH 107/118] fix: enforce the data checks also when the first item
 of a series has empty or zero data

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4dd4698..4acef59 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -695,7 +695,7 @@ class Series(list):
                     raise TypeError('Object of class "{}" does not implement a "__gt__" or a "__succedes__" method, cannot append it to a Series (which is ordered)'.format(item.__class__.__name__)) from None
 
         # Check data type and set if not done already
-        if self and self._item_data_reference:
+        if self and self._item_data_reference is not None:
             self._check_item_data(item)
         else:
             try:
@@ -765,7 +765,7 @@ class Series(list):
                 raise TypeError('Got incompatible type "{}", can only accept "{}"'.format(x.__class__.__name__, self.item_type.__name__))
 
             # Check data type
-            if self._item_data_reference:
+            if self._item_data_reference is not None:
                 self._check_item_data(x)
 
             # Handle negative and out of range positions as for the lists
-- 
2.43.0


From 3b6c49f748752706d0156d710cdcd37f7cd27f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 108/118] fix: support slots of any decimal length with no unit
 given

---
 timeseria/datastructures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 4acef59..5b40653 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -467,8 +467,8 @@ class TimeSlot(Slot):
         try:
             return self._unit
         except AttributeError:
-            # Use the string representation to handle floating point seconds
-            self._unit = TimeUnit(str(self.end.t-self.start.t)+'s')
+            # Use the string representation to handle floating point seconds (up to the microsecond)
+            self._unit = TimeUnit(_to_time_unit_string(round(self.end.t-self.start.t, 6), friendlier=False))
             return self._unit
 
     @property
-- 
2.43.0


From cf0eee584fff427213215e7e39311292d2fc1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:55 +0000
Subject: [PATCH 109/118] fix: plot the points of series on mixed time zones on
 the time zone of the series, as stated in the legend

---
 timeseria/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeseria/plots.py b/timeseria/plots.py
index ba2214c..1f808c0 100644
--- a/timeseria/plots.py
+++ b/timeseria/plots.py
@@ -140,6 +140,9 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
     first_t  = None
     last_t   = None
 
+    # The points can be on different time zones, the plot is on the one of the series
+    serie_tz = serie.tz
+
     global_min = None
     global_max = None
 
@@ -271,7 +274,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
                 data_part = data_part[0:-1]
 
                 # Add to dg_data
-                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=item.tz)), data_part)
+                dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(aggregation_t, tz=serie_tz)), data_part)
 
                 # Reset averages
                 data_sums = [0 for label in labels]
@@ -339,7 +342,7 @@ def _to_dg_data(serie, data_labels_to_plot, data_indexes_to_plot, full_precision
             data_part = data_part[0:-1]
 
             # Add to dg_data
-            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=item.tz)), data_part)
+            dg_data += '[{},{}],'.format(_to_dg_time(dt_from_s(item.t, tz=serie_tz)), data_part)
 
     if dg_data.endswith(','):
         dg_data = dg_data[0:-1]
-- 
2.43.0


From 3aa525431869976eae0304752de99c104f13318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:42 +0000
Subject: [PATCH 110/118] fix: support the operations which do not depend on
 time also on series of data points which are not in time

---
 timeseria/operations.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/timeseria/operations.py b/timeseria/operations.py
index a3626eb..6d8d34e 100644
--- a/timeseria/operations.py
+++ b/timeseria/operations.py
@@ -338,11 +338,15 @@ class Derivative(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     der_series.append(series[0].__class__(t = item.t,
                                                           tz = item.tz,
                                                           data = der_data,
                                                           data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    der_series.append(series[0].__class__(*item.coordinates,
+                                                          data = der_data,
+                                                          data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     der_series.append(series[0].__class__(start = item.start,
                                                           unit = item.unit,
@@ -502,11 +506,15 @@ class Integral(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     int_series.append(series[0].__class__(t = item.t,
                                                           tz = item.tz,
                                                           data = data,
                                                           data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    int_series.append(series[0].__class__(*item.coordinates,
+                                                          data = data,
+                                                          data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     int_series.append(series[0].__class__(start = item.start,
                                                           unit = item.unit,
@@ -522,7 +530,7 @@ class Integral(Operation):
 class Diff(Derivative):
     """Incremental differences operation (callable object)."""
     def _call(self, series, inplace=False):
-        if series.resolution == 'variable':
+        if getattr(series, 'resolution', None) == 'variable':
             raise ValueError('The differences cannot be computed on variable resolution time series, resample it or use the derivative operation.')
         return super(Diff, self)._call(series, inplace=inplace, normalize=False, diffs=True)
 
@@ -530,7 +538,7 @@ class Diff(Derivative):
 class CSum(Integral):
     """Cumulative sum operation (callable object)."""
     def _call(self, series, inplace=False, offset=None):
-        if series.resolution == 'variable':
+        if getattr(series, 'resolution', None) == 'variable':
             raise ValueError('The cumulative sums cannot be computed on variable resolution time series, resample it or use the integral operation.')
         return super(CSum, self)._call(series, inplace=inplace, normalize=False, offset=offset)
 
@@ -604,11 +612,15 @@ class Normalize(Operation):
             # Create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     normalized_series.append(series[0].__class__(t = item.t,
                                                                  tz = item.tz,
                                                                  data = normalized_data,
                                                                  data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    normalized_series.append(series[0].__class__(*item.coordinates,
+                                                                 data = normalized_data,
+                                                                 data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     normalized_series.append(series[0].__class__(start = item.start,
                                                                  unit = item.unit,
@@ -668,11 +680,15 @@ class Rescale(Operation):
 
             # Set data or create the item
             if not inplace:
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     rescaled_series.append(series[0].__class__(t = item.t,
                                                                tz = item.tz,
                                                                data = rescaled_data,
                                                                data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    rescaled_series.append(series[0].__class__(*item.coordinates,
+                                                               data = rescaled_data,
+                                                               data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
                                                                unit = item.unit,
@@ -733,11 +749,15 @@ class Offset(Operation):
             # Set data or create the item
             if not inplace:
 
-                if isinstance(series[0], Point):
+                if isinstance(series[0], TimePoint):
                     rescaled_series.append(series[0].__class__(t = item.t,
                                                                tz = item.tz,
                                                                data = offsetted_data,
                                                                data_indexes = item.data_indexes))
+                elif isinstance(series[0], Point):
+                    rescaled_series.append(series[0].__class__(*item.coordinates,
+                                                               data = offsetted_data,
+                                                               data_indexes = item.data_indexes))
                 elif isinstance(series[0], Slot):
                     rescaled_series.append(series[0].__class__(start = item.start,
                                                                unit = item.unit,
@@ -797,10 +817,13 @@ class MAvg(Operation):
                     mavg_data.append(mavg_value)
 
             # Create the item
-            if isinstance(series[0], Point):
+            if isinstance(series[0], TimePoint):
                 mavg_series.append(series[0].__class__(t = item.t,
                                                        tz = item.tz,
                                                        data = mavg_data))
+            elif isinstance(series[0], Point):
+                mavg_series.append(series[0].__class__(*item.coordinates,
+                                                       data = mavg_data))
             elif isinstance(series[0], Slot):
                 mavg_series.append(series[0].__class__(start = item.start,
                                                        unit = item.unit,
-- 
2.43.0


From f7969386624b66e600ad3940a8a3e70ad4f78c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:04 +0000
Subject: [PATCH 111/118] fix: draw the error distribution of each data label
 on the range of its own errors when inspecting an anomaly detector

---
 timeseria/models/anomaly_detectors.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 852a17a..44032ae 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -459,17 +459,15 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             if plot:
 
-                if plot_x_min == 'auto':
-                    plot_x_min = min(self.data['prediction_errors'][data_label])
-                if plot_x_max == 'auto':
-                    plot_x_max = max(self.data['prediction_errors'][data_label])
+                x_min = min(self.data['prediction_errors'][data_label]) if plot_x_min == 'auto' else plot_x_min
+                x_max = max(self.data['prediction_errors'][data_label]) if plot_x_max == 'auto' else plot_x_max
 
                 # Instantiate the error distribution function
                 distribution_function = DistributionFunction(self.data['error_distributions'][data_label],
                                                              self.data['error_distributions_params'][data_label])
 
                 # Get the error distribution function plot
-                plt = distribution_function.plot(show=False, x_min=plot_x_min, x_max=plot_x_max)
+                plt = distribution_function.plot(show=False, x_min=x_min, x_max=x_max)
 
                 # Add the histogram to the plot
                 plt.hist(self.data['prediction_errors'][data_label], bins=100, density=True, alpha=1, color='steelblue')
-- 
2.43.0


From e6f5817dfa6c094a750d9da06005633024deb4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 112/118] fix: support a data label named "Timestamp" when
 converting to a data frame

---
 timeseria/datastructures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/datastructures.py b/timeseria/datastructures.py
index 5b40653..6e4f342 100644
--- a/timeseria/datastructures.py
+++ b/timeseria/datastructures.py
@@ -1901,7 +1901,10 @@ class TimeSeries(Series):
                 df = df.append(DataFrame([[item.dt]+values+[item.data_loss]], columns=columns))
             else:
                 df = df.append(DataFrame([[item.dt]+values], columns=columns))
-        df = df.set_index('Timestamp')
+
+        # Set the index by position, as there might be a data label with the same name
+        timestamps = df.iloc[:,0]
+        df = df.iloc[:,1:].set_index(timestamps)
 
         return df
 
-- 
2.43.0


From 17001b8cc873b9a44e71383eff62a5396d385030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:14 +0000
Subject: [PATCH 113/118] fix: do not leave the support attributes on the
 points of a series if transforming it fails or is interrupted

---
 timeseria/transformations.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/timeseria/transformations.py b/timeseria/transformations.py
index fc842c8..68056af 100644
--- a/timeseria/transformations.py
+++ b/timeseria/transformations.py
@@ -488,6 +488,10 @@ class Transformation(object):
         if validity > (self.time_unit.as_seconds(dt_from_s(from_t, tz=series.tz)) * 1.10):
             logger.warning('You are upsampling, which is not well tested yet. Expect potential issues.')
 
+        # Work on a copy, as some support attributes will be set on the points: if left there, also only because of
+        # an error or an interruption, they would affect other operations (e.g. the averages)
+        series = series.duplicate()
+
         # Compute validity regions
         validity_regions = _compute_validity_regions(series, sampling_interval=validity)
 
@@ -673,11 +677,6 @@ class Transformation(object):
                 if point.dt >= to_dt:
                     process_ended = True
 
-        # Remove the support attributes from the points, or they will affect other operations (e.g. the averages)
-        for point in series:
-            for attribute in ['valid_from', 'valid_to', 'weight']:
-                point.__dict__.pop(attribute, None)
-
         if target == 'points':
             logger.info('Resampled %s DataTimePoints in %s DataTimePoints', count, len(new_series))
         else:
-- 
2.43.0


From a2e08ac1e955bf823b63f527de5943da2166c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:37 +0000
Subject: [PATCH 114/118] fix: do not keep on the linear interpolation
 reconstructor the interpolator of the last series, so that it can be used on
 more series at the same time

---
 timeseria/models/reconstructors.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/timeseria/models/reconstructors.py b/timeseria/models/reconstructors.py
index 1786025..96249ce 100644
--- a/timeseria/models/reconstructors.py
+++ b/timeseria/models/reconstructors.py
@@ -341,17 +341,14 @@ class LinearInterpolationReconstructor(Reconstructor):
 
         logger.debug('Linear Interpolator reconstructing from #%s to #%s (included)', from_i, to_i)
 
-        try:
-            self.interpolator_initialize
-        except AttributeError:
-            from ..interpolators import LinearInterpolator
-            self.interpolator = LinearInterpolator(series)
+        from ..interpolators import LinearInterpolator
+        interpolator = LinearInterpolator(series)
 
         predicted_data = []
         for i in range(from_i, to_i+1):
 
             logger.debug('Processing point=%s', series[i])
-            step_predicted_data = self.interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
+            step_predicted_data = interpolator.evaluate(at=series[i].t, prev_i=from_i-1, next_i=to_i+1)
 
             logger.debug('Predicted data=%s', step_predicted_data)
             predicted_data.append(step_predicted_data)
-- 
2.43.0


From 754948b4cd970c1c6ce7491f079d74edbeba83b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:02 +0000
Subject: [PATCH 115/118] fix: report the output of a failed shell command
 instead of raising

---
 timeseria/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index d250e91..c481af0 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -380,9 +380,9 @@ def os_shell(command, capture=False, verbose=False, interactive=False, silent=Fa
             string += '\n# Shell exited with exit code {}'.format(exit_code)
             string += '\n#---------------------------------\n'
             string += '\nStandard output: "'
-            string += stdout.encode("utf-8", errors="ignore")
+            string += stdout
             string += '"\n\nStandard error: "'
-            string += stderr.encode("utf-8", errors="ignore") +'"\n\n'
+            string += stderr +'"\n\n'
             string += '#---------------------------------\n'
             string += '# End Shell output\n'
             string += '#---------------------------------\n'
-- 
2.43.0


From 7bb6dbfd5555ce00657874174df155aad53f0903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:07 +0000
Subject: [PATCH 116/118] fix: do not alter a model, not even temporarily,
 while saving it

---
 timeseria/models/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/timeseria/models/base.py b/timeseria/models/base.py
index c743722..9baf716 100644
--- a/timeseria/models/base.py
+++ b/timeseria/models/base.py
@@ -127,18 +127,13 @@ class Model():
         if os.path.exists(path):
             raise ValueError('The path "{}" already exists'.format(path))
 
-        # Temporary change the resolution to its string representation (if any)
-        if 'resolution' in self.data:
-            resolution_obj = self.data['resolution']
-            self.data['resolution'] = str(resolution_obj)
+        # Use the string representation of the resolution (if any)
+        data = dict(self.data)
+        if 'resolution' in data:
+            data['resolution'] = str(data['resolution'])
 
         # Dump the data as json
-        try:
-            data_as_json = json.dumps(self.data)
-        finally:
-            # In any case revert resolution back to object (if any)
-            if 'resolution' in self.data:
-                self.data['resolution'] = resolution_obj
+        data_as_json = json.dumps(data)
 
         # Prepare the model dir and write the data
         os.makedirs(path)
-- 
2.43.0


From e110277bf05585934d214ee01235904cac5c840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:39 +0000
Subject: [PATCH 117/118] fix: leave the warnings of the user enabled when
 fitting an anomaly detector

---
 timeseria/models/anomaly_detectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeseria/models/anomaly_detectors.py b/timeseria/models/anomaly_detectors.py
index 44032ae..6a6e78f 100644
--- a/timeseria/models/anomaly_detectors.py
+++ b/timeseria/models/anomaly_detectors.py
@@ -2,6 +2,7 @@
 """Anomaly detection models."""
 
 import shutil
+import warnings
 from copy import deepcopy
 from ..utilities import _Gaussian, rescale
 from .forecasters import Forecaster, PeriodicAverageForecaster, LSTMForecaster
@@ -414,7 +415,9 @@ class ModelBasedAnomalyDetector(AnomalyDetector):
 
             # Fit the distributions and select the best one
             fitter = fitter_library.fitter.Fitter(prediction_errors[data_label], distributions=error_distributions)
-            fitter.fit(progress=False)
+            with warnings.catch_warnings():
+                # The fitting library disables the runtime warnings for the entire process
+                fitter.fit(progress=False)
 
             if summary:
                 # Warning: the summary() function will also generate a plot
-- 
2.43.0


From 9c5bc1f289e3908b87cc85c58df742ad8a603a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:34 +0000
Subject: [PATCH 118/118] fix: periodicity indexes adjusted for DST on time
 zones where it is negative, as in winter in Dublin

---
 timeseria/utilities.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/timeseria/utilities.py b/timeseria/utilities.py
index c481af0..0c4f02e 100644
--- a/timeseria/utilities.py
+++ b/timeseria/utilities.py
@@ -907,14 +907,11 @@ def _get_periodicity_index(item, resolution, periodicity, dst_affected=False):
 
         else:
             # DST
-            if dst_timedelta.days != 0:
-                raise Exception('Don\'t know how to handle DST with days timedelta = "{}"'.format(dst_timedelta.days))
-
             if resolution_s > 3600:
                 raise Exception('Sorry, this time series has not enough resolution to account for DST effects (resolution_s="{}", must be below 3600 seconds)'.format(resolution_s))
 
             # Get DST offset in seconds
-            dst_offset_s = dst_timedelta.seconds # 3600 usually
+            dst_offset_s = int(dst_timedelta.total_seconds()) # 3600 usually, but can be also negative
 
             # Compute the periodicity index
             periodicity_index = (floor((item.t + dst_offset_s) / resolution_s) % periodicity)
-- 
2.43.0

