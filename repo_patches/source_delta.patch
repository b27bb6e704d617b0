From ba22deac0d92bb14122fd076764704eadc3a4640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 01/16] fix: give every iteration over an interval its own
 generator

Interval.__iter__ returned the interval itself and kept the position in an
attribute, so nested or concurrent loops over one interval stole each other's
workshifts.
---
 timeboard/interval.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/timeboard/interval.py b/timeboard/interval.py
index 2198828..f328126 100644
--- a/timeboard/interval.py
+++ b/timeboard/interval.py
@@ -320,8 +320,11 @@ class Interval(_BaseInterval):
         return self.__next__()
 
     def __iter__(self):
-        self._ws_generator_activated = self.workshifts(duty='any')
-        return self
+        # every iteration gets a generator of its own, so that iterations over 
+        # the same interval may be nested or run side by side
+        generator = self.workshifts(duty='any')
+        self._ws_generator_activated = generator
+        return generator
 
     def __len__(self):
         return self.length
-- 
2.43.0


From d09e953ff7fe3187c7cbab662d832f76a8528eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 02/16] fix: let only unsuitable arguments fall through from
 point to interval

A bare except in Timeboard.__call__ swallowed every failure of the lookup,
including interrupts, memory errors and errors raised by a caller's own
time point object, and went on to read the argument as an interval.
---
 timeboard/timeboard.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 4d79e69..53c4380 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -310,12 +310,10 @@ class Timeboard(object):
                 return self.get_workshift(args[0])
             except OutOfBoundsError:
                 raise
-            except:
+            except (TypeError, ValueError):
+                # not a point in time; try it as an interval reference
                 pass
-        try:
-            return self.get_interval(*args, **kwargs)
-        except:
-            raise
+        return self.get_interval(*args, **kwargs)
 
     def to_dataframe(self, first_ws=None, last_ws=None):
         """Convert (a part of) timeline into `pandas.Dataframe`.
-- 
2.43.0


From 5f40dca4aa434eadace077579e285d9a09ce3460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 03/16] fix: do not report an interrupt as an unreadable
 interval reference

---
 timeboard/timeboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 53c4380..1095476 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -740,7 +740,7 @@ class Timeboard(object):
             except TypeError:
                 try:
                     p = get_period(interval_ref, freq=None)
-                except:
+                except TypeError:
                     raise TypeError('Could not interpret the provided interval '
                                     'reference. Expected a sequence of two '
                                     'Timestamp-like, or a Period-like, or None.'
-- 
2.43.0


From c41f17d213c5d08b9a8f607faaf536b3a347b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 04/16] fix: take the name of a new schedule atomically

Two concurrent (or one re-entrant) add_schedule calls with the same name
could both succeed, the later silently replacing the earlier schedule.
---
 timeboard/timeboard.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 1095476..f0cd75c 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -891,7 +891,10 @@ class Timeboard(object):
             raise KeyError('Attempted to add schedule "{}" - '
                            'name already taken.'.format(name))
         schedule = _Schedule(self._timeline, name, selector)
-        self.schedules[name] = schedule
+        # the name may have been taken while the selector was running
+        if self.schedules.setdefault(name, schedule) is not schedule:
+            raise KeyError('Attempted to add schedule "{}" - '
+                           'name already taken.'.format(name))
         return schedule
 
     def drop_schedule(self, schedule):
-- 
2.43.0


From 306a92032fddf44ebf84110e6c827e9758707803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 05/16] fix: make a dataframe from one consistent set of
 schedules

to_dataframe failed with RuntimeError (dictionary changed size) when a
schedule was added or dropped while it ran.
---
 timeboard/timeboard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index f0cd75c..15174b0 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -358,7 +358,8 @@ class Timeboard(object):
         assert ((0 <= first_ws < len(self._timeline)) and
                 (0 <= last_ws < len(self._timeline)))
         df = self._timeline.to_dataframe(first_ws, last_ws)
-        for activity, schedule in self._schedules.items():
+        # selectors and other threads may add or drop schedules meanwhile
+        for activity, schedule in list(self._schedules.items()):
             # TODO: refactor to use already computed duty indexes from _Schedule
             df[activity] = list(self._timeline.labels.iloc[
                                 first_ws:last_ws + 1].apply(
-- 
2.43.0


From 5fbd3d593e23653cf41015ac70365e8760d63f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:18 +0000
Subject: [PATCH 06/16] fix: drop the schedule given, not its namesake

drop_schedule called with a schedule that had already been dropped removed
another schedule added under the same name since.
---
 timeboard/timeboard.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index 15174b0..cef50dc 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -1,4 +1,5 @@
 from __future__ import division
+import threading
 from .core import (_Frame, _Timeline, _Schedule,
                    Organizer, get_period, get_timestamp)
 from .utils import is_iterable, is_null
@@ -17,6 +18,8 @@ LOC_WITHIN = 0
 
 _Location = namedtuple('_Location', ['position', 'where'])
 
+_drop_schedule_lock = threading.RLock()
+
 
 class Timeboard(object):
     """Custom-built calendar.
@@ -910,6 +913,11 @@ class Timeboard(object):
         -------
         None
         """
-        del self.schedules[schedule.name]
+        name = schedule.name
+        with _drop_schedule_lock:
+            # do not drop another schedule which has taken the name since
+            if self.schedules.get(name) is not schedule:
+                raise KeyError(name)
+            del self.schedules[name]
 
 
-- 
2.43.0


From 08b9c7fc36daf3933dd323386d9f651acc7b98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 07/16] fix: hand out duty indexes of a schedule read-only

Changing an array obtained from on_duty_index or off_duty_index changed the
answers of the timeboard.
---
 timeboard/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timeboard/core.py b/timeboard/core.py
index 921404e..a1e00eb 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1184,6 +1184,9 @@ class _Schedule(object):
         on_duty_bool_index = np.array(self._timeline.labels.apply(self._selector), dtype=bool)
         self._on_duty_index = nonzero(on_duty_bool_index)[0]
         self._off_duty_index = nonzero(~on_duty_bool_index)[0]
+        # these very arrays are handed out to users and serve all queries
+        self._on_duty_index.setflags(write=False)
+        self._off_duty_index.setflags(write=False)
 
     @property
     def name(self):
-- 
2.43.0


From 0d27a11a0d207a1eae5f1dbab43c1fd94db14847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 08/16] fix: honour marks inside the last base unit of the
 frame

An explicit mark more than one second into the last base unit was ignored.
---
 timeboard/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index a1e00eb..4d8c66b 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -247,7 +247,7 @@ class _Frame(pd.PeriodIndex):
     def get_loc_vectorized(self, timestamps, not_in_range=0, span_first=None,
                            span_last=None):
         start_times = self.start_times.append(
-            pd.DatetimeIndex([self.start_times[-1] + SMALLEST_TIMEDELTA]))
+            pd.DatetimeIndex([self.end_time + pd.Timedelta(1, 'ns')]))
         if span_first is None:
             span_first = 0
         if span_last is None:
-- 
2.43.0


From 6826d1497f0e175d816f41d08be1cb4a5b192cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:35 +0000
Subject: [PATCH 09/16] fix: observe New Year's Day of the year after the end
 of a US calendar

31 Dec was a working day in a calendar ending in that year although the
holiday of 1 Jan (Saturday) is observed then.
---
 timeboard/calendars/US.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 399bd1a..7c99c95 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -155,7 +155,8 @@ class Weekly8x5(CalendarBase):
 
         start, end = cls._get_bounds(custom_start, custom_end)
 
-        result = fed_holidays(start.year, end.year, do_not_observe,
+        # New Year's Day of the next year may be observed in the last year
+        result = fed_holidays(start.year, end.year + 1, do_not_observe,
                               long_weekends)
         if custom_amendments is not None:
             freq = cls.parameters()['base_unit_freq']
-- 
2.43.0


From 36d8fd810cde3dd8b00adca2c9e6e5081287e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 10/16] fix: do not take a failing time point for one out of
 bounds

A KeyError raised by the to_timestamp method of a caller's object was
reported as OutOfBoundsError and, in amendments, silently ignored.
---
 timeboard/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 4d8c66b..9fc0082 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -907,8 +907,9 @@ class _Timeline(object):
         OutOfBoundsError
             If the point in time is not within the timeline.
         """
+        timestamp = get_timestamp(point_in_time)
         try:
-            base_unit = self.frame.get_loc(get_timestamp(point_in_time))
+            base_unit = self.frame.get_loc(timestamp)
         except KeyError:
             raise OutOfBoundsError("Point in time {} is not within the "
                                    "timeline".format(point_in_time))
-- 
2.43.0


From 686d7d2eb0e0170465cab17265a2fc775412aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 11/16] fix: let custom amendments override holidays without
 long weekends

With long_weekends=False the fixed holidays were keyed by strings, so that a
custom amendment of the same day was refused as a duplicate reference.
---
 timeboard/calendars/UK.py | 2 +-
 timeboard/calendars/US.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/timeboard/calendars/UK.py b/timeboard/calendars/UK.py
index 8488fd0..8013139 100644
--- a/timeboard/calendars/UK.py
+++ b/timeboard/calendars/UK.py
@@ -44,7 +44,7 @@ def bank_holidays(start_year, end_year, country='england', do_not_observe=None,
     days = [day for holiday, day in bank_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='next')
diff --git a/timeboard/calendars/US.py b/timeboard/calendars/US.py
index 7c99c95..1c8b7c0 100644
--- a/timeboard/calendars/US.py
+++ b/timeboard/calendars/US.py
@@ -30,7 +30,7 @@ def fed_holidays(start_year, end_year, do_not_observe=None, long_weekends=True,
     days = [day for holiday, day in fed_holidays_fixed.items()
             if holiday not in do_not_observe]
 
-    amendments = {"{} {}".format(day, year): label
+    amendments = {get_timestamp("{} {}".format(day, year)): label
                   for day, year in product(days, years)}
     if long_weekends:
         amendments = extend_weekends(amendments, how='nearest')
-- 
2.43.0


From 89d9ac73a7815e3810e42f29a51b2d537708e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 12/16] fix: report an AttributeError of a time point as itself

An AttributeError raised inside the to_timestamp method of a caller's object
was swallowed and the object itself passed to pandas.Timestamp, which failed
with an unrelated error.
---
 timeboard/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 9fc0082..3899064 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -28,9 +28,10 @@ TIMELINE_DEL_TEMP_OBJECTS = True
 
 def get_timestamp(arg):
     try:
-        return arg.to_timestamp()
+        convert = arg.to_timestamp
     except AttributeError:
         return pd.Timestamp(arg)
+    return convert()
 
 def get_period(period_ref, freq=None, freq_override=False):
     if (isinstance(period_ref, pd.Period) and
-- 
2.43.0


From 3995b436bc31c89e17c6b449a7b6970ba2357525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 13/16] fix: do not ignore an amendment whose key fails to be
 located

If the key was a caller's object whose to_timestamp method itself failed with
OutOfBoundsError (having queried some timeboard), the amendment was silently
ignored.
---
 timeboard/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/core.py b/timeboard/core.py
index 3899064..38513d7 100644
--- a/timeboard/core.py
+++ b/timeboard/core.py
@@ -1048,8 +1048,9 @@ class _Timeline(object):
         """
         amendments_located = {}
         for (point_in_time, value) in amendments.items():
+            timestamp = get_timestamp(point_in_time)
             try:
-                loc = self.get_ws_position(point_in_time)
+                loc = self.get_ws_position(timestamp)
             except OutOfBoundsError:
                 if not_in_range == 'raise':
                     raise OutOfBoundsError('Amendment {} is outside the '
-- 
2.43.0


From ec963dc6c6c602f7dc8eb8dda156973eed428f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 14/16] fix: report a TypeError or ValueError of a time point
 as itself

They were replaced with a TypeError about an unreadable interval reference.
---
 timeboard/timeboard.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/timeboard/timeboard.py b/timeboard/timeboard.py
index cef50dc..c301b19 100644
--- a/timeboard/timeboard.py
+++ b/timeboard/timeboard.py
@@ -314,8 +314,11 @@ class Timeboard(object):
             except OutOfBoundsError:
                 raise
             except (TypeError, ValueError):
+                if (hasattr(args[0], 'to_timestamp') and
+                        not is_iterable(args[0])):
+                    # it is a point in time which has failed
+                    raise
                 # not a point in time; try it as an interval reference
-                pass
         return self.get_interval(*args, **kwargs)
 
     def to_dataframe(self, first_ws=None, last_ws=None):
@@ -742,6 +745,9 @@ class Timeboard(object):
                 locs = self._get_interval_locs_from_reference(
                     interval_ref, drop_head, drop_tail)
             except TypeError:
+                if is_iterable(interval_ref):
+                    # reading a bound has failed
+                    raise
                 try:
                     p = get_period(interval_ref, freq=None)
                 except TypeError:
-- 
2.43.0


From f63110e167fd3ed242201cf7ecf5b06185d897a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 15/16] fix: do not modify the dictionary returned by a
 calendar's parameters()

---
 timeboard/calendars/calendarbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 200cdf1..63bddaf 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -324,7 +324,7 @@ class CalendarBase(object):
     def __new__(cls, custom_start=None, custom_end=None,
                 do_not_amend=False, only_custom_amendments=False,
                 custom_amendments=None, **additional_kwargs):
-        parameters = cls.parameters()
+        parameters = dict(cls.parameters())
         parameters['start'], parameters['end'] = cls._get_bounds(
             custom_start, custom_end)
         if do_not_amend:
-- 
2.43.0


From 0868fffc3885fc0ac8836e7e9fc5aa52af40f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 16/16] fix: accept Timestamp-like bounds in a calendar's
 parameters()

---
 timeboard/calendars/calendarbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/timeboard/calendars/calendarbase.py b/timeboard/calendars/calendarbase.py
index 63bddaf..78f5437 100644
--- a/timeboard/calendars/calendarbase.py
+++ b/timeboard/calendars/calendarbase.py
@@ -303,7 +303,8 @@ class CalendarBase(object):
 
     @classmethod
     def _check_time(cls, t):
-        if not cls.parameters()['start'] <= t <= cls.parameters()['end']:
+        if not (get_timestamp(cls.parameters()['start']) <= t <=
+                get_timestamp(cls.parameters()['end'])):
             raise OutOfBoundsError("Point in time '{}' is outside calendar {}"
                                    .format(t, cls))
 
-- 
2.43.0

