From b697f88943e6020c0c77e83e482f7b762e794db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 01/45] fix: last segment number of time-limited session must
 follow the start number

The number of the last segment of a start_/dur_ session was counted from 0,
so with snr_ or timeoffset_ the last segments were refused and the lmsg brand
was set on the wrong segment.
---
 dashlivesim/dashlib/configprocessor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..b71ae43 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -202,7 +202,9 @@ class Config(object):
                 end_time = quantize(start_time + total_dur, self.seg_duration)
                 availability_end_times.append(end_time)
                 media_presentation_durations.append(total_dur)
-            last_segment_number = (end_time-self.availability_start_time_in_s)//self.seg_duration - 1
+            nr_segments = (end_time-self.availability_start_time_in_s)//self.seg_duration
+            first_segment_number = 1 if self.start_nr == -1 else self.adjusted_start_number
+            last_segment_number = first_segment_number + nr_segments - 1
             self.last_segment_numbers.append(last_segment_number)
             self.update_with_aet(now_int, availability_end_times, media_presentation_durations)
         if stop_time is not None:
@@ -500,6 +502,8 @@ class ConfigProcessor(object):
         cfg.update_with_reps(vod_cfg, url_parts, url_pos)
         cfg.update_with_vodcfg(vod_cfg)
 
+        if timeoffset is not None:
+            cfg.set_timeoffset(timeoffset)
         if start_time is not None:
             if modulo_period is not None:
                 raise ConfigProcessorError("Cannot have both start_time and modulo_period set!")
@@ -515,8 +519,6 @@ class ConfigProcessor(object):
         cfg.update_publish_time(now_int)
         if add_location:
             cfg.do_add_location()
-        if timeoffset is not None:
-            cfg.set_timeoffset(timeoffset)
 
     # pylint: disable=no-self-use
 
-- 
2.43.0


From 6806d9f073882c833464d78f6afcd7641de57a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 02/45] fix: thumbnail requests outside the availability window
 crashed

error_response() was called without the provider argument, so every too early,
too late or out-of-range thumbnail request raised TypeError.
---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..e206441 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -352,11 +352,11 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -364,10 +364,10 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
     time_since_ast = seg_time - cfg.availability_start_time_in_s
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 127e693b877befced4d448f8fd473e328d71b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 03/45] fix: thumbnails must follow stop_ and timeoffset_ like
 media segments

The availability check and the loop mapping of thumbnails ignored the stop time
and the time offset announced in the manifest.
---
 dashlivesim/dashlib/dash_proxy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index e206441..e3dbe33 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -350,9 +350,12 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
@@ -365,11 +368,12 @@ def process_thumbnail(dashProv, now_float):
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+        # If stop_number is not None, the manifest will become static
+        if ((now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    time_since_ast = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
     nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
-- 
2.43.0


From 6e983ff21b3fd0120fa2d228af4d71b70b25ffec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 04/45] fix: last segment of a modulo_ session was counted from
 the epoch

Segment numbers are relative to the availability start, but the last number was
computed from the epoch (and as a float), so the last segment never carried lmsg
and segments beyond the presentation duration were served.
---
 dashlivesim/dashlib/configprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index b71ae43..95bd530 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -170,7 +170,10 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        # Segment numbers are counted from the start number at availability start
+        nr_segments = int(modulo_period.media_presentation_duration)//seg_dur
+        first_segment_number = 1 if self.start_nr == -1 else self.adjusted_start_number
+        self.last_segment_numbers.append(first_segment_number + nr_segments - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
-- 
2.43.0


From 8b2690ad826722267abe4daedc336fa2743f96be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:58 +0000
Subject: [PATCH 05/45] fix: durations of a whole number of days were written
 as invalid "P1DT"

---
 dashlivesim/dashlib/timeformatconversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..96a90ad 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -67,7 +67,7 @@ def seconds_to_iso_duration(nr_secs):
         period += "%dH" % hours
     if minutes > 0:
         period += "%dM" % minutes
-    if seconds > 0 or period == "PT":
+    if seconds > 0 or period.endswith("T"):
         period += "%dS" % seconds
     return period
 
-- 
2.43.0


From 7d71e739cf8ce862f5718c5186633606cc7ce400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 06/45] fix: mediaPresentationDuration was missing from the
 manifest near the end of a dur_ session

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 95bd530..628d88b 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -181,6 +181,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From e0e9264b61e124256663c025e98b5b7c40eb7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 07/45] fix: SegmentTimeline repeat counts were wrong when the
 window spans a loop boundary

---
 dashlivesim/dashlib/segtimeline.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..12ef078 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -119,7 +119,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,11 +131,8 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
+        if start_index != end_index or start_wraps != end_wraps:
             nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
         else:  # There was only one entry which was repeated
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
-- 
2.43.0


From fdbf26180871c4d0d8ca43f132c7dce6b0a4e7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 08/45] fix: SegmentTimeline started with a segment ending
 exactly at the window (or period) start

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 12ef078..7c6d81e 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -166,7 +166,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
-- 
2.43.0


From 36230d276f24050bd5bae0a7409253d66696addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 09/45] fix: SegmentTimeline crashed before the first segment
 end and started late at an entry boundary

---
 dashlivesim/dashlib/segtimeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 7c6d81e..dcd1b6c 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -96,7 +96,7 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # No segment has ended yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
@@ -193,7 +193,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 3f23175934ea376f1442695c9e8e0627f978c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 10/45] fix: SegmentTimeline ignored timeoffset_ and listed
 segments after the end of a session

---
 dashlivesim/dashlib/mpdprocessor.py | 25 ++++++++++++++-----------
 dashlivesim/dashlib/segtimeline.py  |  1 +
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..b868c61 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -372,18 +372,21 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
-                        start_time = max(ast + pdata['start_s'], now - tsbd)
-                        if 'period_duration_s' in pdata:
-                            end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
-                        else:
-                            end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
+                        last_time = now  # Nothing is added after the end of a time-limited session
                         use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
+                        if self.cfg.stop_time is not None:
+                            now = last_time = min(now, self.cfg.stop_time)  # Nothing is removed either
                             use_closest = True
+                        elif self.cfg.media_presentation_duration is not None:
+                            last_time = min(now, ast + self.cfg.media_presentation_duration)
+                        start_time = max(ast + pdata['start_s'], now - tsbd)
+                        end_time = last_time
+                        if 'period_duration_s' in pdata:
+                            end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], last_time)
+                        # The media timeline starts at AST, unless there is a time offset
+                        media_time_offset = self.cfg.adjusted_pto(0, 1) - ast
+                        start_time += media_time_offset
+                        end_time += media_time_offset
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest)
                         remove_attribs(seg_template, ['duration'])
@@ -396,7 +399,7 @@ class MpdProcessor(object):
                         if self.segtimeline:
                             media_template = media_template.replace('$Number$', 't$Time$')
                             remove_attribs(seg_template, ['startNumber'])
-                        elif self.segtimeline_nr:
+                        elif self.segtimeline_nr and segtime_gen.start_number is not None:
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index dcd1b6c..7c3cb97 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -72,6 +72,7 @@ class SegmentTimeLineGenerator(object):
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
+        self.start_number = None
 
         start = start_time * self.timescale
         end = end_time * self.timescale
-- 
2.43.0


From 6de2c344a16976bff6b20aba2fc0ef0ef916af9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 11/45] fix: SegmentTimeline manifests and $Time$ requests
 ignored the start number

---
 dashlivesim/dashlib/dash_proxy.py  | 2 ++
 dashlivesim/dashlib/segtimeline.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index e3dbe33..4bcbceb 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -231,6 +231,7 @@ def process_media_segment(dashProv, now_float, chunk):
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr += cfg.start_nr == -1 and 1 or cfg.start_nr  # Media time 0 is the first segment number
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
@@ -348,6 +349,7 @@ def process_thumbnail(dashProv, now_float):
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr += cfg.start_nr == -1 and 1 or cfg.start_nr  # Media time 0 is the first segment number
     else:
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 7c3cb97..054b748 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -140,6 +140,7 @@ class SegmentTimeLineGenerator(object):
         seg_timeline.insert(0, s_elem)
         self.start_number = self.get_seg_number(nr_wraps, start_index,
                                                 start_repeats)
+        self.start_number += 1 if self.cfg.start_nr == -1 else self.cfg.start_nr
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
-- 
2.43.0


From 0c73c9e429173a0a4e95dabed97831e3b9269450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 12/45] fix: multiple periods ignored start number,
 availability start and time offset

---
 dashlivesim/dashlib/mpd_proxy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..968cca5 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -207,6 +207,7 @@ def generate_period_data(mpd_data, now, cfg):
         raise Exception("Bad nr of periods per hour %d" % nr_periods_per_hour)
 
     seg_dur = mpd_data['segDuration']
+    first_nr = 1 if mpd_data['startNumber'] == -1 else mpd_data['startNumber']
     period_data = []
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
@@ -221,8 +222,9 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (first_nr + start // seg_dur),
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (mpd_data['presentationTimeOffset'] + start),
+                'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -233,15 +235,16 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        now -= cfg.availability_start_time_in_s  # Period start times are relative to AST
+        last_period_nr = max(0, (now + half_period_duration) // period_duration)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'startNumber': "%d" % (first_nr + start_time//seg_dur), 'duration': seg_dur,
+                    'presentationTimeOffset': mpd_data['presentationTimeOffset'] + start_time,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From 2337f3c92eb54f638fd46150853fb257406ec67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 13/45] fix: timeShiftBufferDepth was dropped for sessions with
 a duration although old segments expire

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b868c61..8354553 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -119,7 +119,7 @@ class MpdProcessor(object):
                     'mediaPresentationDuration', 'suggestedPresentationDelay']
         if mpd_data.get('type', 'dynamic') == 'static':
             key_list.remove('minimumUpdatePeriod')
-        if (mpd_data.get('type', 'dynamic') == 'static' or mpd_data.get('mediaPresentationDuration')):
+        if mpd_data.get('type', 'dynamic') == 'static' or (self.cfg and self.cfg.stop_time is not None):
             key_list.remove('timeShiftBufferDepth')
         set_values_from_dict(mpd, key_list, mpd_data)
         if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
-- 
2.43.0


From 3385b4e12329bc0465e7ee8dffcbff1a1b193266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 14/45] fix: SegmentTimeline could begin with a segment before
 the first one of the session

---
 dashlivesim/dashlib/mpdprocessor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 8354553..b2436d3 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -373,13 +373,12 @@ class MpdProcessor(object):
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
                         last_time = now  # Nothing is added after the end of a time-limited session
-                        use_closest = False
                         if self.cfg.stop_time is not None:
                             now = last_time = min(now, self.cfg.stop_time)  # Nothing is removed either
-                            use_closest = True
                         elif self.cfg.media_presentation_duration is not None:
                             last_time = min(now, ast + self.cfg.media_presentation_duration)
                         start_time = max(ast + pdata['start_s'], now - tsbd)
+                        use_closest = start_time == ast  # The first segment of the session
                         end_time = last_time
                         if 'period_duration_s' in pdata:
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], last_time)
-- 
2.43.0


From f669f0eb5ec596df9156aeed808a7626e80b8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:25 +0000
Subject: [PATCH 15/45] fix: durations of modulo_ sessions were floats, which
 gave non-integer SegmentTimeline times

---
 dashlivesim/dashlib/moduloperiod.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/moduloperiod.py b/dashlivesim/dashlib/moduloperiod.py
index eb8eb6b..80b167c 100644
--- a/dashlivesim/dashlib/moduloperiod.py
+++ b/dashlivesim/dashlib/moduloperiod.py
@@ -55,7 +55,7 @@ class ModuloPeriod(object):
         self.now = now
         self.percent = self.calc_percent()
         self._availability_start_time = self.calc_availability_start_time()
-        self._minimum_update_period = self.mod_secs/20
+        self._minimum_update_period = self.mod_secs//20
         self._media_presentation_duration = self.calc_media_pres_dur()
         self._availability_end_time = (self._availability_start_time + self._media_presentation_duration +
                                        self._minimum_update_period)
@@ -95,15 +95,15 @@ class ModuloPeriod(object):
     def calc_media_pres_dur(self):
         "Calculate the media presentation duration."
         if self.percent < 10:
-            mpd = 2*self.mod_secs/10
+            mpd = 2*self.mod_secs//10
         elif self.percent < 30:
-            mpd = 4*self.mod_secs/10
+            mpd = 4*self.mod_secs//10
         elif self.percent < 50:
-            mpd = 6*self.mod_secs/10
+            mpd = 6*self.mod_secs//10
         elif self.percent < 90:
-            mpd = 8*self.mod_secs/10
+            mpd = 8*self.mod_secs//10
         else:
-            mpd = 2*self.mod_secs/10  # This is in the next period
+            mpd = 2*self.mod_secs//10  # This is in the next period
         return mpd
 
     def get_start_number(self, segment_duration):
-- 
2.43.0


From e1b81238fe586f48b1ced04fb463b091872a6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 16/45] fix: manifest request with only one of startrel_ and
 stoprel_ crashed

---
 dashlivesim/dashlib/mpdprocessor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b2436d3..9cd296a 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -183,10 +183,13 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
+                                 self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 3fea82eddd5c8766f6001ae4a270869fa01b00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 17/45] fix: track timescale was read from the wrong place in
 version 1 mdhd boxes

---
 dashlivesim/dashlib/initsegmentfilter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..9c86102 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,10 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        if data[8] == 1:
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 4d7f27cb3a1d9350bc382f65d5c83cacd2646689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 18/45] fix: multiplexed init segments kept the VoD durations

---
 dashlivesim/dashlib/dash_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4bcbceb..3441d73 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -201,7 +201,7 @@ def process_init_segment(dashProv):
         init1 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[0]['id'], cfg.filename)
         init2 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[1]['id'], cfg.filename)
         muxed_inits = segmentmuxer.MultiplexInits(init1, init2)
-        data = muxed_inits.construct_muxed()
+        data = InitLiveFilter(data=muxed_inits.construct_muxed()).filter()
     else:
         data = error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
     return data
-- 
2.43.0


From 332e99d1c0264c783e6f3eb097bf7eed0e6bb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:58 +0000
Subject: [PATCH 19/45] fix: multiplexing media segments without styp crashed

---
 dashlivesim/dashlib/segmentmuxer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..7505130 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -190,7 +190,8 @@ class MultiplexMediaSegments(object):
     def mux_on_fragment_level(self):
         "Multiplex on frgment level."
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(self.mstruct1.moof)
         data.append(self.mstruct1.mdat)
         data.append(self.mstruct2.moof)
@@ -218,7 +219,8 @@ class MultiplexMediaSegments(object):
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From 2b389cc1dad79160c3b5bfd3d499668ec1decc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 20/45] fix: chunked delivery marked every sample as a sync
 sample

---
 dashlivesim/dashlib/chunker.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..700389b 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -35,6 +35,9 @@ from dashlivesim.dashlib.mp4 import mp4
 from dashlivesim.dashlib.boxes import create_moof, create_mdat, Sample
 
 
+NON_SYNC_SAMPLE_FLAG = 0x10000
+
+
 def decode_fragment(data, trex):
     "Extract samples from a segment."
     root = mp4(data)
@@ -55,15 +58,21 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for sample_nr, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if trun.has_sample_flags:
+            flags = int(entry['flags'], 16)
+        elif trun.has_first_sample_flags and sample_nr == 0:
+            flags = trun.first_sample_flags
+        else:
+            flags = default_sample_flags
+        sync = not flags & NON_SYNC_SAMPLE_FLAG
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
-- 
2.43.0


From 95933c4bd2830a3523a8ab55ed63b10c320cb2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 21/45] fix: chunks lost the sign of negative composition
 offsets

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..1a0d1a3 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -968,6 +968,8 @@ class TRUNBox(Box):
         flags = 0x000001 | 0x000100 | 0x000200 | 0x000400
         if self.use_comp_off:
             flags |= 0x000800
+            if any(sample.offset < 0 for sample in self.samples):
+                flags |= 0x01000000  # Version 1 has signed composition offsets
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-- 
2.43.0


From 3c837b8007e65b180e0ec9e6ffc0ca56fb2f5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 22/45] fix: chunks of sessions with a start time were released
 before they were complete

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 3441d73..850f2da 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -273,11 +273,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return when the segment starts to be produced (which differs from seg_time if
+            # the availability start is not zero), and each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From 3bb54550ca9d32bdf98026dab4b11a938c59ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 23/45] fix: Content-Range of multi-range requests and of
 suffix ranges longer than the resource

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..74e25c5 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -245,14 +245,14 @@ def handle_byte_range(payload, range_line):
     range_parts = range_line.split("=")[-1]
     ranges = range_parts.split(",")
     if len(ranges) > 1:
-        return (payload, None)
+        return (payload, "")  # Multiple ranges not supported
     length = len(payload)
     range_interval = ranges[0]
     range_start, range_end = range_interval.split("-")
     bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(0, length - int(range_end))
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
-- 
2.43.0


From 412b5c87ad9c9a29ff94c47b4f15b3ac45f754cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 24/45] fix: a malformed range header broke the connection
 instead of being ignored

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 27 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 74e25c5..7bc2e83 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -248,20 +248,23 @@ def handle_byte_range(payload, range_line):
         return (payload, "")  # Multiple ranges not supported
     length = len(payload)
     range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
     bad_range = False
-    if range_start == "" and range_end != "":
-        # This is the rangeStart lasts bytes
-        range_start = max(0, length - int(range_end))
-        range_end = length - 1
-    elif range_start != "":
-        range_start = int(range_start)
-        if range_end != "":
-            range_end = min(int(range_end), length-1)
+    try:
+        range_start, range_end = range_interval.split("-")
+        if range_start == "" and range_end != "":
+            # This is the rangeStart lasts bytes
+            range_start = max(0, length - int(range_end))
+            range_end = length - 1
+        elif range_start != "":
+            range_start = int(range_start)
+            if range_end != "":
+                range_end = min(int(range_end), length-1)
+            else:
+                range_end = length-1
         else:
-            range_end = length-1
-    else:
-        bad_range = True
+            bad_range = True
+    except ValueError:  # Not a range of numbers
+        return (payload, "")
     if range_end < range_start:
         bad_range = True
     if bad_range:
-- 
2.43.0


From 7bd3a7c5f5aaf061b0e390e1dd17c4fa9f22be5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 25/45] fix: SCTE-35 splice times follow the media timeline
 also with start number or start time options

---
 dashlivesim/dashlib/dash_proxy.py         | 13 +++++++------
 dashlivesim/dashlib/mediasegmentfilter.py |  6 +++++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 850f2da..f0f12f7 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -272,7 +272,7 @@ def process_media_segment(dashProv, now_float, chunk):
         if chunk:
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg, trex_data)
+                                               offset_at_loop_start, lmsg, trex_data, seg_time=seg_time)
             # Here we shall return when the segment starts to be produced (which differs from seg_time if
             # the availability start is not zero), and each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
@@ -280,16 +280,16 @@ def process_media_segment(dashProv, now_float, chunk):
             return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg)
+                                               offset_at_loop_start, lmsg, seg_time=seg_time)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
         rel_path1 = "/".join(common_path_parts + [cfg.reps[0]['id']])
         rel_path2 = "/".join(common_path_parts + [cfg.reps[1]['id']])
         seg1 = filter_media_segment(dashProv, cfg.reps[0], rel_path1, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time=seg_time)
         seg2 = filter_media_segment(dashProv, cfg.reps[1], rel_path2, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time=seg_time)
         muxed = segmentmuxer.MultiplexMediaSegments(data1=seg1, data2=seg2)
         seg_content = muxed.mux_on_sample_level()
     return seg_content
@@ -305,7 +305,8 @@ def get_trex_data(dashProv, rel_path):
 
 
 # pylint: disable=too-many-arguments
-def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, trex_data=None):
+def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, trex_data=None,
+                         seg_time=None):
     "Filter an actual media segment by using time-scale from init segment."
     cfg = dashProv.cfg
     media_seg_file = join(dashProv.content_dir, cfg.content_name, rel_path, "%d%s" % (vod_nr, seg_ext))
@@ -318,7 +319,7 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now, seg_time=seg_time)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..7f679ec 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,12 +52,14 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 seg_time=None):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
         self.seg_nr = seg_nr
         self.seg_duration = seg_duration
+        self.seg_time = seg_time  # Start on the media timeline in seconds (if different from seg_nr*seg_duration)
         self.offset = offset
         self.track_timescale = track_timescale
         self.rel_path = rel_path
@@ -352,6 +354,8 @@ class MediaSegmentFilter(MP4Filter):
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
         seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
+        if self.seg_time is not None:
+            seg_starttime = self.seg_time
         sec_modulo_minute = seg_starttime % 60
         minute_start = seg_starttime - sec_modulo_minute
         splice_insert_times = [minute_start + 10]
-- 
2.43.0


From c1449b81cf308bc5efa5024290e188059ffae0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 26/45] fix: announce every SCTE-35 splice when a segment
 crosses the minute or covers two announcements

---
 dashlivesim/dashlib/mediasegmentfilter.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 7f679ec..2d15687 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -367,25 +367,20 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
-        found_splice_time = -1
-        splice_time = None
+        # The segment may reach into the next minute
+        splice_insert_times += [splice_time + 60 for splice_time in splice_insert_times]
         seg_endtime = seg_starttime + self.seg_duration
+        output = b""
         for splice_time in splice_insert_times:
             # Assume that there are events 8s and 6s before the actual splice
             for pre_warning_time in (splice_time - 6, splice_time-8):
                 if seg_starttime <= pre_warning_time <= seg_endtime:
-                    found_splice_time = splice_time
+                    timescale = 90000  # Timescale
+                    emsg_id = splice_id = splice_time//10
+                    output += scte35.create_scte35_emsg(timescale, seg_starttime*timescale, splice_time*timescale,
+                                                        ad_duration*timescale, emsg_id, splice_id)
                     break
-            if found_splice_time >= 0:
-                break
-        if found_splice_time < 0:
-            return b""  # Nothing for this segment
-        timescale = 90000  # Timescale
-        emsg_id = splice_id = splice_time//10
-        emsg = scte35.create_scte35_emsg(timescale, seg_starttime*timescale, found_splice_time*timescale,
-                                         ad_duration*timescale, emsg_id, splice_id)
-        # print "Made scte35 emsg %d" % len(emsg)
-        return emsg
+        return output
 
     def find_and_process_mdat(self, data):
         "Change the ttml part of mdat and update mdat size. Return full new data."
-- 
2.43.0


From 6d507c2f0982120ea8add0754315798db56fe2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 27/45] fix: time-limited sessions list no period after their
 end

---
 dashlivesim/dashlib/mpd_proxy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 968cca5..8dd62ad 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -235,10 +235,15 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
+        if cfg.stop_time is not None:
+            now = min(now, cfg.stop_time)  # Nothing is added or removed after the end of the session
         now -= cfg.availability_start_time_in_s  # Period start times are relative to AST
         last_period_nr = max(0, (now + half_period_duration) // period_duration)
+        if cfg.media_presentation_duration is not None:  # No period starts after the end of the session
+            last_period_nr = min(last_period_nr, max(0, (cfg.media_presentation_duration - 1) // period_duration))
         # this_period_start = this_period_nr * period_duration
         first_period_nr = max(0, (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)
+        first_period_nr = min(first_period_nr, last_period_nr)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
-- 
2.43.0


From d70665034d166954db8ba850e4c987937abfe3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:12 +0000
Subject: [PATCH 28/45] fix: xlink periods are located by their id, also with
 Location or availabilityTimeOffset

---
 dashlivesim/dashlib/mpd_proxy.py    | 18 ++++++++++++++----
 dashlivesim/dashlib/mpdprocessor.py |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 8dd62ad..536709b 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+from re import escape, findall, search
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -133,11 +133,13 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response)
+        if not base_url:  # Relative times give a Location instead
+            base_url = findall('<Location>([^<]*/)[^</]*</Location>', response)
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -184,7 +186,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
@@ -299,6 +301,14 @@ def generate_period_data(mpd_data, now, cfg):
     return period_data
 
 
+def find_period(response, period_id):
+    "Find the start position of the period with id period_id."
+    match = search(r'<Period\b[^>]*\bid="%s"' % escape(period_id), response)
+    if match is None:
+        raise Exception("No period %s in the manifest" % period_id)
+    return match.start()
+
+
 def insert_asset_identifier(response, start_pos_period):
     ad_pos = response.find(">", start_pos_period) + 1
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 9cd296a..0b95f39 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -317,7 +317,7 @@ class MpdProcessor(object):
                 segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
                                                                                 self.cfg)
         periods = mpd.findall(add_ns('Period'))
-        BaseURL = mpd.findall(add_ns('BaseURL'))
+        BaseURL = mpd.findall(add_ns('BaseURL')) + mpd.findall(add_ns('Location'))  # One of them is present
         if len(BaseURL) > 0:
             BaseURLParts = BaseURL[0].text.split('/')
             if len(BaseURLParts) > 3:
-- 
2.43.0


From 2719adeb43a6befa1b03a922f58bcb79773c305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:31 +0000
Subject: [PATCH 29/45] fix: redundant base URLs put the option before the
 content and no empty path parts

---
 dashlivesim/dashlib/mpdprocessor.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0b95f39..a8b084e 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -164,20 +164,16 @@ class MpdProcessor(object):
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
-                i = -1
+                other_parts = []
+                option_pos = 0
                 for part in url_parts:
-                    i += 1
-                    if part.find("_") < 0:  # Not a configuration
-                        continue
-                    cfg_parts = part.split("_", 1)
-                    key, _ = cfg_parts
-                    if key == "baseurl":
-                        url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                    if part.startswith("baseurl_"):  # Remove all the baseurl elements
+                        option_pos = option_pos or len(other_parts)
+                    else:
+                        other_parts.append(part)
                 for url in data['urls']:
-                    url_parts.insert(-1, "baseurl_" + url)
-                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-                    del url_parts[-2]
+                    new_parts = other_parts[:option_pos] + ["baseurl_" + url] + other_parts[option_pos:]
+                    self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(new_parts), ato, atc)
                     pos += 1
             else:
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
-- 
2.43.0


From 66d3b6460c2f04c726db79049b731b114d9ba460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 30/45] fix: the analyzer writes timing data for the segments
 of the loop only, and loops over segments available in all representations

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..b1aa54d 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -147,7 +147,9 @@ class DashAnalyzer(object):
 
     def checkAndUpdateMediaData(self):
         """Check all segments for good values and return startTimes and total duration."""
-        lastGoodSegments = []
+        # The loop ends with the last segment which is available in all representations
+        self.lastSegmentInLoop = min(rep_data['lastNumber'] for as_data in self.as_data.values()
+                                     for rep_data in as_data['reps'])
 
         print("Checking all the media segment durations for deviations.")
 
@@ -191,7 +193,7 @@ class DashAnalyzer(object):
                     lastDuration = 0
                     while (True):
                         segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
+                        if segNr > self.lastSegmentInLoop or not os.path.exists(segmentPath):
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
@@ -236,9 +238,7 @@ class DashAnalyzer(object):
                             sys.stdout.write(".")
                     if rep_nr == 0:
                         writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount)
-                        lastGoodSegments.append(rep_data['endNr'])
                         as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']
-        self.lastSegmentInLoop = min(lastGoodSegments)
         self.nrSegmentsInLoop = self.lastSegmentInLoop-self.firstSegmentInLoop+1
         self.loopTime = self.nrSegmentsInLoop*self.segDuration
         if self.verbose:
-- 
2.43.0


From e234138e18db8eb79a7e419a3feb8c0904e706eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:43 +0000
Subject: [PATCH 31/45] fix: texts of the stored manifest containing ns0: are
 no longer cut

---
 dashlivesim/dashlib/mpdprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a8b084e..c497e7f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -37,7 +37,7 @@ import time
 
 from dashlivesim.dashlib.timeformatconversions import make_timestamp
 from dashlivesim.dashlib.segtimeline import SegmentTimeLineGenerator
-from dashlivesim.dashlib.dash_namespace import add_ns
+from dashlivesim.dashlib.dash_namespace import add_ns, DASH_NAMESPACE
 from dashlivesim.dashlib import scte35
 
 SET_BASEURL = True
@@ -455,10 +455,10 @@ class MpdProcessor(object):
 
     def get_full_xml(self, clean=True):
         "Get a string of all XML cleaned (no ns0 namespace)"
+        if clean:
+            ElementTree.register_namespace('', DASH_NAMESPACE[1:-1])
         ofh = StringIO()
         self.tree.write(ofh, encoding="unicode")
         value = ofh.getvalue()
-        if clean:
-            value = value.replace("ns0:", "").replace("xmlns:ns0=", "xmlns=")
         xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         return xml_intro + value
-- 
2.43.0


From 9d6967d2b0f467d152e3cc88a289088144b59717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:07 +0000
Subject: [PATCH 32/45] fix: timeline manifests of content with other sets than
 one audio and one video set

---
 dashlivesim/dashlib/mpdprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index c497e7f..d188a03 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -310,6 +310,8 @@ class MpdProcessor(object):
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
             for content_type in ('video', 'audio'):
+                if content_type not in self.cfg.media_data:
+                    continue
                 segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
                                                                                 self.cfg)
         periods = mpd.findall(add_ns('Period'))
@@ -365,7 +367,7 @@ class MpdProcessor(object):
                     if pdata.get('startNumber') == '-1':  # Default to 1
                         remove_attribs(seg_template, ['startNumber'])
 
-                    if self.segtimeline or self.segtimeline_nr:
+                    if (self.segtimeline or self.segtimeline_nr) and content_type in segtimeline_generators:
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
-- 
2.43.0


From 733332d7980e1c4b54eba0dd3d2d2a1536424707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 33/45] fix: a BaseURL in the content manifest hid
 availabilityTimeOffset and redundant base URLs

---
 dashlivesim/dashlib/mpdprocessor.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index d188a03..0dad0e2 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -150,17 +150,14 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        for child in children[pos:]:  # Any BaseURL of the content is replaced
+            if child.tag != add_ns('BaseURL'):
+                break
+            mpd.remove(child)
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -220,10 +217,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From ff00c82978d237982c2f1bb60e3e07b7f461f442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 34/45] fix: the caption inserter could not read any manifest
 with Python 3.9 or later

---
 dashlivesim/cc_inserter/mpdprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/mpdprocessor.py b/dashlivesim/cc_inserter/mpdprocessor.py
index 8957e8c..95524cb 100644
--- a/dashlivesim/cc_inserter/mpdprocessor.py
+++ b/dashlivesim/cc_inserter/mpdprocessor.py
@@ -99,7 +99,7 @@ class Mpd(MpdElement):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('profiles', 'maxSegmentDuration', 'minBufferTime',
                                                   'type', 'mediaPresentationDuration'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'Period'):
                 period = Period(child)
                 period.parse()
@@ -124,7 +124,7 @@ class Period(MpdElement):
     def parse(self):
         "Parse the node and its children."
         self.check_and_add_attributes(self.node, ('id', 'start'))
-        for child in self.node.getchildren():
+        for child in self.node:
             if self.compare_tag(child.tag, 'AdaptationSet'):
                 adaptation_set = AdaptationSet(child)
                 adaptation_set.parse()
-- 
2.43.0


From 1a44ab65f7bc9951f705884a67ff6df491530b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 35/45] fix: inserting captions lost the first sample flags,
 which broke the sample table

---
 dashlivesim/cc_inserter/cc_inserter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..e12c16f 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -121,8 +121,9 @@ class CCInsertFilter(MP4Filter):
             self.trun_offset = str_to_uint32(data[16:20])
             output += uint32_to_str(self.trun_offset)
             pos += 4
-        if flags & 0x4:
-            pos += 4  # First sample flags present
+        if flags & 0x4:  # First sample flags present
+            output += data[pos:pos+4]
+            pos += 4
 
         sample_duration_present = flags & 0x100
         sample_size_present = flags & 0x200
-- 
2.43.0


From 70e94393334f625869ce6ddf917f189fe4db5d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 36/45] fix: captions were lost in segments with default sample
 durations

---
 dashlivesim/cc_inserter/cc_inserter.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index e12c16f..3ce78a6 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -95,7 +95,7 @@ def generate_data(scc_data, field=1):
 
 class CCInsertFilter(MP4Filter):
     """CC Insert filter"""
-    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field):
+    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field, default_sample_duration=0):
         MP4Filter.__init__(self, segmentFile)
         self.top_level_boxes_to_parse = [b"styp", b"sidx", b"moof", b"mdat"]
         self.composite_boxes_to_parse = [b"moof", b"traf"]
@@ -103,9 +103,22 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
+        self.default_sample_duration = default_sample_duration
         self.trun_offset = 0
         self.scc_map = []
 
+    def process_tfhd(self, data):
+        """Process tfhd box and find the default sample duration."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        pos = 16
+        if flags & 0x01:  # Base data offset present
+            pos += 8
+        if flags & 0x02:  # Sample description index present
+            pos += 4
+        if flags & 0x08:
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -134,7 +147,7 @@ class CCInsertFilter(MP4Filter):
         orig_sample_pos = 0
 
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
@@ -371,6 +384,7 @@ class CCInserter(object):
                 rep_data['absInitPath'] = os.path.join(self.base_path, init_path)
                 init_filter = initsegmentfilter.InitFilter(rep_data['absInitPath'])
                 init_filter.filter()
+                rep_data['defaultSampleDuration'] = init_filter.default_sample_duration
                 rep_data['trackID'] = init_filter.track_id
                 print("%s trackID = %d" % (content_type, rep_data['trackID']))
                 rep_data['relMediaPath'] = rep.get_media_path()
@@ -446,7 +460,8 @@ class CCInserter(object):
                                       rep_data['endTime']-rep_data['startTime']))
                             break
                         # print "Parsing segment: " + segment_path
-                        msf = mediasegmentfilter.MediaSegmentFilter(segment_path)
+                        msf = mediasegmentfilter.MediaSegmentFilter(
+                            segment_path, default_sample_duration=rep_data['defaultSampleDuration'])
                         msf.filter()
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
@@ -457,7 +472,8 @@ class CCInserter(object):
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
                             cc_filter = CCInsertFilter(segment_path, scc_data_for_segment, track_timescale,
-                                                       tfdt, self.field)
+                                                       tfdt, self.field,
+                                                       rep_data['defaultSampleDuration'])
                             output = cc_filter.filter()
 
                             print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-- 
2.43.0


From 8b2f47008d45ca40ee736be5699a1293369f880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 37/45] fix: inserting captions did not update the size in the
 segment index

---
 dashlivesim/cc_inserter/cc_inserter.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 3ce78a6..06cf569 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -239,6 +239,17 @@ class CCInsertFilter(MP4Filter):
             output += data[offset:]
         return output
 
+    def finalize(self):
+        """Add the size of the inserted data to the segment size in a preceding sidx box."""
+        added_size = sum(len(scc_data['scc_nalu']) for scc_data in self.scc_map)
+        pos = 0
+        for size, boxtype in self.output_top_level_boxes:
+            if boxtype == b"sidx":
+                size_pos = pos + (32 if self.output[pos + 8:pos + 9] == b"\x00" else 40)
+                new_size = str_to_uint32(self.output[size_pos:size_pos + 4]) + added_size
+                self.output = self.output[:size_pos] + uint32_to_str(new_size) + self.output[size_pos + 4:]
+            pos += size
+
     def get_scc_data(self, start_time, end_time):
         """Return scc data for a specified time period"""
         result = []
-- 
2.43.0


From fcfb2adca4eeaa14ed5aac49ca975a7698b0264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:35 +0000
Subject: [PATCH 38/45] fix: a missing segment crashed the caption inserter
 instead of being reported

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 06cf569..34164ab 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -332,7 +332,7 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" % (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From 6f33ed0eea2428670009c2d37432470780493e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:27 +0000
Subject: [PATCH 39/45] fix: elements between the programme information and the
 period were served as periods in multi-period manifests

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0dad0e2..2ff3859 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -193,7 +193,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 3a666e949a2789f5609bb5ecf372b673aa278bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 40/45] fix: a path with empty or .. parts read files outside
 the content

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 628d88b..0886d42 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -121,6 +121,8 @@ class Config(object):
 
     def update_with_filedata(self, url_parts, url_pos):
         "Find the content_name, file_name, and representations (if muxed as signalled by MUX_DIVIDER)."
+        if '..' in url_parts[url_pos:] or '' in url_parts[url_pos:-1]:
+            raise ConfigProcessorError("Path %s is outside the content" % "/".join(url_parts[url_pos:]))
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
         rel_path_parts = url_parts[url_pos+1:-1]
-- 
2.43.0


From fa9238243526425b32ec7738acad5ecdd5b462aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 41/45] fix: the subtitle segment generator mixed text and
 bytes and failed on Python 3

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 dashlivesim/dashlib/stpp_generator/stpp_creator.py       | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..f1c9120 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -33,7 +33,7 @@ import os
 from argparse import ArgumentParser
 from jinja2 import Template
 
-from stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
+from dashlivesim.dashlib.stpp_generator.stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
 
 BODY_TEMPLATE = '''
     <div region="r0">
diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..a6cdcf9 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
@@ -228,7 +228,8 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            name = self.handler_name.encode('utf-8')
+            output = uint32_to_str(len(name) + 33) + data[4:32] + name + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From 0a9c8efdb300f42ff8644a2967702634cc097e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 42/45] fix: generated subtitle init segments had the track
 defaults of another track

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index a6cdcf9..b8194bd 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -171,7 +171,11 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
+
+    def process_trex(self, data):
+        "Set the track that the defaults are for."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
-- 
2.43.0


From 2e2861d42c329083184cf104beda9c9d2b56f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:14 +0000
Subject: [PATCH 43/45] fix: generated subtitle init segments had the time
 stamp resolution as timescale though all times are in ms

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index f1c9120..c7f9456 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)
             initseg = initfilter.filter()
             iof.write(initseg)
 
-- 
2.43.0


From d16b7dda403437f753915689132b758af4b494f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 44/45] fix: encoder times of low-latency manifests ignored the
 start of the session

---
 dashlivesim/dashlib/mpdprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 2ff3859..63432f6 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -250,7 +250,10 @@ class MpdProcessor(object):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
-        prt_elem.set("wallClockTime", "1970-01-01T00:00:00")
+        media_start = self.cfg.timeoffset  # Time when the media timeline is 0
+        if media_start is None:
+            media_start = self.cfg.availability_start_time_in_s
+        prt_elem.set("wallClockTime", make_timestamp(media_start))
         prt_elem.set("presentationTime", "0")
         utc_elem = self.create_descriptor_elem('UTCTiming', 'urn:mpeg:dash:utc:http-iso:2014',
                                                UTC_TIMING_HTTP_SERVER)
-- 
2.43.0


From 5b42dc86439502606c937ddd6ef2641b397012fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:55 +0000
Subject: [PATCH 45/45] fix: updates of multi-period manifests were too rare to
 see an extension of the session in time

---
 dashlivesim/dashlib/mpd_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 536709b..c98666c 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -234,6 +234,8 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period_s = (half_period_duration - 5)
         if cfg.seg_timeline or cfg.seg_timeline_nr:
             minimum_update_period_s = cfg.seg_duration
+        elif cfg.availability_end_time is not None:  # The end may be extended and must be looked for as often
+            minimum_update_period_s = min(minimum_update_period_s, cfg.minimum_update_period_in_s)
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-- 
2.43.0

