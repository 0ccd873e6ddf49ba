From f4e6f4337eca46e07d9548bb829cda52d0ad80a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 01/67] fix: explain refused thumbnail requests

error_response() was called without the provider, so every refused
thumbnail request ended in a TypeError instead of the timing message.
---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..e206441 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -352,11 +352,11 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(seg_base)
     seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -364,10 +364,10 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
         if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
     time_since_ast = seg_time - cfg.availability_start_time_in_s
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-- 
2.43.0


From d5e82cd04517f2bea2f56704e67110275b891f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 02/67] fix: let thumbnails follow timeoffset like media
 segments

The MPD shifts startNumber by timeoffset for all adaptation sets, but
thumbnail requests used the unshifted number and media time.
---
 dashlivesim/dashlib/dash_proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index e206441..f48ac63 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -350,7 +350,7 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
@@ -369,7 +369,7 @@ def process_thumbnail(dashProv, now_float):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    time_since_ast = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
     nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
-- 
2.43.0


From f8206cfab495c9af2413558c4638a2d54b72b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 03/67] fix: combine default start number with timeoffset
 consistently

With snr_-1 and timeoffset the MPD announced -1 + offset while segments
were numbered from 1.
---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..af71028 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -231,6 +231,8 @@ class Config(object):
     def adjusted_start_number(self):
         start_nr = self.start_nr
         if self.timeoffset is not None:
+            if start_nr == -1:  # Default value is 1
+                start_nr = 1
             start_nr += ((self.availability_start_time_in_s - self.timeoffset)
                          // self.seg_duration)
         return start_nr
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index f48ac63..cfb7c39 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -233,7 +233,7 @@ def process_media_segment(dashProv, now_float, chunk):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
@@ -350,7 +350,7 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
-- 
2.43.0


From a5c310d0cdc876741a094c7bd2638641d8820199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:03 +0000
Subject: [PATCH 04/67] fix: relate segment addresses by time to the start
 number

---
 dashlivesim/dashlib/dash_proxy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index cfb7c39..9dcfaf2 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -228,12 +228,14 @@ def process_media_segment(dashProv, now_float, chunk):
     seg_name = cfg.filename
     seg_base, seg_ext = splitext(seg_name)
     timescale = get_timescale(cfg)
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        # The time is on the media timeline, so relate it to the first segment number.
+        seg_nr += seg_start_nr - cfg.adjusted_pto(0, 1) // seg_dur
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
@@ -345,12 +347,14 @@ def process_thumbnail(dashProv, now_float):
     seg_name = cfg.filename
     seg_base, seg_ext = splitext(seg_name)
     timescale = get_timescale(cfg)
+    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        # The time is on the media timeline, so relate it to the first segment number.
+        seg_nr += seg_start_nr - cfg.adjusted_pto(0, 1) // seg_dur
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.adjusted_start_number == -1 and 1 or cfg.adjusted_start_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
-- 
2.43.0


From 5dbe63f3104d8745feee7806f5886b213f7751c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 05/67] fix: count the last segment of a limited session from
 the start number

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 dashlivesim/dashlib/dash_proxy.py      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index af71028..8c8ea44 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -73,7 +73,7 @@ class Config(object):
         self.minimum_update_period_in_s = None
         self.chunk_duration_in_s = None
         self.modulo_period = None
-        self.last_segment_numbers = []  # The last segment number in every period.
+        self.last_segment_numbers = []  # The last segment number, counted from the start number.
         self.init_seg_avail_offset = 0  # The number of secs before AST that one can fetch the init segments
         self.tfdt32_flag = False  # Restart every 3 hours make tfdt fit into 32 bits.
         self.cont = False  # Continuous update of MPD AST and seg_nr.
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 9dcfaf2..dadd934 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -242,10 +242,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = seg_nr - seg_start_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
@@ -358,7 +358,7 @@ def process_thumbnail(dashProv, now_float):
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
-- 
2.43.0


From cb29b2a1f7cf8a5c28b3719cb8b44a0d39e91b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/67] fix: count the last segment of a modulo session from
 its start

---
 dashlivesim/dashlib/moduloperiod.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/moduloperiod.py b/dashlivesim/dashlib/moduloperiod.py
index eb8eb6b..b8f5a57 100644
--- a/dashlivesim/dashlib/moduloperiod.py
+++ b/dashlivesim/dashlib/moduloperiod.py
@@ -119,7 +119,5 @@ class ModuloPeriod(object):
         return (segment_end_time - presentation_end_time)/segment_duration
 
     def calc_last_segment_number(self, segment_duration):
-        "Calculate the last segmentNumber given segmentDuration and mediaPresentationDuration."
-        presentation_end_time = self.availability_start_time + self._media_presentation_duration
-        last_segment_number = presentation_end_time/segment_duration - 1
-        return last_segment_number
+        "Calculate the last segment number, counted from availabilityStartTime."
+        return int(self._media_presentation_duration // segment_duration) - 1
-- 
2.43.0


From e70f24241aae898369c19cc9c2dd4864e9123128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 07/67] fix: use the default sample duration of the init
 segment in an inserted sidx

---
 dashlivesim/dashlib/dash_proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index dadd934..db158e3 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -280,8 +280,10 @@ def process_media_segment(dashProv, now_float, chunk):
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
             return ChunkedSegment(seg_time, chunks)
         else:
+            # The duration in an inserted sidx may depend on the default sample duration in the init segment.
+            trex_data = get_trex_data(dashProv, rel_path) if cfg.insert_sidx else None
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg)
+                                               offset_at_loop_start, lmsg, trex_data)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
-- 
2.43.0


From 3b16d3b08e168b876e6d633c1f162742e85af8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 08/67] fix: keep announcing the presentation duration until
 the end

---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 8c8ea44..8b1f4b3 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -178,6 +178,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From 85ac1ec02c41eb222ec820af9681bd48d1d11599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 09/67] fix: announce a presentation duration that matches the
 last segment

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 8b1f4b3..a943be6 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -202,7 +202,7 @@ class Config(object):
                 total_dur += dur
                 end_time = quantize(start_time + total_dur, self.seg_duration)
                 availability_end_times.append(end_time)
-                media_presentation_durations.append(total_dur)
+                media_presentation_durations.append(end_time - self.availability_start_time_in_s)
             last_segment_number = (end_time-self.availability_start_time_in_s)//self.seg_duration - 1
             self.last_segment_numbers.append(last_segment_number)
             self.update_with_aet(now_int, availability_end_times, media_presentation_durations)
-- 
2.43.0


From 64846f0e2ce03132d34cc93197b0f8514f0a1d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 10/67] fix: let a SegmentTimeline that spans loop wraps list
 every segment once

---
 dashlivesim/dashlib/segtimeline.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..81a1847 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -119,7 +119,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,13 +131,10 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
-            nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
-        else:  # There was only one entry which was repeated
+        if start_index == end_index and start_wraps == end_wraps:
             nr_repeats = end_repeats - start_repeats
+        else:  # All of the entry from the start segment and on
+            nr_repeats = seg_data.repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
         seg_timeline.insert(0, s_elem)
         self.start_number = self.get_seg_number(nr_wraps, start_index,
-- 
2.43.0


From 98e8dc27ba09f7fbd10d200357ca0946c71cd25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 11/67] fix: start a SegmentTimeline at the first of repeated
 segments

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 81a1847..41b9cb3 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -193,7 +193,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From c3ff377ea762c18b841e04a554bc58dcfdcf48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 12/67] fix: give an empty SegmentTimeline before the first
 segment has ended

---
 dashlivesim/dashlib/segtimeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 41b9cb3..af4763f 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -96,7 +96,7 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    break  # Nothing has ended yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
@@ -109,6 +109,7 @@ class SegmentTimeLineGenerator(object):
         (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
         start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
+        self.start_number = self.get_seg_number(start_wraps, start_index, start_repeats)
         start_tics_end = self.get_seg_starttime(end_wraps, end_index, end_repeats)
         if (start_tics_end < start_tics):
             return seg_timeline  # Empty timeline in this case
@@ -137,8 +138,6 @@ class SegmentTimeLineGenerator(object):
             nr_repeats = seg_data.repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
         seg_timeline.insert(0, s_elem)
-        self.start_number = self.get_seg_number(nr_wraps, start_index,
-                                                start_repeats)
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
-- 
2.43.0


From 74541a6e0b9f9520cf18551aa9cbfe667f2d0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 13/67] fix: make SegmentTimelines for the media that have
 segment durations

---
 dashlivesim/dashlib/mpdprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..0d42501 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -310,9 +310,9 @@ class MpdProcessor(object):
                                                elem_id=None, messageData=BaseURLSegmented)
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
-            for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+            for content_type, media_data in self.cfg.media_data.items():
+                if 'dat_file' in media_data:  # Otherwise, no segment durations are known
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(media_data, self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
@@ -366,7 +366,7 @@ class MpdProcessor(object):
                     if pdata.get('startNumber') == '-1':  # Default to 1
                         remove_attribs(seg_template, ['startNumber'])
 
-                    if self.segtimeline or self.segtimeline_nr:
+                    if (self.segtimeline or self.segtimeline_nr) and content_type in segtimeline_generators:
                         # add SegmentTimeline block in SegmentTemplate with timescale and window.
                         segtime_gen = segtimeline_generators[content_type]
                         now = self.mpd_proc_cfg['now']
-- 
2.43.0


From 7ef4eea4e1b88edb907ae4809c4201764aa3e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 14/67] fix: relate SegmentTimelines to the session limits,
 offset and start number

---
 dashlivesim/dashlib/configprocessor.py |  5 +++++
 dashlivesim/dashlib/mpdprocessor.py    | 19 +++++++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index a943be6..436ee49 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -238,6 +238,11 @@ class Config(object):
                          // self.seg_duration)
         return start_nr
 
+    @property
+    def first_number_on_media_timeline(self):
+        "Number of the segment at the start of the media timeline."
+        return 1 if self.start_nr == -1 else self.start_nr
+
     def adjusted_pto(self, pto, timescale):
         if self.timeoffset is not None:
             return pto + (self.availability_start_time_in_s -
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0d42501..398a3a7 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -372,18 +372,20 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
+                        if self.cfg.stop_time is not None:  # The whole session is available to the end
+                            now = min(now, self.cfg.stop_time)
                         start_time = max(ast + pdata['start_s'], now - tsbd)
                         if 'period_duration_s' in pdata:
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
-                        use_closest = False
-                        if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
-                            use_closest = True
+                        if self.cfg.media_presentation_duration is not None:
+                            end_time = min(end_time, ast + self.cfg.media_presentation_duration)
+                        use_closest = start_time == ast  # No segment before the first one of the session
+                        # The times are on the media timeline
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+                        start_time += media_time_at_ast - ast
+                        end_time += media_time_at_ast - ast
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest)
                         remove_attribs(seg_template, ['duration'])
@@ -400,7 +402,8 @@ class MpdProcessor(object):
                             # Set number to the first number listed
                             set_attribs(seg_template,
                                         ('startNumber',),
-                                        {'startNumber': segtime_gen.start_number})
+                                        {'startNumber': self.cfg.first_number_on_media_timeline +
+                                         segtime_gen.start_number})
                         seg_template.set('media', media_template)
                         seg_template.text = "\n"
                         seg_template.insert(0, seg_timeline)
-- 
2.43.0


From 596e243db9c0a0bf1e46866c4bb83f5332c6f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 15/67] fix: stop a session with default start number at the
 right segment

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 436ee49..16c5f20 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -255,6 +255,8 @@ class Config(object):
         if self.stop_time is None:
             return None
         start = self.adjusted_start_number
+        if start == -1:  # Default value is 1
+            start = 1
         return start + self.media_presentation_duration // self.seg_duration
 
 
-- 
2.43.0


From 567cbe3243e8ca0debf5b88a54bb78085c4daa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 16/67] fix: keep the headers of different responses apart

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..7a7d0d4 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -55,9 +55,10 @@ status_string = {
     }
 
 
-def start_reply(status_code, response, length=-1, headers={}):
+def start_reply(status_code, response, length=-1, headers=None):
     "Start reply by writing headers reply."
     status = "%d %s" % (status_code, status_string[status_code])
+    headers = dict(headers or {})
 
     # Add default headers to all requests
     headers['Accept-Ranges'] = 'bytes'
@@ -79,7 +80,7 @@ def start_reply(status_code, response, length=-1, headers={}):
     response(status, list(headers.items()))
 
 
-def full_reply(status_code, response, body=b"", headers={}):
+def full_reply(status_code, response, body=b"", headers=None):
     "A full reply including body and content-length."
     start_reply(status_code, response, len(body), headers)
     return [body]
-- 
2.43.0


From dc9296bd18cf3f95418a835052acac13a079362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 17/67] fix: ignore Range headers that are malformed or cannot
 be satisfied

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 7a7d0d4..7641a57 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -43,6 +44,8 @@ from dashlivesim import SERVER_AGENT
 
 MAX_SESSION_LENGTH = 0  # If non-zero,  limit sessions via redirect
 
+RANGE_PATTERN = re.compile(r"bytes=[ \t]*([0-9]*)-([0-9]*)[ \t]*$", re.IGNORECASE)
+
 # Helper for HTTP responses
 # pylint: disable=dangerous-default-value
 
@@ -243,29 +246,27 @@ def get_mime_type(ext):
 def handle_byte_range(payload, range_line):
     """Handle byte range and return data and range-header value.
     If range is strange, return empty string."""
-    range_parts = range_line.split("=")[-1]
-    ranges = range_parts.split(",")
-    if len(ranges) > 1:
-        return (payload, None)
+    # Only a single interval in the bytes unit is supported. Anything else is ignored.
+    match = RANGE_PATTERN.match(range_line)
+    if not match:
+        return (payload, "")
+    range_start, range_end = match.groups()
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
-    bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
         if range_end != "":
+            if int(range_end) < range_start:
+                return (payload, "")
             range_end = min(int(range_end), length-1)
         else:
             range_end = length-1
     else:
-        bad_range = True
+        return (payload, "")
     if range_end < range_start:
-        bad_range = True
-    if bad_range:
         return (payload, "")
     ranged_payload = payload[range_start: range_end+1]
     range_response = "bytes %d-%d/%d" % (range_start, range_end, len(payload))
-- 
2.43.0


From 68596a0ef9b9128f75cf2ec10f2590743d95aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:52 +0000
Subject: [PATCH 18/67] fix: serve thumbnails as image/jpeg

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 7641a57..7cf5cd6 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -239,6 +239,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From a1d888169ecb7e74612d9714cc5adcf548e47bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 19/67] fix: pace chunks relative to the availability start
 time

---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index db158e3..23f8f24 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -274,11 +274,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the time when the segment starts to be produced
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             # The duration in an inserted sidx may depend on the default sample duration in the init segment.
             trex_data = get_trex_data(dashProv, rel_path) if cfg.insert_sidx else None
-- 
2.43.0


From 913b9e71878ba66581ab9f2b6d83ff712560f0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 20/67] fix: deliver the last chunk no later than the end of
 the segment

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 7cf5cd6..0563ffc 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -222,7 +222,7 @@ def application(environment, start_response):
             margin = 0.1  # Make available 100ms before the formal time
             for i, chunk in enumerate(payload_out.chunks, start=1):
                 now_float = time()  # Update time
-                chunk_availability_time = seg_start + i * chunk_dur - margin
+                chunk_availability_time = seg_start + min(i * chunk_dur, cfg.seg_duration) - margin
                 time_until_available = chunk_availability_time - now_float
                 # print("%d time_until_available %.3f" % (i, time_until_available))
                 if time_until_available > 0:
-- 
2.43.0


From 8dad2652a3f221560caf2ca6dbafbb63b0b40cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 21/67] fix: keep the sync information of samples in chunks

---
 dashlivesim/dashlib/chunker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..f6a5abf 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,21 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if trun.has_sample_flags:
+            flags = int(entry['flags'], 16)
+        elif trun.has_first_sample_flags and i == 0:
+            flags = trun.first_sample_flags
+        else:
+            flags = default_sample_flags
+        sync = not flags & 0x00010000  # sample_is_non_sync_sample
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, sync, time_offset)
 
 
 def partition(samples, duration):
-- 
2.43.0


From d2f9005b74954cd55e97764b891a5cac98df602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 22/67] fix: refuse boxes that are too small instead of looping
 on them

---
 dashlivesim/dashlib/mediasegmentfilter.py | 3 +--
 dashlivesim/dashlib/mp4filter.py          | 6 ++++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..c7dab42 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -388,8 +388,7 @@ class MediaSegmentFilter(MP4Filter):
         pos = 0
         output = b""
         while pos < len(data):
-            size = str_to_uint32(data[pos:pos+4])
-            boxtype = data[pos+4:pos+8]
+            size, boxtype = self.check_box(data[pos:pos+8])
             if boxtype != b'mdat':
                 output += data[pos:pos+size]
             else:
diff --git a/dashlivesim/dashlib/mp4filter.py b/dashlivesim/dashlib/mp4filter.py
index 0b5d17e..6e392e3 100644
--- a/dashlivesim/dashlib/mp4filter.py
+++ b/dashlivesim/dashlib/mp4filter.py
@@ -39,6 +39,10 @@ class MP4FilterError(BaseException):
     "Error in MP4Filter or subclass."
 
 
+class MP4FilterError(Exception):
+    "Error in the MP4 structure."
+
+
 class MP4Filter(object):
     """Base class for filters.
 
@@ -66,6 +70,8 @@ class MP4Filter(object):
         "Check the type of box starting at position pos."
         size = str_to_uint32(data[:4])
         boxtype = data[4:8]
+        if size < 8:
+            raise MP4FilterError("Bad box size %d" % size)
         return (size, boxtype)
 
     def filter(self):
-- 
2.43.0


From 7f69e677bbf7388edf9f973061836d8d2a463d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 23/67] fix: write whole days as valid ISO 8601 durations

---
 dashlivesim/dashlib/timeformatconversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..55f7959 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -62,7 +62,8 @@ def seconds_to_iso_duration(nr_secs):
     period = "P"
     if days > 0:
         period += "%dD" % days
-    period += "T"
+    if period == "P" or rest > 0 or hours > 0:  # No T without a time after it
+        period += "T"
     if hours > 0:
         period += "%dH" % hours
     if minutes > 0:
-- 
2.43.0


From 730af29cc897d906b3bbb24fa161e48d4d4bfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 24/67] fix: give a Location also for a relative start without
 a relative stop

---
 dashlivesim/dashlib/mpdprocessor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 398a3a7..674955f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -183,10 +183,11 @@ class MpdProcessor(object):
                 self.insert_baseurl(mpd, pos, data['BaseURL'], ato, atc)
                 pos += 1
         if self.cfg and self.cfg.add_location and self.full_url is not None:
-            loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
-                             self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            loc_url = self.full_url
+            if self.cfg.start_time is not None:
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" % self.cfg.start_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" % self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 377bfa941070834eb4e9729daf1ec52a13727bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 25/67] fix: signal an infinite availabilityTimeOffset also in
 chunked mode

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..d48ab8c 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -100,7 +100,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From 84595115ba934165efecdb2f69d11119622cd319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 26/67] fix: accept a minimum update period of zero

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 16c5f20..5307af8 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -220,7 +220,7 @@ class Config(object):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
         if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
-            publish_time = quantize(now_int, self.minimum_update_period_in_s)
+            publish_time = quantize(now_int, self.minimum_update_period_in_s or 1)
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
         self.publish_time = publish_time
-- 
2.43.0


From 60ef4bcd24c49792621034012b3c5031304c794c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:50 +0000
Subject: [PATCH 27/67] fix: let thumbnails follow the stop time like media
 segments

---
 dashlivesim/dashlib/dash_proxy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 23f8f24..bb52ac3 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -359,6 +359,9 @@ def process_thumbnail(dashProv, now_float):
         seg_nr = int(seg_base)
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
         very_last_segment = seg_start_nr + cfg.last_segment_numbers[-1]
         if seg_nr > very_last_segment:
@@ -371,7 +374,9 @@ def process_thumbnail(dashProv, now_float):
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
             return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+        # If stop_number is not None, the manifest will become static
+        if ((now_float > seg_ast + seg_dur +
+                cfg.timeshift_buffer_depth_in_s) and not stop_number):
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
             return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-- 
2.43.0


From d1ae4f153059dd34dc48e960b9e4b14b1d5409e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 28/67] fix: give an empty SegmentTimeline before the session
 starts

---
 dashlivesim/dashlib/segtimeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index af4763f..d6df580 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -81,7 +81,7 @@ class SegmentTimeLineGenerator(object):
 
         (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
         if end_index is None:
-            raise SegmentTimeLineGeneratorError("No end_index for %d %d. Before AST" % (start_time, end_time))
+            (end_index, end_repeats, end_wraps) = (0, 0, 0)  # Before AST. Nothing has ended yet
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
 
-- 
2.43.0


From 48e3fcad82d9cecb079b0d5d47b17c78537c8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 29/67] fix: keep modulo session times integers

---
 dashlivesim/dashlib/moduloperiod.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/moduloperiod.py b/dashlivesim/dashlib/moduloperiod.py
index b8f5a57..4dbd48d 100644
--- a/dashlivesim/dashlib/moduloperiod.py
+++ b/dashlivesim/dashlib/moduloperiod.py
@@ -55,7 +55,7 @@ class ModuloPeriod(object):
         self.now = now
         self.percent = self.calc_percent()
         self._availability_start_time = self.calc_availability_start_time()
-        self._minimum_update_period = self.mod_secs/20
+        self._minimum_update_period = self.mod_secs//20
         self._media_presentation_duration = self.calc_media_pres_dur()
         self._availability_end_time = (self._availability_start_time + self._media_presentation_duration +
                                        self._minimum_update_period)
@@ -95,15 +95,15 @@ class ModuloPeriod(object):
     def calc_media_pres_dur(self):
         "Calculate the media presentation duration."
         if self.percent < 10:
-            mpd = 2*self.mod_secs/10
+            mpd = 2*self.mod_secs//10
         elif self.percent < 30:
-            mpd = 4*self.mod_secs/10
+            mpd = 4*self.mod_secs//10
         elif self.percent < 50:
-            mpd = 6*self.mod_secs/10
+            mpd = 6*self.mod_secs//10
         elif self.percent < 90:
-            mpd = 8*self.mod_secs/10
+            mpd = 8*self.mod_secs//10
         else:
-            mpd = 2*self.mod_secs/10  # This is in the next period
+            mpd = 2*self.mod_secs//10  # This is in the next period
         return mpd
 
     def get_start_number(self, segment_duration):
-- 
2.43.0


From e6029cddd51d2a77c8de1976648ac5c87045e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 30/67] fix: relate Periods to availability start time, start
 number and time offset

---
 dashlivesim/dashlib/mpd_proxy.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index d48ab8c..21b0e52 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -208,6 +208,8 @@ def generate_period_data(mpd_data, now, cfg):
         raise Exception("Bad nr of periods per hour %d" % nr_periods_per_hour)
 
     seg_dur = mpd_data['segDuration']
+    first_number = 1 if mpd_data['startNumber'] == -1 else mpd_data['startNumber']  # -1 is default value
+    media_time_at_ast = mpd_data['presentationTimeOffset']
     period_data = []
     ad_frequency = -1
     if mpd_data['insertAd'] > 0:
@@ -222,8 +224,8 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (first_number + start // seg_dur),
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (media_time_at_ast + start), 'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
@@ -233,16 +235,17 @@ def generate_period_data(mpd_data, now, cfg):
             minimum_update_period_s = cfg.seg_duration
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
+        since_ast = now - mpd_data['availability_start_time_in_s']  # Period start is relative to AST
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        last_period_nr = max((since_ast + half_period_duration) // period_duration, 0)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max((since_ast - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration, 0)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'startNumber': "%d" % (first_number + start_time//seg_dur), 'duration': seg_dur,
+                    'presentationTimeOffset': media_time_at_ast + start_time,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From a8e23b2895a5631de329f43904da0973672297d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 31/67] fix: list no Period beyond the end of a limited session

---
 dashlivesim/dashlib/mpd_proxy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 21b0e52..6ef26bd 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -236,10 +236,15 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         since_ast = now - mpd_data['availability_start_time_in_s']  # Period start is relative to AST
+        if cfg.stop_time is not None:  # The whole session is available to the end
+            since_ast = min(since_ast, cfg.media_presentation_duration)
         # this_period_nr = now // period_duration
         last_period_nr = max((since_ast + half_period_duration) // period_duration, 0)
         # this_period_start = this_period_nr * period_duration
         first_period_nr = max((since_ast - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration, 0)
+        if cfg.media_presentation_duration is not None:  # No Period beyond the end
+            last_period_nr = min(last_period_nr, max(cfg.media_presentation_duration - 1, 0) // period_duration)
+            first_period_nr = min(first_period_nr, last_period_nr)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
-- 
2.43.0


From 38dfa7b7cf46b9baef21844ac553f539387ebec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 32/67] fix: announce the time-shift buffer of sessions with a
 limited duration

---
 dashlivesim/dashlib/mpdprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 674955f..d8ba399 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -119,8 +119,8 @@ class MpdProcessor(object):
                     'mediaPresentationDuration', 'suggestedPresentationDelay']
         if mpd_data.get('type', 'dynamic') == 'static':
             key_list.remove('minimumUpdatePeriod')
-        if (mpd_data.get('type', 'dynamic') == 'static' or mpd_data.get('mediaPresentationDuration')):
-            key_list.remove('timeShiftBufferDepth')
+        if mpd_data.get('type', 'dynamic') == 'static' or (self.cfg and self.cfg.stop_time is not None):
+            key_list.remove('timeShiftBufferDepth')  # Everything is available
         set_values_from_dict(mpd, key_list, mpd_data)
         if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
             del mpd.attrib['mediaPresentationDuration']
-- 
2.43.0


From b881369a54cc24e1b76647910c174bd95872264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 33/67] fix: build the addresses of multiple BaseURLs without
 empty parts

---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index d8ba399..73e41af 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -173,7 +173,7 @@ class MpdProcessor(object):
                     key, _ = cfg_parts
                     if key == "baseurl":
                         url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                url_parts = [p for p in url_parts if p]
                 for url in data['urls']:
                     url_parts.insert(-1, "baseurl_" + url)
                     self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-- 
2.43.0


From 0343f9e5331d278f159852e8c333cbed80886140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:20 +0000
Subject: [PATCH 34/67] fix: produce no empty chunk for durations below one
 tick

---
 dashlivesim/dashlib/chunker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index f6a5abf..6c2d3f0 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -76,7 +76,7 @@ def partition(samples, duration):
     d0, d1 = 0, duration
     part = []
     for sample in samples:
-        if d0 >= d1:
+        if part and d0 >= d1:
             d1 += duration
             yield part
             part = []
-- 
2.43.0


From 99604b418c1cde5eb198d5c0c0ef530168e121f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 35/67] fix: find xlink Periods by their id attribute

---
 dashlivesim/dashlib/mpd_proxy.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 6ef26bd..949cd86 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+from re import escape, findall, search
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -138,7 +138,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -185,7 +185,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
@@ -300,6 +300,14 @@ def generate_period_data(mpd_data, now, cfg):
     return period_data
 
 
+def find_period(response, period_id):
+    "Find the start of the Period with a given id in an MPD."
+    match = search('<Period [^>]*\\bid="%s"' % escape(period_id), response)
+    if match is None:
+        raise Exception("No Period %s" % period_id)
+    return match.start()
+
+
 def insert_asset_identifier(response, start_pos_period):
     ad_pos = response.find(">", start_pos_period) + 1
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
-- 
2.43.0


From 2154a0928459c483e1460304e2d8e3e5c2f49023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 36/67] fix: support xlink and MPD callback also without a
 plain BaseURL

---
 dashlivesim/dashlib/mpd_proxy.py    | 3 ++-
 dashlivesim/dashlib/mpdprocessor.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 949cd86..00a2f82 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -134,7 +134,8 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        base_url = (findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response) or
+                    findall('<Location>([^<]*/)[^<]*</Location>', response))
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 73e41af..825d500 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -316,8 +316,9 @@ class MpdProcessor(object):
                     segtimeline_generators[content_type] = SegmentTimeLineGenerator(media_data, self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
-        if len(BaseURL) > 0:
-            BaseURLParts = BaseURL[0].text.split('/')
+        base_url = BaseURL[0].text if len(BaseURL) > 0 else self.full_url
+        if base_url:
+            BaseURLParts = base_url.split('/')
             if len(BaseURLParts) > 3:
                 BaseURLSegmented = BaseURLParts[0] + '//' + BaseURLParts[2] + '/' + BaseURLParts[3] + '/mpdcallback/'
         # From the Base URL
-- 
2.43.0


From a077c55f1741ca98affe64fdad3088e40e9b102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:07 +0000
Subject: [PATCH 37/67] fix: keep segment type and events in chunked segments

---
 dashlivesim/dashlib/chunker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 6c2d3f0..b668b44 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -104,9 +104,12 @@ def chunk(data, duration, trex_box):
                                track_id,
                                decode_fragment(data, trex_box),
                                duration)
+    # The segment type and the events come before the first fragment
+    header = b"".join(box.raw_data for box in root.children if box.type in (b'styp', b'emsg'))
     chunks = []
     for moof, mdat in fragments:
-        chunks.append(moof.serialize() + mdat.serialize())
+        chunks.append(header + moof.serialize() + mdat.serialize())
+        header = b""
     return chunks
 
 
-- 
2.43.0


From 475f5c9a8d4cd69aa3b1c1c7f8495abe60f91fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:54 +0000
Subject: [PATCH 38/67] fix: refuse inconsistent segment data instead of
 looping or listing wrong times

---
 dashlivesim/dashlib/segtimeline.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index d6df580..703beae 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -66,6 +66,19 @@ class SegmentTimeLineGenerator(object):
         self.nr_segments_per_wrap = cfg.vod_nr_segments_in_loop
         self.first_segment_number = cfg.vod_first_segment_in_loop
         self.start_number = None
+        self.check_segtimedata(dat_file)
+
+    def check_segtimedata(self, dat_file):
+        "Check that the data describes consecutive segments covering the loop."
+        number = self.first_segment_number
+        time = None
+        for ste in self.segtimedata:
+            if ste.duration <= 0 or ste.start_nr != number or (time is not None and ste.start_time != time):
+                raise SegmentTimeLineGeneratorError("Bad segment data in %s" % dat_file)
+            number += ste.repeats + 1
+            time = ste.start_time + (ste.repeats + 1) * ste.duration
+        if number < self.first_segment_number + self.nr_segments_per_wrap:
+            raise SegmentTimeLineGeneratorError("Not all segments of the loop in %s" % dat_file)
 
     def create_segtimeline(self, start_time, end_time, use_closest=False):
         "Create and insert a new <SegmentTimeline> element and S entries."
-- 
2.43.0


From aa7f74d51d097c391661d9fcdc27f3320376505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 39/67] fix: announce all BaseURLs and the
 availabilityTimeOffset also when the VoD MPD has a BaseURL

---
 dashlivesim/dashlib/mpdprocessor.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 825d500..2d82635 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -150,17 +150,13 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
+        for child in children:  # Any BaseURL of the VoD asset is replaced
+            if child.tag == add_ns('BaseURL'):
+                self.root.remove(child)
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -222,10 +218,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From 57fe116e51a9c70e5d9affaddcbb4e316f88d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 40/67] fix: place SCTE-35 splices on the media timeline also
 with a start number or time offset

---
 dashlivesim/dashlib/dash_proxy.py         | 13 +++++++------
 dashlivesim/dashlib/mediasegmentfilter.py |  8 ++++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index bb52ac3..69575c5 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -273,7 +273,7 @@ def process_media_segment(dashProv, now_float, chunk):
         if chunk:
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg, trex_data)
+                                               offset_at_loop_start, lmsg, seg_time, trex_data)
             # Here we shall return the time when the segment starts to be produced
             # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
@@ -283,16 +283,16 @@ def process_media_segment(dashProv, now_float, chunk):
             # The duration in an inserted sidx may depend on the default sample duration in the init segment.
             trex_data = get_trex_data(dashProv, rel_path) if cfg.insert_sidx else None
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
-                                               offset_at_loop_start, lmsg, trex_data)
+                                               offset_at_loop_start, lmsg, seg_time, trex_data)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
         rel_path1 = "/".join(common_path_parts + [cfg.reps[0]['id']])
         rel_path2 = "/".join(common_path_parts + [cfg.reps[1]['id']])
         seg1 = filter_media_segment(dashProv, cfg.reps[0], rel_path1, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time)
         seg2 = filter_media_segment(dashProv, cfg.reps[1], rel_path2, vod_nr, seg_nr, seg_ext,
-                                    offset_at_loop_start, lmsg)
+                                    offset_at_loop_start, lmsg, seg_time)
         muxed = segmentmuxer.MultiplexMediaSegments(data1=seg1, data2=seg2)
         seg_content = muxed.mux_on_sample_level()
     return seg_content
@@ -308,7 +308,8 @@ def get_trex_data(dashProv, rel_path):
 
 
 # pylint: disable=too-many-arguments
-def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, trex_data=None):
+def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offset_at_loop_start, lmsg, seg_time,
+                         trex_data=None):
     "Filter an actual media segment by using time-scale from init segment."
     cfg = dashProv.cfg
     media_seg_file = join(dashProv.content_dir, cfg.content_name, rel_path, "%d%s" % (vod_nr, seg_ext))
@@ -321,7 +322,7 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
                                     is_ttml,
                                     default_sample_duration,
                                     insert_sidx=cfg.insert_sidx, emsg_last_seg=cfg.emsg_last_seg,
-                                    now=dashProv.now)
+                                    now=dashProv.now, seg_time=seg_time)
     seg_content = seg_filter.filter()
     dashProv.new_tfdt_value = seg_filter.get_tfdt_value()  # Why set this in dashProv?? TODO
     return seg_content
diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index c7dab42..d8df015 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -52,7 +52,8 @@ class MediaSegmentFilter(MP4Filter):
     # pylint: disable=too-many-instance-attributes, too-many-arguments
     def __init__(self, file_name, seg_nr=None, seg_duration=1, offset=0, lmsg=False, track_timescale=None,
                  scte35_per_minute=0, rel_path=None, is_ttml=False,
-                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False):
+                 default_sample_duration=None, insert_sidx=False, emsg_last_seg=False, now=False,
+                 seg_time=None):
         MP4Filter.__init__(self, file_name)
         self.top_level_boxes_to_parse = [b'styp', b'sidx', b'moof', b'mdat']
         self.composite_boxes_to_parse = [b'moof', b'traf']
@@ -73,6 +74,7 @@ class MediaSegmentFilter(MP4Filter):
         self.ttml_size = None
         self.emsg_last_seg = emsg_last_seg
         self.now = now
+        self.seg_time = seg_time  # Start on the media timeline in seconds, by default given by seg_nr
         if self.is_ttml:
             self.data = self.find_and_process_mdat(self.data)
 
@@ -351,7 +353,9 @@ class MediaSegmentFilter(MP4Filter):
         ad_duration = 10
         if self.scte35_per_minute < 1 or self.scte35_per_minute > 8:
             return b""
-        seg_starttime = self.seg_nr*self.seg_duration  # StartTime in seconds
+        seg_starttime = self.seg_time  # StartTime in seconds
+        if seg_starttime is None:
+            seg_starttime = self.seg_nr*self.seg_duration
         sec_modulo_minute = seg_starttime % 60
         minute_start = seg_starttime - sec_modulo_minute
         splice_insert_times = [minute_start + 10]
-- 
2.43.0


From 188c1169646b49a45b7f5dc0e2ba6fefb1450cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 41/67] fix: announce the first SCTE-35 splice of a minute in
 segments that start in the previous one

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index d8df015..36e6322 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -367,6 +367,8 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        # The segment may also cover the announcement of the first splice of the next minute
+        splice_insert_times.append(minute_start + 60 + 10)
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 4c65b9fb163aa392534307eec4bf8775307e13e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:15 +0000
Subject: [PATCH 42/67] fix: announce every SCTE-35 splice that a long segment
 has to announce

---
 dashlivesim/dashlib/mediasegmentfilter.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index 36e6322..dadb80a 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -342,7 +342,7 @@ class MediaSegmentFilter(MP4Filter):
         return self.duration
 
     def create_scte35box(self):
-        """Create an Scte35 emsg box if at the right instance.
+        """Create the Scte35 emsg boxes due in this segment, if any.
 
         Depending on scte35_per_minute, the splice inserts are as follows::
         1: 10s after full minute
@@ -369,25 +369,18 @@ class MediaSegmentFilter(MP4Filter):
             ad_duration = 20
         # The segment may also cover the announcement of the first splice of the next minute
         splice_insert_times.append(minute_start + 60 + 10)
-        found_splice_time = -1
-        splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
+        timescale = 90000  # Timescale
+        output = b""
         for splice_time in splice_insert_times:
             # Assume that there are events 8s and 6s before the actual splice
             for pre_warning_time in (splice_time - 6, splice_time-8):
                 if seg_starttime <= pre_warning_time <= seg_endtime:
-                    found_splice_time = splice_time
+                    emsg_id = splice_id = splice_time//10
+                    output += scte35.create_scte35_emsg(timescale, seg_starttime*timescale, splice_time*timescale,
+                                                        ad_duration*timescale, emsg_id, splice_id)
                     break
-            if found_splice_time >= 0:
-                break
-        if found_splice_time < 0:
-            return b""  # Nothing for this segment
-        timescale = 90000  # Timescale
-        emsg_id = splice_id = splice_time//10
-        emsg = scte35.create_scte35_emsg(timescale, seg_starttime*timescale, found_splice_time*timescale,
-                                         ad_duration*timescale, emsg_id, splice_id)
-        # print "Made scte35 emsg %d" % len(emsg)
-        return emsg
+        return output
 
     def find_and_process_mdat(self, data):
         "Change the ttml part of mdat and update mdat size. Return full new data."
-- 
2.43.0


From db3315ff05f147d2facd8078ee8e8ea416efbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 43/67] fix: find the timescale in a version 1 mdhd box

---
 dashlivesim/dashlib/initsegmentfilter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..78a53d3 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,11 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        version = data[8]
+        if version == 1:
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From c530d5ddda4f5f0c4b7d519789538ea07b5fd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 44/67] fix: refuse segment data for more segments than the
 loop has

---
 dashlivesim/dashlib/segtimeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 703beae..4676a9e 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -77,8 +77,8 @@ class SegmentTimeLineGenerator(object):
                 raise SegmentTimeLineGeneratorError("Bad segment data in %s" % dat_file)
             number += ste.repeats + 1
             time = ste.start_time + (ste.repeats + 1) * ste.duration
-        if number < self.first_segment_number + self.nr_segments_per_wrap:
-            raise SegmentTimeLineGeneratorError("Not all segments of the loop in %s" % dat_file)
+        if number != self.first_segment_number + self.nr_segments_per_wrap:
+            raise SegmentTimeLineGeneratorError("Not exactly the segments of the loop in %s" % dat_file)
 
     def create_segtimeline(self, start_time, end_time, use_closest=False):
         "Create and insert a new <SegmentTimeline> element and S entries."
-- 
2.43.0


From b9765183b4281505d8ad67a4b27e874d1f5105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 45/67] fix: let the VoD analyzer write files that fit together

The index files covered all segments of each medium, not the ones of the
common loop, Representations other than the first did not limit the loop,
a segment that could not be accessed silently ended it, and a failure left
the old configuration beside partly written index files.
---
 dashlivesim/dashlib/configprocessor.py  |  17 ++-
 dashlivesim/vodanalyzer/dashanalyzer.py | 146 ++++++++++++------------
 2 files changed, 87 insertions(+), 76 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 5307af8..991828e 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -30,6 +30,8 @@
 #  POSSIBILITY OF SUCH DAMAGE.
 
 
+import io
+import os
 from os.path import join, splitext
 from collections import namedtuple
 import configparser
@@ -260,6 +262,16 @@ class Config(object):
         return start + self.media_presentation_duration // self.seg_duration
 
 
+def replace_file(path, data):
+    "Write data to a file in such a way that the file is never incomplete."
+    tmp_path = path + ".tmp"
+    with open(tmp_path, "wb") as ofh:
+        ofh.write(data)
+        ofh.flush()
+        os.fsync(ofh.fileno())
+    os.replace(tmp_path, path)
+
+
 class VodConfig(object):
     "Configuration of the actual content."
 
@@ -332,8 +344,9 @@ class VodConfig(object):
                 config.set(content_type, 'timescale', mdata['timescale'])
                 config.set(content_type, 'total_duration', mdata['totalDuration'])
                 config.set(content_type, 'dat_file', mdata['datFile'])
-        with open(config_file, 'w') as cfg_file:
-            config.write(cfg_file)
+        cfg_file = io.StringIO()
+        config.write(cfg_file)
+        replace_file(config_file, cfg_file.getvalue().encode('utf-8'))
 
     def content_type_for_rep(self, representation):
         "Find the ContentType for a representation."
diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..a438f67 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -84,6 +84,12 @@ class DashAnalyzer(object):
     def analyze(self):
         self.initMedia()
         self.checkAndUpdateMediaData()
+        # There shall never be a config file that does not match the dat files
+        try:
+            os.remove(self.config_filename)
+        except FileNotFoundError:
+            pass
+        self.write_dat_files()
         self.write_config(self.config_filename)
 
     def initMedia(self):
@@ -151,11 +157,6 @@ class DashAnalyzer(object):
 
         print("Checking all the media segment durations for deviations.")
 
-        def writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount):
-            data = pack(configprocessor.SEGTIMEFORMAT, firstSegmentInRepeat, repeatCount,
-                        firstStartTimeInRepeat, duration)
-            ofh.write(data)
-
         for content_type in self.as_data.keys():
             as_data = self.as_data[content_type]
             as_data['datFile'] = "%s_%s.dat" % (self.base_name, content_type)
@@ -168,84 +169,81 @@ class DashAnalyzer(object):
 
             track_timescale = as_data['track_timescale']
 
-            with open(as_data['datFile'], "wb") as ofh:
-                for (rep_nr, rep_data) in enumerate(as_data['reps']):
-                    rep_id = rep_data['id']
-                    rep_data['endNr'] = None
-                    rep_data['startTick'] = None
-                    rep_data['endTick'] = None
-                    if self.firstSegmentInLoop >= 0:
-                        assert rep_data['firstNumber'] == self.firstSegmentInLoop
-                    else:
-                        self.firstSegmentInLoop = rep_data['firstNumber']
-                    if self.mpdSegStartNr >= 0:
-                        assert adaptation_set.start_number == self.mpdSegStartNr
-                    else:
-                        self.mpdSegStartNr = adaptation_set.start_number
-                    segTicks = self.segDuration*track_timescale
-                    maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
-                    segNr = rep_data['firstNumber']
-                    repeatCount = -1
-                    firstSegmentInRepeat = -1
-                    firstStartTimeInRepeat = -1
-                    lastDuration = 0
-                    while (True):
-                        segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
-                            if self.verbose:
-                                print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
-                                      rep_id, rep_data['endNr'], rep_data['endTime'],
-                                      rep_data['endTime']-rep_data['startTime']))
-                            break
-                        msf = mediasegmentfilter.MediaSegmentFilter(
-                            segmentPath, default_sample_duration = rep_data[
-                                'default_sample_duration'])
-                        msf.filter()
-                        tfdt = msf.get_tfdt_value()
-                        duration = msf.get_duration()
-                        print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
-                            repeatCount += 1
-                        else:
-                            if lastDuration != 0 and rep_nr == 0:
-                                writeSegTiming(ofh, firstSegmentInRepeat,
-                                               firstStartTimeInRepeat,
-                                               lastDuration, repeatCount)
-                            repeatCount = 0
-                            lastDuration = duration
-                            firstSegmentInRepeat = segNr
-                            firstStartTimeInRepeat = tfdt
-                        if rep_data['startTick'] is None:
-                            rep_data['startTick'] = tfdt
-                            rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
-                            print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
-                                                                                     rep_data['startTime']))
-                        # Check that there is not too much drift. We want to end with at most maxDiffInTicks
-                        endTick = tfdt + duration
-                        idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
-                        absDiffInTicks = abs(idealTicks - endTick)
-                        if absDiffInTicks < maxDiffInTicks:
-                            # This is a good wrap point
-                            rep_data['endTick'] = tfdt + duration
-                            rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
-                            rep_data['endNr'] = segNr
-                        else:
-                            raise DashAnalyzerError("Too much drift in the duration of the segments")
-                        segNr += 1
-                        if self.verbose:
-                            sys.stdout.write(".")
+            as_data['segments'] = []  # Number, start and duration of the segments of the first representation
+            for (rep_nr, rep_data) in enumerate(as_data['reps']):
+                rep_id = rep_data['id']
+                rep_data['endNr'] = None
+                rep_data['startTick'] = None
+                rep_data['endTick'] = None
+                if self.firstSegmentInLoop >= 0:
+                    assert rep_data['firstNumber'] == self.firstSegmentInLoop
+                else:
+                    self.firstSegmentInLoop = rep_data['firstNumber']
+                if self.mpdSegStartNr >= 0:
+                    assert adaptation_set.start_number == self.mpdSegStartNr
+                else:
+                    self.mpdSegStartNr = adaptation_set.start_number
+                segTicks = self.segDuration*track_timescale
+                maxDiffInTicks = int(track_timescale*0.1) # Max 100ms
+                for segNr in range(rep_data['firstNumber'], rep_data['lastNumber'] + 1):
+                    segmentPath = rep_data['absMediaPath'] % segNr
+                    msf = mediasegmentfilter.MediaSegmentFilter(
+                        segmentPath, default_sample_duration = rep_data[
+                            'default_sample_duration'])
+                    msf.filter()
+                    tfdt = msf.get_tfdt_value()
+                    duration = msf.get_duration()
+                    print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
                     if rep_nr == 0:
-                        writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount)
-                        lastGoodSegments.append(rep_data['endNr'])
-                        as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']
+                        as_data['segments'].append((segNr, tfdt, duration))
+                    if rep_data['startTick'] is None:
+                        rep_data['startTick'] = tfdt
+                        rep_data['startTime'] = rep_data['startTick']/float(track_timescale)
+                        print("First %s segment is %d starting at time %.3fs" % (rep_id, segNr,
+                                                                                 rep_data['startTime']))
+                    # Check that there is not too much drift. We want to end with at most maxDiffInTicks
+                    endTick = tfdt + duration
+                    idealTicks = (segNr - rep_data['firstNumber'] + 1)*segTicks + rep_data['startTick']
+                    absDiffInTicks = abs(idealTicks - endTick)
+                    if absDiffInTicks < maxDiffInTicks:
+                        # This is a good wrap point
+                        rep_data['endTick'] = tfdt + duration
+                        rep_data['endTime'] = rep_data['endTick']/float(track_timescale)
+                        rep_data['endNr'] = segNr
+                    else:
+                        raise DashAnalyzerError("Too much drift in the duration of the segments")
+                    if self.verbose:
+                        sys.stdout.write(".")
+                if self.verbose:
+                    print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
+                          rep_id, rep_data['endNr'], rep_data['endTime'],
+                          rep_data['endTime']-rep_data['startTime']))
+                lastGoodSegments.append(rep_data['endNr'])
         self.lastSegmentInLoop = min(lastGoodSegments)
         self.nrSegmentsInLoop = self.lastSegmentInLoop-self.firstSegmentInLoop+1
         self.loopTime = self.nrSegmentsInLoop*self.segDuration
+        for as_data in self.as_data.values():
+            # All media loop over the same segments
+            as_data['segments'] = as_data['segments'][:self.nrSegmentsInLoop]
+            (_, startTick, _), (_, lastTick, lastDuration) = as_data['segments'][0], as_data['segments'][-1]
+            as_data['totalTicks'] = lastTick + lastDuration - startTick
         if self.verbose:
             print("")
         print("Will loop segments %d-%d with loop time %ds" % (self.firstSegmentInLoop, self.lastSegmentInLoop,
                                                                self.loopTime))
 
+    def write_dat_files(self):
+        """Write the timing of the segments in the loop, with one entry for each run of equally long segments."""
+        for as_data in self.as_data.values():
+            runs = []
+            for (segNr, startTime, duration) in as_data['segments']:
+                if len(runs) > 0 and runs[-1][3] == duration:
+                    runs[-1][1] += 1
+                else:
+                    runs.append([segNr, 0, startTime, duration])
+            data = b"".join([pack(configprocessor.SEGTIMEFORMAT, *run) for run in runs])
+            configprocessor.replace_file(as_data['datFile'], data)
+
     def write_config(self, config_file):
         """Write a config file for the analyzed content, that can then be used to serve it efficiently."""
         cfg_data = {'version' : '1.1', 'first_segment_in_loop' : self.firstSegmentInLoop,
-- 
2.43.0


From 188d7fd6f3a364600a2d0bcea453f523eba32a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 46/67] fix: find the timescale of Representations in
 sub-directories

---
 dashlivesim/dashlib/dash_proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 69575c5..d15acf2 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -217,7 +217,7 @@ def process_media_segment(dashProv, now_float, chunk):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
@@ -338,7 +338,7 @@ def process_thumbnail(dashProv, now_float):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
-- 
2.43.0


From 9fdc2374a7f5126bced8bd08876d21552a18cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 47/67] fix: multiplex encrypted segments and segments without
 styp box

---
 dashlivesim/dashlib/segmentmuxer.py | 35 +++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..de48869 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -31,7 +31,7 @@
 #  POSSIBILITY OF SUCH DAMAGE.
 
 from dashlivesim.dashlib.mp4filter import MP4Filter
-from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32
+from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str, str_to_uint64
 
 
 class InitSegmentStructure(MP4Filter):
@@ -130,6 +130,8 @@ class MediaSegmentStructure(MP4Filter):
         self.trun_data_offset = None
         self.trun_data_offset_in_traf = None
         self.traf_start = None
+        self.saio_offsets = []  # (position in traf, nr bytes, offset relative to moof)
+        self.moof_start = None
         self.styp = None
         self.mfhd = None
         self.traf = None
@@ -144,12 +146,26 @@ class MediaSegmentStructure(MP4Filter):
             self.trun_data_offset = str_to_uint32(data[16:20])
             self.trun_data_offset_in_traf = pos + 16 - self.traf_start
 
+    def parse_saio(self, data, pos):
+        "Parse saio box and find the offsets of the auxiliary information and their positions."
+        version = data[8]
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        field = 12 + (8 if flags & 1 else 0)
+        entry_count = str_to_uint32(data[field:field+4])
+        field += 4
+        size = 4 if version == 0 else 8
+        for _ in range(entry_count):
+            offset = str_to_uint32(data[field:field+4]) if size == 4 else str_to_uint64(data[field:field+8])
+            self.saio_offsets.append((pos + field - self.traf_start, size, offset))
+            field += size
+
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
         if boxtype == b"styp":
             self.styp = data
         elif boxtype == b"moof":
             self.moof = data
+            self.moof_start = file_pos
         elif boxtype == b"mdat":
             self.mdat = data
         elif boxtype == b"mfhd":
@@ -159,6 +175,8 @@ class MediaSegmentStructure(MP4Filter):
             self.traf_start = file_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
+        elif boxtype == b"saio":
+            self.parse_saio(data, file_pos)
         if path == b"":
             path = boxtype
         else:
@@ -209,16 +227,29 @@ class MultiplexMediaSegments(object):
             offset = mstruct.trun_data_offset_in_traf
             return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
 
+        def move_aux_offsets(mstruct, traf, new_traf_start, delta_offset):
+            "Get a traf box with offsets of auxiliary information (in the traf or after the moof) that follow the data."
+            delta_traf = new_traf_start - (mstruct.traf_start - mstruct.moof_start)
+            for pos, size, offset in mstruct.saio_offsets:
+                offset += delta_traf if offset < len(mstruct.moof) else delta_offset
+                value = uint32_to_str(offset) if size == 4 else uint64_to_str(offset)
+                traf = traf[:pos] + value + traf[pos+size:]
+            return traf
+
         delta_offset1 = len(self.mstruct2.traf)
         delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
         traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
         traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
+        traf1_start = 8 + len(self.mstruct1.mfhd)
+        traf1 = move_aux_offsets(self.mstruct1, traf1, traf1_start, delta_offset1)
+        traf2 = move_aux_offsets(self.mstruct2, traf2, traf1_start + len(traf1), delta_offset2)
 
         moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-        data.append(self.mstruct1.styp)
+        if self.mstruct1.styp is not None:
+            data.append(self.mstruct1.styp)
         data.append(uint32_to_str(moof_size))
         data.append(b'moof')
         data.append(self.mstruct1.mfhd)
-- 
2.43.0


From bd959acbe731319bdd296a3b0cc31fe9c3749329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 48/67] fix: relate the producer reference time to the start of
 the session

---
 dashlivesim/dashlib/mpdprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 2d82635..0c8951b 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -251,7 +251,9 @@ class MpdProcessor(object):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
-        prt_elem.set("wallClockTime", "1970-01-01T00:00:00")
+        # The start of the media timeline is produced at that distance from the availability start time
+        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+        prt_elem.set("wallClockTime", make_timestamp(self.availability_start_time_in_s - media_time_at_ast))
         prt_elem.set("presentationTime", "0")
         utc_elem = self.create_descriptor_elem('UTCTiming', 'urn:mpeg:dash:utc:http-iso:2014',
                                                UTC_TIMING_HTTP_SERVER)
-- 
2.43.0


From d00c54da7a40080d515db96267b9e46c0c826a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 49/67] fix: refuse the service when the VoD configuration
 cannot be read completely

---
 dashlivesim/dashlib/configprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 991828e..7ceab8d 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -288,7 +288,8 @@ class VodConfig(object):
     def read_config(self, config_file):
         "Read VoD config data."
         config = configparser.RawConfigParser()
-        config.read(config_file)
+        with open(config_file) as ifh:  # config.read() would go on with a part of the file after an error
+            config.read_file(ifh)
         version = config.get('General', 'version')
         if version not in self.good_versions:
             raise ConfigProcessorError("Bad config file version: %s (should be in %s)" %
-- 
2.43.0


From 0a297d8b081e40eb1ce2c14ae80ebc065e8390c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 50/67] fix: keep sessions with durations when start is pinned
 by Location

---
 dashlivesim/dashlib/configprocessor.py | 3 +++
 dashlivesim/dashlib/mpdprocessor.py    | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 7ceab8d..5c4e9dd 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -110,6 +110,7 @@ class Config(object):
         self.vod_wrap_seconds = None
         self.add_location = False
         self.start_time = None
+        self.location_start_time = None  # Start time for Location
         self.stop_time = None
         self.timeoffset = None
         self.insert_sidx = False
@@ -194,6 +195,8 @@ class Config(object):
         "Process start_time and durations and set appropriate values."
         self.availability_start_time_in_s = quantize(start_time, self.seg_duration)
         self.start_time = self.availability_start_time_in_s
+        # Durations count from the exact start time
+        self.location_start_time = start_time if durations else self.start_time
         if self.minimum_update_period_in_s is None:
             self.minimum_update_period_in_s = DEFAULT_SHORT_MINIMUM_UPDATE_PERIOD_IN_S
         if len(durations) > 0:
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0c8951b..cce4c8f 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -181,7 +181,7 @@ class MpdProcessor(object):
         if self.cfg and self.cfg.add_location and self.full_url is not None:
             loc_url = self.full_url
             if self.cfg.start_time is not None:
-                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" % self.cfg.start_time, loc_url)
+                loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" % self.cfg.location_start_time, loc_url)
             if self.cfg.stop_time is not None:
                 loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" % self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
-- 
2.43.0


From 8e753ee3194cd7269ddcc23451ba8ec09803bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 51/67] fix: refuse paths that lead out of the content

---
 dashlivesim/dashlib/configprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 5c4e9dd..24250d7 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -124,9 +124,11 @@ class Config(object):
 
     def update_with_filedata(self, url_parts, url_pos):
         "Find the content_name, file_name, and representations (if muxed as signalled by MUX_DIVIDER)."
+        if ".." in url_parts:
+            raise ConfigProcessorError("Parts of the URL must not lead out of the content")
         self.content_name = url_parts[url_pos]
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
-        rel_path_parts = url_parts[url_pos+1:-1]
+        rel_path_parts = [p for p in url_parts[url_pos+1:-1] if p]  # A leading empty part would make it absolute
         self.rel_path = "/".join(rel_path_parts)
         self.filename = url_parts[-1]
         self.ext = splitext(self.filename)[1]
-- 
2.43.0


From eacfe9f3e8d4cc7ae2dbe43fcfb1a831ba168e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 52/67] fix: answer requests whose path starts with two slashes

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 0563ffc..44a4bcc 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -94,7 +94,7 @@ def application(environment, start_response):
     "WSGI Entrypoint"
 
     hostname = environment['HTTP_HOST']
-    url = urlparse(environment['REQUEST_URI'])
+    url = urlparse(re.sub("^/+", "/", environment['REQUEST_URI']))  # A path only, so there is no host after //
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
     is_https = environment.get('wsgi.url_scheme', False) and environment['wsgi.url_scheme'] == 'https'
-- 
2.43.0


From 708118cee303f3ed854c95f2b61d8aa2be8a38d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 53/67] fix: insert captions into segments with default
 durations, first sample flags or an index

---
 dashlivesim/cc_inserter/cc_inserter.py | 33 ++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..35917ea 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -95,7 +95,7 @@ def generate_data(scc_data, field=1):
 
 class CCInsertFilter(MP4Filter):
     """CC Insert filter"""
-    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field):
+    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field, default_sample_duration=0):
         MP4Filter.__init__(self, segmentFile)
         self.top_level_boxes_to_parse = [b"styp", b"sidx", b"moof", b"mdat"]
         self.composite_boxes_to_parse = [b"moof", b"traf"]
@@ -103,9 +103,29 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
+        self.default_sample_duration = default_sample_duration
         self.trun_offset = 0
         self.scc_map = []
 
+    def finalize(self):
+        """Let a segment index describe the new size of the segment."""
+        growth = sum(len(scc_data['scc_nalu']) for scc_data in self.scc_map)
+        pos = 0
+        for size, box in self.output_top_level_boxes:
+            if box == b"sidx":
+                ref_pos = pos + (32 if self.output[pos+8] == 0 else 40)
+                ref_size = str_to_uint32(self.output[ref_pos:ref_pos+4]) + growth
+                self.output = self.output[:ref_pos] + uint32_to_str(ref_size) + self.output[ref_pos+4:]
+            pos += size
+
+    def process_tfhd(self, data):
+        """Find the default sample duration."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        if flags & 0x8:
+            pos = 16 + (8 if flags & 0x1 else 0) + (4 if flags & 0x2 else 0)
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -122,6 +142,7 @@ class CCInsertFilter(MP4Filter):
             output += uint32_to_str(self.trun_offset)
             pos += 4
         if flags & 0x4:
+            output += data[pos:pos+4]
             pos += 4  # First sample flags present
 
         sample_duration_present = flags & 0x100
@@ -129,11 +150,13 @@ class CCInsertFilter(MP4Filter):
         sample_flags_present = flags & 0x400
         sample_comp_time_present = flags & 0x800
         sample_time_tfdt = self.tfdt
+        if not sample_size_present:
+            raise CCInserterError("Cannot insert data into samples without individual sizes")
 
         orig_sample_pos = 0
 
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
@@ -376,6 +399,7 @@ class CCInserter(object):
                 rep_data['absMediaPath'] = os.path.join(self.base_path, rep.get_media_path())
 
                 get_segment_range(rep_data)
+                rep_data['default_sample_duration'] = init_filter.default_sample_duration
                 track_timescale = init_filter.track_timescale
                 if 'track_timescale' not in as_data:
                     as_data['track_timescale'] = track_timescale
@@ -445,7 +469,8 @@ class CCInserter(object):
                                       rep_data['endTime']-rep_data['startTime']))
                             break
                         # print "Parsing segment: " + segment_path
-                        msf = mediasegmentfilter.MediaSegmentFilter(segment_path)
+                        msf = mediasegmentfilter.MediaSegmentFilter(
+                            segment_path, default_sample_duration=rep_data['default_sample_duration'])
                         msf.filter()
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
@@ -456,7 +481,7 @@ class CCInserter(object):
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
                             cc_filter = CCInsertFilter(segment_path, scc_data_for_segment, track_timescale,
-                                                       tfdt, self.field)
+                                                       tfdt, self.field, rep_data['default_sample_duration'])
                             output = cc_filter.filter()
 
                             print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-- 
2.43.0


From 55589f0028b0a170f05086949c5f567129f8f6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 54/67] fix: let the caption inserter fail when a segment
 cannot be found

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 35917ea..14f6538 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -463,6 +463,8 @@ class CCInserter(object):
                     while True:
                         segment_path = rep_data['absMediaPath'] % seg_nr
                         if not os.path.exists(segment_path):
+                            if seg_nr <= rep_data['lastNumber']:
+                                raise CCInserterError("Cannot find %s" % segment_path)
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
-- 
2.43.0


From d82b43f29ef2feefc115c86b2929786184481b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 55/67] fix: multi-period MPDs copied the wrong element if the
 Period of the VoD MPD is not the first child left

With a ServiceDescription in the VoD MPD, that element was repeated instead of the Period.
---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index cce4c8f..49c2595 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -194,7 +194,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
-- 
2.43.0


From 0bb83d9f75894a7397380d0c9890140a61fa1235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 56/67] fix: the duration of the Period in the VoD MPD was kept
 in the live MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 49c2595..6f5cfcb 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -318,6 +318,7 @@ class MpdProcessor(object):
         # From the Base URL
         last_period_id = '-1'
         for (period, pdata) in zip(periods, period_data):
+            remove_attribs(period, ['duration'])  # The one of the VoD asset
             set_attribs(period, ('id', 'start'), pdata)
             if 'etpDuration' in pdata:
                 period.set('duration', "PT%dS" % pdata['etpDuration'])
-- 
2.43.0


From 7d5e60c012afe7e7f8d0209320bc896f5e27799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:57 +0000
Subject: [PATCH 57/67] fix: presentationTimeOffset did not follow the
 timescale of the SegmentTemplate in the VoD MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 6f5cfcb..0a35b71 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -355,7 +355,9 @@ class MpdProcessor(object):
                     self.insert_producer_reference(ad_set, ad_pos)
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
-                    set_attribs(seg_template, segmenttemplate_attribs, pdata)
+                    template_timescale = int(seg_template.get('timescale', 1))
+                    template_data = dict(pdata, presentationTimeOffset=int(pto) * template_timescale)
+                    set_attribs(seg_template, segmenttemplate_attribs, template_data)
                     if ll_data:
                         set_attribs(seg_template,
                                     ('availabilityTimeOffset', 'availabilityTimeComplete'),
-- 
2.43.0


From 0fb109bd2141ef0cae7580e5ba415a36fa527e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:58 +0000
Subject: [PATCH 58/67] fix: remote Periods lacked the declarations of all but
 the default namespace

Such a document (of a VoD MPD with cenc:default_KID, for instance) is not well-formed XML.
---
 dashlivesim/dashlib/mpd_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 00a2f82..0e82ec8 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -184,14 +184,14 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Start manipulating the original period so that it looks like .period in the static xlink file.
         filename = filename.split('+')[1]
         # Second part of string has the period id.
-        start_pos_xmlns = response.find("xmlns=")
-        end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
+        # All namespaces are declared at the MPD element.
+        namespaces = " ".join(findall('xmlns(?::[^=\\s]+)?="[^"]*"', response[:response.find("<Period")]))
         start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
         original_period = response[start_pos_period:end_pos_period]
-        original_period = original_period.replace('">', '" ' + response[start_pos_xmlns:end_pos_xmlns] + '>', 1)
+        original_period = original_period.replace('">', '" ' + namespaces + '>', 1)
         # xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         # response = xml_intro + original_period
         response = original_period
-- 
2.43.0


From 5fb9196de76bdd76abed277e9fb2571c0b160f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:00 +0000
Subject: [PATCH 59/67] fix: list the last segment of a session in its
 SegmentTimelines

---
 dashlivesim/dashlib/mpdprocessor.py | 21 +++++++++++++--------
 dashlivesim/dashlib/segtimeline.py  |  8 ++++++--
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0a35b71..62105fe 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -371,22 +371,27 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
-                        if self.cfg.stop_time is not None:  # The whole session is available to the end
-                            now = min(now, self.cfg.stop_time)
+                        overtime = 0
+                        if self.cfg.stop_time is not None and now > self.cfg.stop_time:
+                            # The whole session is available to the end of its last segment
+                            now = self.cfg.stop_time
+                            overtime = self.cfg.seg_duration
                         start_time = max(ast + pdata['start_s'], now - tsbd)
+                        end_time = now + overtime
                         if 'period_duration_s' in pdata:
-                            end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
-                        else:
-                            end_time = now
-                        if self.cfg.media_presentation_duration is not None:
-                            end_time = min(end_time, ast + self.cfg.media_presentation_duration)
+                            end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], end_time)
                         use_closest = start_time == ast  # No segment before the first one of the session
                         # The times are on the media timeline
                         media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         start_time += media_time_at_ast - ast
                         end_time += media_time_at_ast - ast
+                        session_end = None
+                        if self.cfg.media_presentation_duration is not None:
+                            seg_duration = self.cfg.seg_duration
+                            nr_segments = self.cfg.media_presentation_duration // seg_duration
+                            session_end = media_time_at_ast + nr_segments * seg_duration
                         seg_timeline = segtime_gen.create_segtimeline(
-                            start_time, end_time, use_closest)
+                            start_time, end_time, use_closest, session_end)
                         remove_attribs(seg_template, ['duration'])
                         seg_template.set('timescale', str(self.cfg.media_data[content_type]['timescale']))
                         if pto != "0" and not offset_at_period_level:
diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 4676a9e..318f425 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -80,14 +80,18 @@ class SegmentTimeLineGenerator(object):
         if number != self.first_segment_number + self.nr_segments_per_wrap:
             raise SegmentTimeLineGeneratorError("Not exactly the segments of the loop in %s" % dat_file)
 
-    def create_segtimeline(self, start_time, end_time, use_closest=False):
-        "Create and insert a new <SegmentTimeline> element and S entries."
+    def create_segtimeline(self, start_time, end_time, use_closest=False, session_end=None):
+        """Create and insert a new <SegmentTimeline> element and S entries.
+
+        The last segment of a session ends near session_end, but not always exactly there."""
         seg_timeline = ElementTree.Element(add_ns('SegmentTimeline'))
         seg_timeline.text = "\n"
         seg_timeline.tail = "\n"
 
         start = start_time * self.timescale
         end = end_time * self.timescale
+        if session_end is not None:
+            end = min(end, session_end * self.timescale + self.cfg.seg_duration * self.timescale // 2)
 
         # The start segment is the latest one that starts before or at start
         # The end segment is the latest one that ends before or at end.
-- 
2.43.0


From 3db636af292071ebb901850186a139dc61dd246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 60/67] fix: do not cut ns0: out of the values and texts of an
 MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 62105fe..e760889 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -37,7 +37,7 @@ import time
 
 from dashlivesim.dashlib.timeformatconversions import make_timestamp
 from dashlivesim.dashlib.segtimeline import SegmentTimeLineGenerator
-from dashlivesim.dashlib.dash_namespace import add_ns
+from dashlivesim.dashlib.dash_namespace import add_ns, DASH_NAMESPACE
 from dashlivesim.dashlib import scte35
 
 SET_BASEURL = True
@@ -460,11 +460,11 @@ class MpdProcessor(object):
         return pos
 
     def get_full_xml(self, clean=True):
-        "Get a string of all XML cleaned (no ns0 namespace)"
+        "Get a string of all XML cleaned (no prefix for the DASH namespace)"
         ofh = StringIO()
+        if clean:
+            ElementTree.register_namespace('', DASH_NAMESPACE.strip('{}'))
         self.tree.write(ofh, encoding="unicode")
         value = ofh.getvalue()
-        if clean:
-            value = value.replace("ns0:", "").replace("xmlns:ns0=", "xmlns=")
         xml_intro = '<?xml version="1.0" encoding="utf-8"?>\n'
         return xml_intro + value
-- 
2.43.0


From 3b4f105513c95b62373eb42244a8dfc2186966b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 61/67] fix: drop the availabilityEndTime of the VoD MPD

---
 dashlivesim/dashlib/mpdprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index e760889..9cd5f5d 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -122,8 +122,9 @@ class MpdProcessor(object):
         if mpd_data.get('type', 'dynamic') == 'static' or (self.cfg and self.cfg.stop_time is not None):
             key_list.remove('timeShiftBufferDepth')  # Everything is available
         set_values_from_dict(mpd, key_list, mpd_data)
-        if 'mediaPresentationDuration' in mpd.attrib and 'mediaPresentationDuration' not in mpd_data:
-            del mpd.attrib['mediaPresentationDuration']
+        for key in ('mediaPresentationDuration', 'availabilityEndTime'):  # The ones of the VoD asset
+            if key in mpd.attrib and key not in mpd_data:
+                del mpd.attrib[key]
         mpd.set('publishTime', make_timestamp(self.mpd_proc_cfg['now']))  # TODO Correlate time with change in MPD
         mpd.set('id', 'Config part of url maybe?')
         if self.segtimeline or self.segtimeline_nr:
-- 
2.43.0


From 63bb16d4bc2b8bd8fa268bd247e2550068d9ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 62/67] fix: remote Periods are not addressed relative to a
 BaseURL inside a Period

---
 dashlivesim/dashlib/mpd_proxy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 0e82ec8..9270d65 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -134,8 +134,9 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = (findall('<BaseURL[^>]*>([^<]*)</BaseURL>', response) or
-                    findall('<Location>([^<]*/)[^<]*</Location>', response))
+        mpd_level = response[:response.find("<Period")]  # There may be other BaseURLs in the Periods
+        base_url = (findall('<BaseURL[^>]*>([^<]*)</BaseURL>', mpd_level) or
+                    findall('<Location>([^<]*/)[^<]*</Location>', mpd_level))
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-- 
2.43.0


From 7707bb4d03438a8064cc8bb31c413d70e1d72c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 63/67] fix: namespace declarations of a remote Period come
 from the MPD start tag only

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 9270d65..7e65947 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -186,7 +186,8 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         filename = filename.split('+')[1]
         # Second part of string has the period id.
         # All namespaces are declared at the MPD element.
-        namespaces = " ".join(findall('xmlns(?::[^=\\s]+)?="[^"]*"', response[:response.find("<Period")]))
+        start_tag = response[:response.find(">", response.find("<MPD"))]
+        namespaces = " ".join(findall('xmlns(?::[^=\\s]+)?="[^"]*"', start_tag))
         start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
-- 
2.43.0


From 455b57d752183a47b8179d738cb9cea868c6c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 64/67] fix: find a Period by its own id attribute only

---
 dashlivesim/dashlib/mpd_proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 7e65947..073e261 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -305,7 +305,7 @@ def generate_period_data(mpd_data, now, cfg):
 
 def find_period(response, period_id):
     "Find the start of the Period with a given id in an MPD."
-    match = search('<Period [^>]*\\bid="%s"' % escape(period_id), response)
+    match = search('<Period\\b[^>]*\\sid="%s"' % escape(period_id), response)
     if match is None:
         raise Exception("No Period %s" % period_id)
     return match.start()
-- 
2.43.0


From 3e5adf0f80eb277a31226fba1d2b24ee8ca53eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 65/67] fix: no duration of the fragmented movie (mehd) in live
 init segments

---
 dashlivesim/dashlib/initsegmentfilter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index 78a53d3..e2f342c 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -146,3 +146,7 @@ class InitLiveFilter(MP4Filter):
             output += b'\x00' * 4  # duration
             output += data[28:]
         return output
+
+    def process_mehd(self, data):
+        "Set duration of the fragmented movie."
+        return data[:12] + b'\x00' * (len(data) - 12)
-- 
2.43.0


From ff572f3e2a407ffa2e29714f60c0014d1dd2406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 66/67] fix: no durations in multiplexed init segments either

---
 dashlivesim/dashlib/dash_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index d15acf2..47c829c 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -200,7 +200,8 @@ def process_init_segment(dashProv):
         com_path = "/".join(cfg.rel_path.split("/")[:-1])
         init1 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[0]['id'], cfg.filename)
         init2 = "%s/%s/%s/%s/%s" % (dashProv.content_dir, cfg.content_name, com_path, cfg.reps[1]['id'], cfg.filename)
-        muxed_inits = segmentmuxer.MultiplexInits(init1, init2)
+        muxed_inits = segmentmuxer.MultiplexInits(data1=InitLiveFilter(init1).filter(),
+                                                  data2=InitLiveFilter(init2).filter())
         data = muxed_inits.construct_muxed()
     else:
         data = error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
-- 
2.43.0


From 55cd13cabf907a99f3343a0de98cce525999edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 67/67] fix: answer requests without a Host header

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 44a4bcc..d1e32be 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -89,11 +89,22 @@ def full_reply(status_code, response, body=b"", headers=None):
     return [body]
 
 
+def get_hostname(environment):
+    "Name by which the client calls the server, including a non-default port."
+    hostname = environment.get('HTTP_HOST')
+    if not hostname:  # HTTP/1.0 clients need not send it
+        hostname = environment['SERVER_NAME']
+        port = environment['SERVER_PORT']
+        if port != ('443' if environment.get('wsgi.url_scheme') == 'https' else '80'):
+            hostname += ":" + port
+    return hostname
+
+
 # pylint: disable=too-many-branches, too-many-locals
 def application(environment, start_response):
     "WSGI Entrypoint"
 
-    hostname = environment['HTTP_HOST']
+    hostname = get_hostname(environment)
     url = urlparse(re.sub("^/+", "/", environment['REQUEST_URI']))  # A path only, so there is no host after //
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
-- 
2.43.0

