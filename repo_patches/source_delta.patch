From e4a41d4505758d74b8c7882970473c45b35a17f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 01/43] fix: FK.from_array no longer overwrites the caller's
 settings

---
 swprocess/wavefieldtransforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 6bda2cd..ca9609b 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -717,7 +717,9 @@ class FK(FDBF):
 
     @classmethod
     def from_array(cls, array, settings):
-        settings["fdbf-specific"]["weighting"] = "none"
-        settings["fdbf-specific"]["steering"] = "plane"
+        # Copy settings, so the caller's settings are left unmodified.
+        fdbf_specific = {**settings.get("fdbf-specific", {}),
+                         "weighting": "none", "steering": "plane"}
+        settings = {**settings, "fdbf-specific": fdbf_specific}
 
         return super().from_array(array, settings)
-- 
2.43.0


From 9cfb787469cda9cd7d0b85a4359897e584a6ba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:13 +0000
Subject: [PATCH 02/43] fix: read the y coordinate of SU/SEGY receivers with a
 positive coordinate scalar

---
 swprocess/sensor1c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 7b61624..386c871 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -210,7 +210,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
@@ -260,7 +260,7 @@ class Sensor1C(ActiveTimeSeries):
         x = round(x, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         int_y = cls._safely_get_header(header, "group_coordinate_y", 0, int)
-        y = int_y / abs(scaleco) if scaleco < 0 else int_x * scaleco
+        y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
         return cls.from_trace(trace,
-- 
2.43.0


From d697dc29a06e586b39a1e677f38bc957ee80354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 03/43] fix: write the number of stacks, not one fewer, to SU
 files

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 7491c1f..8ad9232 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -775,7 +775,7 @@ class Array1D():
             trace.stats.su.trace_header.source_coordinate_y = rint(
                 self.source._y*1000)
             trace.stats.su.trace_header.number_of_horizontally_stacked_traces_yielding_this_trace = rint(
-                sensor.nstacks-1)
+                sensor.nstacks)
             trace.stats.su.trace_header.delay_recording_time = rint(
                 sensor.delay*1000)
             trace.stats.su.trace_header.group_coordinate_x = rint(
-- 
2.43.0


From 27cece58a0863fe96a13e9fd49c8e1368635bbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 04/43] fix: stack shot files sensor by sensor, and refuse
 files with missing sensors

Traces of the second and later files were paired with the (sorted) sensors
in file order, without map_x, map_y and obspy_read_kwargs, and surplus or
missing traces were silently ignored.
---
 swprocess/array1d.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 8ad9232..6227d47 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -724,13 +724,19 @@ class Array1D():
             for fname in fnames[1:]:
                 with warnings.catch_warnings():
                     warnings.simplefilter("ignore")
-                    stream = obspy.read(str(fname))
+                    stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-                for sensor, trace in zip(obj.sensors, stream.traces):
-                    new_sensor = Sensor1C.from_trace(trace)
+                new_sensors = [Sensor1C.from_trace(trace, map_x=map_x, map_y=map_y)
+                               for trace in stream.traces]
+                new = cls(new_sensors, nsource)
+                if new.nchannels != obj.nchannels:
+                    msg = f"fname = {fname} has {new.nchannels} sensors, "
+                    msg += f"but {obj.nchannels} are required."
+                    raise ValueError(msg)
+                for sensor, new_sensor in zip(obj.sensors, new.sensors):
                     sensor.stack_append(new_sensor)
 
         return obj
-- 
2.43.0


From 6ac82a75558a5f474493b5e76cc786650670a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 05/43] fix: accept SEGY sources with an unset (zero)
 coordinate scalar

---
 swprocess/array1d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 6227d47..b51234b 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -705,6 +705,10 @@ class Array1D():
 
                 scaleco = int(
                     stats.segy.trace_header["scalar_to_be_applied_to_all_coordinates"])
+                if scaleco == 0:
+                    msg = "Resetting scale to be applied to all coordinates from zero to one."
+                    warnings.warn(msg)
+                    scaleco = 1
 
                 int_x = int(stats.segy.trace_header["source_coordinate_x"])
                 x = int_x / abs(scaleco) if scaleco < 0 else int_x * scaleco
-- 
2.43.0


From 9bb9b830ca1670954a723e3b895eacf83f9153d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:02 +0000
Subject: [PATCH 06/43] fix: frequency-domain workflow accepts a single file
 name

---
 swprocess/maswworkflows.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 8b4adc3..bb751af 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -259,6 +259,8 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
     """Stack in the frequency-domain."""
 
     def run(self):
+        if isinstance(self.fnames, str):
+            self.fnames = [self.fnames]
         example_array = Array1D.from_files(self.fnames[0],
                                            map_x=self.map_x,
                                            map_y=self.map_y)
-- 
2.43.0


From dbfee9347691bde77a4a2f43ca2843a601afef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 07/43] fix: apply the window_kwargs setting when muting in
 MASW workflows

---
 swprocess/maswworkflows.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index bb751af..5f84c9b 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -84,9 +84,13 @@ class AbstractMaswWorkflow(ABC):
         """Mute record in the time domain."""
         mute = self.settings["pre-processing"]["mute"]
         if mute["apply"]:
+            # Empty window_kwargs indicates the default window.
+            kwargs = {}
+            if mute.get("window_kwargs"):
+                kwargs["window_kwargs"] = mute["window_kwargs"]
             if self.signal_start is None and self.signal_end is None:
                 if mute["method"] == "interactive":
-                    self.signal_start, self.signal_end = self.array.interactive_mute()
+                    self.signal_start, self.signal_end = self.array.interactive_mute(**kwargs)
                 # TODO (jpv): Implement predefined times for muting.
                 else:
                     msg = f"mute type {mute['method']} is unknown, use 'interactive'."
@@ -94,8 +98,7 @@ class AbstractMaswWorkflow(ABC):
             else:
                 self.array.mute(signal_start=self.signal_start,
                                 signal_end=self.signal_end,
-                                window_kwargs=mute.get("window kwargs"),
-                                )
+                                **kwargs)
 
     def select_signal(self):
         """Select a portion of the record as signal."""
-- 
2.43.0


From ae45f67d5cd58d4aeed293d8c9e77a9c48dba15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 08/43] fix: copy records which start after time zero

Trimming a record to begin after time zero gives it a positive delay, and
copying it then raised ValueError. Copies also lost track of zero padding.
---
 swprocess/activetimeseries.py | 15 +++++++++++----
 swprocess/sensor1c.py         | 14 +++++++-------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 0502f72..21f6a92 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -150,10 +150,17 @@ class ActiveTimeSeries(TimeSeries):
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries):
-        return cls(activetimeseries.amplitude,
-                   activetimeseries.dt,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude,
+                  activetimeseries.dt,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
+
+    def _copy_state(self, other):
+        """Copy state set by trimming and padding, from `other`."""
+        # Trimmed records may begin after time zero (i.e., delay > 0).
+        self._delay = float(other.delay)
+        self._multiple = int(other.multiple)
 
     @classmethod
     def from_trace_seg2(cls, trace):
diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index 386c871..e8d5689 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -58,16 +58,16 @@ class Sensor1C(ActiveTimeSeries):
                    "x": float, "y": float, "z": float}
         args = [opr(getattr(sensor1c, arg)) for arg, opr in arg_map.items()]
 
-        kwarg_map = {"nstacks": int, "delay": float}
-        kwargs = {key: opr(getattr(sensor1c, key))
-                  for key, opr in kwarg_map.items()}
-        return cls(*args, **kwargs)
+        obj = cls(*args, nstacks=int(sensor1c.nstacks))
+        obj._copy_state(sensor1c)
+        return obj
 
     @classmethod
     def from_activetimeseries(cls, activetimeseries, x, y, z):
-        return cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
-                   nstacks=activetimeseries.nstacks,
-                   delay=activetimeseries.delay)
+        obj = cls(activetimeseries.amplitude, activetimeseries.dt, x, y, z,
+                  nstacks=activetimeseries.nstacks)
+        obj._copy_state(activetimeseries)
+        return obj
 
     @classmethod
     def from_trace(cls, trace,
-- 
2.43.0


From 5c68af17b189b4422635d958ad7c13b52cb306be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 09/43] fix: mute records which start after time zero, or with
 lines leaving the record

The signal window was shifted the wrong way for records with a positive
delay, and a line which leaves the record, or crosses the other line, raised
ValueError after some of the sensors had already been muted.
---
 swprocess/array1d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index b51234b..af16511 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -563,7 +563,7 @@ class Array1D():
         position = np.array(self.position())
         dt = self[0].dt
         delay = self[0].delay
-        ndelay = abs(delay/dt)
+        ndelay = -delay/dt
         nsamples = self[0].nsamples
 
         # Define starting index for each trace.
@@ -584,6 +584,10 @@ class Array1D():
         else:
             stop_indices = np.ones_like(position, dtype=int) * (nsamples-1)
 
+        # Keep the signal window inside the record.
+        start_indices = np.clip(start_indices, 0, nsamples)
+        stop_indices = np.clip(stop_indices, start_indices, nsamples)
+
         # Define default windowing to be Tukey w/ 20% taper (10% on each side).
         if window_kwargs is None:
             window_kwargs = dict(alpha=0.2)
-- 
2.43.0


From 607e342be52dd74f0dab2478835eaa47aa7db7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 10/43] fix: interactive_mute on a waterfall with normalized
 positions

Points picked on the normalized waterfall were used as absolute positions.
---
 swprocess/array1d.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index af16511..3b6b58a 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -505,11 +505,13 @@ class Array1D():
         _, ax = self.waterfall(**waterfall_kwargs)
 
         # Parse x, y to distance, time
+        shift = self.position()[0] if waterfall_kwargs.get("position_normalization") else 0
+
         def parse(xs, ys, time_ax=waterfall_kwargs["time_ax"]):
             if time_ax == "y":
-                return ((xs[0], ys[0]), (xs[1], ys[1]))
+                return ((xs[0]+shift, ys[0]), (xs[1]+shift, ys[1]))
             else:
-                return ((ys[0], xs[0]), (ys[1], xs[1]))
+                return ((ys[0]+shift, xs[0]), (ys[1]+shift, xs[1]))
 
         # Define the start of the signal.
         if (mute_location == "before") or (mute_location == "both"):
-- 
2.43.0


From c4d8bd4cd708be48064dbe6c645a293ca733491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:49 +0000
Subject: [PATCH 11/43] fix: trim_offsets keeps the near sensors when offsets
 decrease along the array

The loop stopped at the first sensor beyond max_offset, which is the first
sensor when the source is to the right of the array.
---
 swprocess/array1d.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 3b6b58a..cccb0ed 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -208,9 +208,6 @@ class Array1D():
             if (offset > min_offset) and (offset < max_offset):
                 sensors.append(sensor)
 
-            if (offset > max_offset):
-                break
-
         if len(sensors) == 0:
             msg = "Removing all sensors at offsets between "
             msg += f"{min_offset} and {max_offset}, results in no sensors."
-- 
2.43.0


From cedcd621da6ca4ed1523b4b75079cf92179831a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:57 +0000
Subject: [PATCH 12/43] fix: match whole records when reading .max files

Records of one time (frequency) were also matched by other times (frequencies)
ending in, or matching, the unescaped text; records flagged as invalid were
counted as missing; and 'inf' or 'nan' anywhere in the file hid the wavetype.
---
 swprocess/peaks.py |  9 ++++++---
 swprocess/regex.py | 20 +++++++++++---------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 6a8f845..04c1145 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import re
 import warnings
 import logging
 
@@ -164,7 +165,8 @@ class Peaks():
             start_time, *_ = regex.search(peak_data).groups()
 
         if frequencies is None:
-            regex = get_peak_from_max(time=start_time, wavetype=wavetype)
+            regex = get_peak_from_max(time=re.escape(start_time),
+                                      wavetype=wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -188,7 +190,8 @@ class Peaks():
         pwrs = np.full_like(frqs, fill_value=np.nan, dtype=float)
 
         for col, frequency in enumerate(frequencies):
-            getpeak = get_peak_from_max(time=start_time, frequency=frequency,
+            getpeak = get_peak_from_max(time=re.escape(start_time),
+                                        frequency=re.escape(frequency),
                                         wavetype=wavetype)
 
             for row, match in enumerate(getpeak.finditer(peak_data)):
@@ -202,7 +205,7 @@ class Peaks():
                 pwrs[row, col] = float(_pwr)
 
         # Include for "belt and suspenders".
-        getall = get_all(time=start_time, wavetype=wavetype)
+        getall = get_all(time=re.escape(start_time), wavetype=wavetype)
         count = len(getall.findall(peak_data))
         if np.sum(~np.isnan(frqs)) != count:  # pragma: no cover
             msg = f"Missing {count - len(frqs)} dispersion peaks."
diff --git a/swprocess/regex.py b/swprocess/regex.py
index a76b9cb..5eebcc7 100644
--- a/swprocess/regex.py
+++ b/swprocess/regex.py
@@ -21,8 +21,10 @@ import re
 __all__ = ["get_peak_from_max", "get_nmaxima",  "get_all", "get_spac_ratio", "get_spac_ring"]
 
 DEFAULT_TIME = r"\d+\.?\d*"
-DEFAULT_FREQUENCY = r"-?\d+.?\d*[eE]?[+-]?\d*"
-NUMBER = r"-?\d+.?\d*[eE]?[+-]?\d*"
+DEFAULT_FREQUENCY = r"-?\d+\.?\d*(?:[eE][+-]?\d+)?"
+NUMBER = r"-?\d+\.?\d*(?:[eE][+-]?\d+)?"
+# A valid record ends its line with the flag 1.
+VALID = r"1[ \t\r]*$"
 
 
 def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="rayleigh"):
@@ -44,16 +46,16 @@ def get_peak_from_max(time=DEFAULT_TIME, frequency=DEFAULT_FREQUENCY, wavetype="
     """
     # abs_time frequency polarization slowness azimuth ellipticity noise power valid
     wavetype = validate_wavetypes(wavetype)
-    pattern = f"({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) 1"
-    return re.compile(pattern)
+    pattern = f"^({time}) ({frequency}) {wavetype} ({NUMBER}) ({NUMBER}) ({NUMBER}) ({NUMBER}|-?inf|nan) ({NUMBER}) {VALID}"
+    return re.compile(pattern, re.MULTILINE)
 
 def get_geopsy_version():
     return re.compile(r"geopsypack-(\d+).(\d+).(\d+)")
 
 def get_wavetype():
     space = r"(\S+)"
-    pattern = f"{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} {NUMBER}|-?inf|nan {NUMBER} 1"
-    return re.compile(pattern)
+    pattern = f"^{DEFAULT_TIME} {DEFAULT_FREQUENCY} {space} {NUMBER} {NUMBER} {NUMBER} (?:{NUMBER}|-?inf|nan) {NUMBER} {VALID}"
+    return re.compile(pattern, re.MULTILINE)
 
 def get_process_type():
     return re.compile(r"PROCESS_TYPE=(\S+)")
@@ -79,11 +81,11 @@ def get_all(wavetype=r"rayleigh", time=r"(\d+\.?\d*)"):
 
     """
     if wavetype is None:
-        pattern = f"{time} .* 1"
+        pattern = f"^{time} .* {VALID}"
     else:
         wavetype = validate_wavetypes(wavetype)
-        pattern = f"{time} .* {wavetype} .* 1"
-    return re.compile(pattern)
+        pattern = f"^{time} .* {wavetype} .* {VALID}"
+    return re.compile(pattern, re.MULTILINE)
 
 def validate_wavetypes(wavetype):
     if wavetype in ("rayleigh", "love", "vertical", "radial", "transverse"):
-- 
2.43.0


From bb90d8d3d79d89d53e9856cac2dab99dd59b51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:02 +0000
Subject: [PATCH 13/43] fix: PeaksSuite.from_max decides the wavetype of each
 file separately

After a file with Vertical peaks, the Rayleigh peaks of later files were
silently ignored.
---
 swprocess/peakssuite.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 3967d70..1736ab8 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -842,15 +842,16 @@ class PeaksSuite():
 
             regex = get_wavetype()
             wavetype_from_file = regex.search(peak_data).groups()[0]
+            file_wavetype = wavetype
             if wavetype == "rayleigh" and wavetype_from_file == "Vertical":
-                wavetype = "vertical"
+                file_wavetype = "vertical"
 
             regex = get_nmaxima()
             nmaxima = int(regex.search(peak_data).groups()[0])
             nmaxima = max(1, nmaxima)
             nmaxima = min(100, nmaxima)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             frequencies = []
             for match in regex.finditer(peak_data):
                 _, f, *_ = match.groups()
@@ -859,7 +860,7 @@ class PeaksSuite():
                 else:
                     frequencies.append(f)
 
-            regex = get_peak_from_max(wavetype=wavetype)
+            regex = get_peak_from_max(wavetype=file_wavetype)
             found_times = []
             for found in regex.finditer(peak_data):
                 start_time = found.groups()[0]
@@ -867,7 +868,7 @@ class PeaksSuite():
                     continue
                 found_times.append(start_time)
                 peak = Peaks._parse_peaks(peak_data,
-                                          wavetype=wavetype,
+                                          wavetype=file_wavetype,
                                           start_time=start_time,
                                           frequencies=frequencies,
                                           nmaxima=nmaxima)
-- 
2.43.0


From 8b5e0709cb71923ea16b6da00bd4c58d28e0a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 14/43] fix: Peaks.from_dict leaves the caller's dictionary
 unmodified

---
 swprocess/peaks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 04c1145..5509625 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -602,11 +602,9 @@ class Peaks():
             Initialized `Peaks` instance.
 
         """
-        valid = data_dict.get("valid")
-        try:
-            del data_dict["valid"]
-        except KeyError:
-            pass
+        # Copy dict, so the caller's is left unmodified.
+        data_dict = dict(data_dict)
+        valid = data_dict.pop("valid", None)
 
         obj = cls(identifier=identifier, **data_dict)
 
-- 
2.43.0


From 41ff7e8e64d9e33027b1c8186804cb72d6487136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 15/43] fix: an interrupted save no longer destroys saved
 dispersion data

to_json truncated the file before writing it, so a failure or crash while
writing lost the data saved previously (or, with append=True, all of the
data). Write a temporary file, and replace the original once it is complete.
---
 swprocess/peaks.py      | 40 +++++++++++++++++++++++++++++++---------
 swprocess/peakssuite.py | 13 +++++++++----
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 5509625..50d1501 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,6 +17,7 @@
 """Peaks class definition."""
 
 import json
+import os
 import re
 import warnings
 import logging
@@ -30,6 +31,25 @@ from .meta import check_geopsy_version
 logger = logging.getLogger("swprocess.peaks")
 
 
+def _write_json(data, fname):
+    """Write `data` to `fname`, which is replaced only once complete."""
+    # Follow links, so it is the file that is replaced and not the link.
+    fname = os.path.realpath(fname)
+    fname_tmp = f"{fname}.tmp"
+    try:
+        with open(fname_tmp, "w") as f:
+            json.dump(data, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(fname_tmp, fname)
+    except BaseException:
+        try:
+            os.remove(fname_tmp)
+        except OSError:
+            pass
+        raise
+
+
 class Peaks():
     """Class for handling dispersion peaks.
 
@@ -531,10 +551,7 @@ class Peaks():
             Instead writes file to disk.
 
         """
-        data = {}
-        for attr in self.attrs:
-            data[attr] = getattr(self, f"_{attr}").tolist()
-        data["valid"] = self._valid.tolist()
+        data = self._to_dict()
 
         # Assumes dict of the form {"id0":{data}, "id1":{data} ... }
         if append:
@@ -546,12 +563,17 @@ class Peaks():
                 raise KeyError(msg)
             else:
                 data_to_update[self.identifier] = data
-                with open(fname, "w") as f:
-                    json.dump(data_to_update, f)
+                _write_json(data_to_update, fname)
         else:
-            data = {self.identifier: data}
-            with open(fname, "w") as f:
-                json.dump(data, f)
+            _write_json({self.identifier: data}, fname)
+
+    def _to_dict(self):
+        """Create the `dict` representation of `Peaks`."""
+        data = {}
+        for attr in self.attrs:
+            data[attr] = getattr(self, f"_{attr}").tolist()
+        data["valid"] = self._valid.tolist()
+        return data
 
     @classmethod
     def from_json(cls, fname):
diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index 1736ab8..a9e0947 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -25,7 +25,7 @@ from scipy.interpolate import interp1d
 from matplotlib.widgets import Cursor
 
 from .wavefieldtransforms import AbstractWavefieldTransform as AWTransform
-from .peaks import Peaks
+from .peaks import Peaks, _write_json
 from .regex import get_nmaxima, get_peak_from_max, get_geopsy_version, get_wavetype
 from .meta import check_geopsy_version
 
@@ -743,10 +743,15 @@ class PeaksSuite():
             Write `json` to disk.
 
         """
-        append = False
+        # Write all peaks at once, so a file never holds only some of them.
+        data = {}
         for peak in self.peaks:
-            peak.to_json(fname, append=append)
-            append = True
+            if peak.identifier in data:
+                msg = f"More than one member object with identifier "
+                msg += f"{peak.identifier}, file left unmodified."
+                raise KeyError(msg)
+            data[peak.identifier] = peak._to_dict()
+        _write_json(data, fname)
 
     @classmethod
     def from_dict(cls, dicts):
-- 
2.43.0


From 63655de480ddfc6dde216c6c8b56566e9adafdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 16/43] fix: compute the signal-to-noise ratio at the right
 frequencies when padding

The frequency vector used the user-facing df, which is multiple times the
spacing of the spectrum, so the wrong frequencies were selected.
---
 swprocess/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/snr.py b/swprocess/snr.py
index e0033ee..6cc4af9 100644
--- a/swprocess/snr.py
+++ b/swprocess/snr.py
@@ -42,7 +42,7 @@ class SignaltoNoiseRatio():
 
         # Frequency vector
         sensor = noise[0]
-        frqs = np.arange(sensor.nsamples) * sensor.df
+        frqs = np.arange(sensor.nsamples) * sensor._df
         Empty = WavefieldTransformRegistry.create_class("empty")
         keep_ids = Empty._frequency_keep_ids(frqs, fmin, fmax, sensor.multiple)
         frequencies = frqs[keep_ids]
-- 
2.43.0


From ac3d45fb711873f3bac2353cbd18715478c24d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:11 +0000
Subject: [PATCH 17/43] fix: peak power does not depend on whether the
 transform was normalized

Unnormalized power may be complex, for which argmax compares real parts. Also
check the normalization exists before modifying the power.
---
 swprocess/wavefieldtransforms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index ca9609b..9f9a0fe 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -96,10 +96,7 @@ class AbstractWavefieldTransform(ABC):
             Update the internal state of power.
 
         """
-        # Return power to unnormalized state.
-        self.power *= self._to_abs
-
-        # Normalize power
+        # Select normalization
         register = {"none": (np.abs,
                              lambda x: 1.),
                     "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
@@ -108,6 +105,11 @@ class AbstractWavefieldTransform(ABC):
                                           lambda x: np.max(np.abs(x), axis=0))
                     }
         to_norm, to_abs = register[by]
+
+        # Return power to unnormalized state.
+        self.power *= self._to_abs
+
+        # Normalize power
         self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
@@ -132,7 +134,7 @@ class AbstractWavefieldTransform(ABC):
 
         """
         if by == "frequency-maximum":
-            return self.velocities[np.argmax(self.power, axis=0)]
+            return self.velocities[np.argmax(np.abs(self.power), axis=0)]
         else:
             msg = f"find_peak_power by {by} not recognized, see docs for options."
             raise NotImplementedError(msg)
-- 
2.43.0


From df5b1fa2599ea2aa6b1c55799e8f2cc0712b80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 18/43] fix: rasterize the dispersion image with current
 matplotlib

---
 swprocess/wavefieldtransforms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 9f9a0fe..81037fd 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -226,8 +226,7 @@ class AbstractWavefieldTransform(ABC):
                           np.linspace(0, np.max(self.power), 21),
                           cmap=mpl.colormaps[cmap])
         if rasterize:
-            for pathcoll in img.collections:
-                pathcoll.set_rasterized(True)
+            img.set_rasterized(True)
 
         # Plot colorbar for image.
         if cax is None:
-- 
2.43.0


From 9a67f243ffc132ee37cd80bcf96e35cb61bbdf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:15 +0000
Subject: [PATCH 19/43] fix: interactive trimming survives corrected and
 incomplete selections

Ending the selection early (middle click or enter) raised ValueError and lost
the session, and removing a point (right click) was not followed when deciding
which axes was selected.
---
 swprocess/peakssuite.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index a9e0947..d005648 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -511,26 +511,36 @@ class PeaksSuite():
         for ax in fig.axes:
             cursors.append(Cursor(ax, useblit=False, color='k', linewidth=1))
 
-        def on_click(event):
-            if event.inaxes is not None:
+        # Follow fig.ginput, which adds and removes points with mouse and keys.
+        def on_press(event):
+            if event.name == "button_press_event":
+                remove, add = event.button == 3, event.button == 1
+            else:
+                remove = event.key in ("backspace", "delete")
+                add = event.key not in ("backspace", "delete", "enter", "escape", None)
+
+            if remove:
+                axclicked[-1:] = []
+            elif add and event.inaxes is not None:
                 axclicked.append(event.inaxes)
 
         while True:
             axclicked = []
-            session = fig.canvas.mpl_connect('button_press_event', on_click)
-            (x1, y1), (x2, y2) = fig.ginput(2, timeout=0)
-            xs = (x1, x2)
-            ys = (y1, y2)
-            fig.canvas.mpl_disconnect(session)
-
-            if len(axclicked) == 2 and axclicked[0] == axclicked[1]:
+            sessions = [fig.canvas.mpl_connect(name, on_press)
+                        for name in ("button_press_event", "key_press_event")]
+            points = fig.ginput(2, timeout=0)
+            for session in sessions:
+                fig.canvas.mpl_disconnect(session)
+
+            if len(points) == len(axclicked) == 2 and axclicked[0] == axclicked[1]:
+                xs, ys = zip(*points)
                 xmin, xmax = min(xs), max(xs)
                 ymin, ymax = min(ys), max(ys)
                 ax_index = fig.axes.index(axclicked[0])
                 logger.debug(f"\tax_index = {ax_index}")
                 return ((xmin, xmax), (ymin, ymax), ax_index)
             else:
-                msg = "Both clicks must be on the same axes. Please try again."
+                msg = "Two clicks on the same axes are required. Please try again."
                 warnings.warn(msg)
 
     def statistics(self, xtype, ytype, xx, ignore_corr=True,
-- 
2.43.0


From 44163e17f664192701df91669d8031b8ffe2168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 20/43] fix: ginput_session listens to the figure of the axes
 it was given

It listened to pyplot's current figure instead, which is another figure once
the user creates, or clicks on, one.
---
 swprocess/interact.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swprocess/interact.py b/swprocess/interact.py
index 9285317..dca6c6c 100644
--- a/swprocess/interact.py
+++ b/swprocess/interact.py
@@ -63,6 +63,7 @@ def ginput_session(ax, initial_adjustment=True,
         text = ax.text(0.95, 0.95, initial_adjustment_message,
                        ha="right", va="top", transform=ax.transAxes)
         while True:
+            plt.sca(ax)
             if plt.waitforbuttonpress(timeout=-1):
                 text.set_visible(False)
                 break
@@ -73,6 +74,7 @@ def ginput_session(ax, initial_adjustment=True,
         selection_message = "Left click to add,\nright click to remove,\nenter to accept."
         text = ax.text(0.95, 0.95, selection_message,
                        ha="right", va="top", transform=ax.transAxes)
+        plt.sca(ax)
         vals = plt.ginput(n=-1, timeout=0)
         text.set_visible(False)
 
@@ -98,10 +100,12 @@ def ginput_session(ax, initial_adjustment=True,
                            ha="right", va="top",
                            transform=ax.transAxes)
             while True:
+                plt.sca(ax)
                 if plt.waitforbuttonpress(timeout=-1):
                     text.set_visible(False)
                     break
 
+        plt.sca(ax)
         if plt.waitforbuttonpress(timeout=0.3):
             break
 
-- 
2.43.0


From 993d918bb93a5ee40336f2ca4d3ae3287744ed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 21/43] fix: an interrupted export no longer leaves a partial
 SU or miniSEED file

An interrupted export destroyed the file it was replacing, and left one which
reads as a complete record with fewer sensors or samples.
---
 swprocess/array1d.py |  4 +++-
 swprocess/fileio.py  | 51 ++++++++++++++++++++++++++++++++++++++++++++
 swprocess/peaks.py   | 16 ++------------
 swprocess/utils.py   |  5 ++++-
 4 files changed, 60 insertions(+), 16 deletions(-)
 create mode 100644 swprocess/fileio.py

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index cccb0ed..66118fb 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -27,6 +27,7 @@ from scipy import signal
 
 from swprocess.source import SourceWithSignal
 
+from .fileio import replace_when_complete
 from .interact import ginput_session
 from swprocess import Source, Sensor1C
 
@@ -799,7 +800,8 @@ class Array1D():
 
             stream.append(trace)
 
-        stream.write(filename=fname, format="SU")
+        with replace_when_complete(fname) as fname_tmp:
+            stream.write(filename=fname_tmp, format="SU")
 
     def is_similar(self, other):
         """Check if `other` is similar to `self`."""
diff --git a/swprocess/fileio.py b/swprocess/fileio.py
new file mode 100644
index 0000000..9068a84
--- /dev/null
+++ b/swprocess/fileio.py
@@ -0,0 +1,51 @@
+# This file is part of swprocess, a Python package for surface wave processing.
+# Copyright (C) 2020 Joseph P. Vantassel (joseph.p.vantassel@gmail.com)
+#
+#     This program is free software: you can redistribute it and/or modify
+#     it under the terms of the GNU General Public License as published by
+#     the Free Software Foundation, either version 3 of the License, or
+#     (at your option) any later version.
+#
+#     This program is distributed in the hope that it will be useful,
+#     but WITHOUT ANY WARRANTY; without even the implied warranty of
+#     MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#     GNU General Public License for more details.
+#
+#     You should have received a copy of the GNU General Public License
+#     along with this program.  If not, see <https: //www.gnu.org/licenses/>.
+
+
+"""File output utilities."""
+
+import contextlib
+import os
+
+
+@contextlib.contextmanager
+def replace_when_complete(fname):
+    """Provide a temporary file name, to replace `fname` once complete.
+
+    Parameters
+    ----------
+    fname : str
+        Name of the output file, may contain a relative or the full
+        path. It is left unmodified if an error is raised.
+
+    Yields
+    ------
+    str
+        Name of the temporary file to be written.
+
+    """
+    # Follow links, so it is the file that is replaced and not the link.
+    fname = os.path.realpath(fname)
+    fname_tmp = f"{fname}.tmp"
+    try:
+        yield fname_tmp
+        with open(fname_tmp, "rb+") as f:
+            os.fsync(f.fileno())
+        os.replace(fname_tmp, fname)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(fname_tmp)
+        raise
diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index 50d1501..a58ad2d 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -17,7 +17,6 @@
 """Peaks class definition."""
 
 import json
-import os
 import re
 import warnings
 import logging
@@ -25,6 +24,7 @@ import logging
 import numpy as np
 import matplotlib.pyplot as plt
 
+from .fileio import replace_when_complete
 from .regex import get_wavetype, get_process_type, get_peak_from_max, get_all, get_nmaxima, get_geopsy_version
 from .meta import check_geopsy_version
 
@@ -33,21 +33,9 @@ logger = logging.getLogger("swprocess.peaks")
 
 def _write_json(data, fname):
     """Write `data` to `fname`, which is replaced only once complete."""
-    # Follow links, so it is the file that is replaced and not the link.
-    fname = os.path.realpath(fname)
-    fname_tmp = f"{fname}.tmp"
-    try:
+    with replace_when_complete(fname) as fname_tmp:
         with open(fname_tmp, "w") as f:
             json.dump(data, f)
-            f.flush()
-            os.fsync(f.fileno())
-        os.replace(fname_tmp, fname)
-    except BaseException:
-        try:
-            os.remove(fname_tmp)
-        except OSError:
-            pass
-        raise
 
 
 class Peaks():
diff --git a/swprocess/utils.py b/swprocess/utils.py
index 28510c5..7f99f1f 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -26,6 +26,8 @@ import numpy as np
 import obspy
 import pandas as pd
 
+from .fileio import replace_when_complete
+
 logger = logging.getLogger("swprocess.utils")
 
 
@@ -153,4 +155,5 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
         logger.info(
             f"Extracted {index+1} of {total}. Extracting data from station {str(series['station number']).zfill(2)}. Creating file: {fname_out}.")
 
-        reads.write(fname_out, format="mseed")
+        with replace_when_complete(fname_out) as fname_tmp:
+            reads.write(fname_tmp, format="mseed")
-- 
2.43.0


From b86f38bca4061914aa68d711c6a3b39fb8af0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:07 +0000
Subject: [PATCH 22/43] fix: Statistics can be created

The constructor always raised TypeError (misspelled dtype), and the correlation
coefficients were stored in a matrix of the wrong shape.
---
 swprocess/stats.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7c6e935..7f31d14 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -30,13 +30,13 @@ class Statistics():
         self.xx = np.array(xx, dtype=float)
         self.mean = np.array(mean, dtype=float)
         self.stddev = np.array(stddev, dtype=float)
-        self.corr = np.array(corr, dytpe=float)
+        self.corr = np.array(corr, dtype=float)
 
     @classmethod
     def from_peakssuite(cls, peakssuite, xx, xtype="wavelength",
                         ytype="velocity"):
         xx, array = peakssuite.to_array(xtype, ytype, xx)
-        cls.from_array(xx, array)
+        return cls.from_data_matrix(xx, array)
 
     @classmethod
     def from_data_matrix(cls, xx, data_matrix, drop_kwargs=None,
@@ -107,11 +107,12 @@ class Statistics():
             raise ValueError(msg)
 
         # Calculate correlation coefficients.
-        corr = np.empty_like(data_matrix)
+        ncols = data_matrix.shape[1]
+        corr = np.full((ncols, ncols), fill_value=np.nan)
         # nan_mask = np.isnan(data_matrix)
         for region in regions:
             ((s_row, s_col), (e_row, e_col)) = region
-            corr[s_row:e_row, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
+            corr[s_col:e_col, s_col:e_col] = np.corrcoef(data_matrix[s_row:e_row, s_col:e_col],
                                                          rowvar=False)
 
         # Fill remaining correlation coefficients.
@@ -368,8 +369,8 @@ class Statistics():
             return y0*np.power(decay_factor, x)
 
         def filler(xs, ys, function):
-            invalid_ids = np.flatnonzero(np.isnan(xs))
-            valid_ids = np.flatnonzero(~np.isnan(xs))
+            invalid_ids = np.flatnonzero(np.isnan(ys))
+            valid_ids = np.flatnonzero(~np.isnan(ys))
 
             # Fit functional form to valid entries.
             popt, _ = curve_fit(f=function,
-- 
2.43.0


From 781af802e7d42335d24883255c5bf43533a342ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:57 +0000
Subject: [PATCH 23/43] fix: a refused zero_pad leaves the record as it was

The multiple of an earlier zero_pad was reset before the frequency step was
found to be invalid, which changed the record's frequency step.
---
 swprocess/activetimeseries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 21f6a92..31e5612 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -262,7 +262,6 @@ class ActiveTimeSeries(TimeSeries):
         """
         df = float(df)
         logger.info(f"zero_pad(df={df})")
-        self._multiple = 1
         if df <= 0:
             raise ValueError(f"df must be positive, currently {df}.")
 
@@ -271,7 +270,10 @@ class ActiveTimeSeries(TimeSeries):
         if new_nsamples_float != new_nsamples:
             msg = "  `1/(df*dt)` is not an integer results will be approximate."
             logger.warning(msg)
+        if new_nsamples == 0:
+            raise ValueError(f"df must be at most {1/self.dt}, currently {df}.")
 
+        self._multiple = 1
         # If new_nsamples > nsamples, pad zeros.
         if new_nsamples > self.nsamples:
             padding = new_nsamples - self.nsamples
-- 
2.43.0


From 642b222955b1e909e9b4779314785740478540d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:50 +0000
Subject: [PATCH 24/43] fix: statistics leave out positions without values when
 no value remains

With every value missing, the positions were kept and reported with a mean of
NaN, although none has the required number of values.
---
 swprocess/peakssuite.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index d005648..b9180c1 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -726,7 +726,9 @@ class PeaksSuite():
     def _drop_indices(data_matrix, drop_if_fewer_percent, drop_if_fewer_count):
         """Iterate by row, return rejection indices."""
         if data_matrix.size == 0:
-            return np.array([], dtype=int)
+            # Without entries, each row has fewer than any required number.
+            required = max(drop_if_fewer_percent, drop_if_fewer_count) > 0
+            return np.arange(len(data_matrix) if required else 0, dtype=int)
 
         drop_indices = []
         for index, row in enumerate(data_matrix):
-- 
2.43.0


From 808e388ee91361f301407ea928da09a8c7cb84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 25/43] fix: read back SU files exported from records which
 begin after time zero

---
 swprocess/sensor1c.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index e8d5689..f3d9d96 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -213,13 +213,15 @@ class Sensor1C(ActiveTimeSeries):
         y = int_y / abs(scaleco) if scaleco < 0 else int_y * scaleco
         y = round(y, -np.sign(scaleco) * int(np.log10(abs(scaleco))))
 
-        return cls.from_trace(trace,
-                              read_header=False,
-                              nstacks=nstacks,
-                              delay=cls._safely_get_header(header, "delay_recording_time", 0, int)/1000,
-                              x=map_x(x),
-                              y=map_y(y),
-                              z=0)
+        obj = cls.from_trace(trace,
+                             read_header=False,
+                             nstacks=nstacks,
+                             x=map_x(x),
+                             y=map_y(y),
+                             z=0)
+        # Exported records may begin after time zero (i.e., delay > 0).
+        obj._delay = cls._safely_get_header(header, "delay_recording_time", 0, int)/1000
+        return obj
 
     @classmethod
     def _from_trace_segy(cls, trace, map_x=lambda x: x, map_y=lambda y: y):
-- 
2.43.0


From 3bca9db8b4532982ff5b91ffed5f89c57f36df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:05 +0000
Subject: [PATCH 26/43] fix: extract_mseed keeps names such as "NA" as they are
 written

---
 swprocess/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/utils.py b/swprocess/utils.py
index 7f99f1f..881a206 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -77,7 +77,8 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
     try:
         with warnings.catch_warnings():
             warnings.simplefilter("ignore")
-            df = pd.read_csv(startend_fname, dtype=dtype)
+            df = pd.read_csv(startend_fname, dtype=dtype,
+                             keep_default_na=False)
     except:
         raise NotImplementedError("File type not recognized.")
 
-- 
2.43.0


From d146e047a4e808032a0c986846b061bccd41b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:15 +0000
Subject: [PATCH 27/43] fix: extract_mseed reports errors met while writing
 records

---
 swprocess/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/swprocess/utils.py b/swprocess/utils.py
index 881a206..a8674c9 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -16,6 +16,7 @@
 
 """Surface wave processing utilities."""
 
+import io
 import os
 import datetime
 import logging
@@ -156,5 +157,9 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
         logger.info(
             f"Extracted {index+1} of {total}. Extracting data from station {str(series['station number']).zfill(2)}. Creating file: {fname_out}.")
 
+        # Encode in memory, obspy ignores errors raised while it writes records.
+        encoded = io.BytesIO()
+        reads.write(encoded, format="mseed")
         with replace_when_complete(fname_out) as fname_tmp:
-            reads.write(fname_tmp, format="mseed")
+            with open(fname_tmp, "wb") as f:
+                f.write(encoded.getvalue())
-- 
2.43.0


From f91b88af62416072cfa7ae3565933a7227dfd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 28/43] fix: extract_mseed refuses time blocks which end before
 they start within the hour

---
 swprocess/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/utils.py b/swprocess/utils.py
index a8674c9..aba7e22 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -94,14 +94,18 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
                                       month=series["start month"],
                                       day=series["start date"],
                                       hour=series["start hour"],
+                                      minute=series["start minute"],
+                                      second=series["start second"],
                                       tzinfo=datetime.timezone.utc)
         logging.debug(f"\t\tstarttime={starttime}")
-        currenttime = starttime
+        currenttime = starttime.replace(minute=0, second=0)
 
         endtime = datetime.datetime(year=series["end year"],
                                     month=series["end month"],
                                     day=series["end date"],
                                     hour=series["end hour"],
+                                    minute=series["end minute"],
+                                    second=series["end second"],
                                     tzinfo=datetime.timezone.utc)
         logging.debug(f"\t\tendtime={endtime}")
 
-- 
2.43.0


From 16c28114ea08bbe56a3fe3676c5dbe5bb44b83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:50 +0000
Subject: [PATCH 29/43] fix: normalizing or stacking a transform is not left
 half-done by an interrupt

---
 swprocess/wavefieldtransforms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 81037fd..ec82f0b 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -107,10 +107,10 @@ class AbstractWavefieldTransform(ABC):
         to_norm, to_abs = register[by]
 
         # Return power to unnormalized state.
-        self.power *= self._to_abs
+        power = self.power * self._to_abs
 
         # Normalize power
-        self.power, self._to_abs = (to_norm(self.power), to_abs(self.power))
+        self.power, self._to_abs = (to_norm(power), to_abs(power))
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
         """Find maximum `WavefieldTransform` power.
@@ -359,12 +359,13 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
 
     def stack(self, other):
         try:
-            self.power = (self.power*self.n + other.power*other.n)
-            self.power /= (self.n+other.n)
+            power = (self.power*self.n + other.power*other.n)
+            n = self.n + other.n
+            power /= n
         except AttributeError as e:
             msg = "Can only append objects if descendant of `AbstractWavefieldTransform`."
             raise AttributeError(msg) from e
-        self.n += other.n
+        self.power, self.n = (power, n)
 
     @classmethod
     def transform(cls, array, velocities, settings):  # pragma: no cover
-- 
2.43.0


From a9e30727844bb9a967675b93cdcb7e88efe428c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 30/43] fix: frequency-domain beamforming works with current
 numpy

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index ec82f0b..cafb4ae 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -653,7 +653,7 @@ class FDBF(AbstractWavefieldTransform):
                 steer[:, 0] = create_steering(kx)[:]
                 _power = np.dot(np.dot(np.transpose(np.conjugate(steer)),
                                        weighted_sscm), steer)
-                power[j, i] = _power
+                power[j, i] = _power[0, 0]
 
         return (frequencies, power)
 
-- 
2.43.0


From 22a550acad6214c4a05f7e1cc22b3c3375058ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 31/43] fix: statistics of data whose last positions are
 incomplete no longer raise IndexError

---
 swprocess/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swprocess/stats.py b/swprocess/stats.py
index 7f31d14..68fa04b 100644
--- a/swprocess/stats.py
+++ b/swprocess/stats.py
@@ -291,7 +291,8 @@ class Statistics():
             else:  # pragma: no cover
                 raise ValueError("Iteration stopped without breaking.")
 
-            if c_row+1 == nrows and c_col+1 == ncols:
+            # Rows left over once all columns are covered are not replaced.
+            if c_col+1 == ncols:
                 break
             else:
                 s_col = int(c_col)+1
-- 
2.43.0


From 368a3aa63c40a01b026ded5ca73465824de50af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 32/43] fix: refuse source signals which cannot be combined for
 cross-correlation

---
 swprocess/array1d.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 66118fb..42c2b89 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -843,12 +843,19 @@ class Array1DwSource(Array1D):
         # TODO (jpv): Badly assume fnames_src is a properly formatted list.
         trace = obspy.read(str(fnames_src[0]))[src_channel]
         dt = trace.meta.delta
-        amp = trace.data
+        amp = np.array(trace.data, dtype=float)
         for fname in fnames_src[1:]:
             trace = obspy.read(str(fname))[src_channel]
+            if trace.meta.delta != dt or len(trace.data) != len(amp):
+                msg = f"fname = {fname} is incompatible and cannot be stacked."
+                raise ValueError(msg)
             amp += trace.data
         amp /= len(fnames_src)
 
+        if dt != _cls.sensors[0].dt:
+            msg = f"The source's time step ({dt}) must be that of the sensors ({_cls.sensors[0].dt})."
+            raise ValueError(msg)
+
         source = SourceWithSignal(_cls.source.x,
                                   _cls.source.y,
                                   _cls.source.z,
@@ -859,7 +866,6 @@ class Array1DwSource(Array1D):
 
     def xcorrelate(self, vmin=None, vmax=None):
 
-        # TODO (jpv): Check dt for source and signal
         # TODO (jpv): Size of source and receiver signal
 
         if vmax is None:
-- 
2.43.0


From 4383d903f3b9986beed394eaa45cdfc8663f907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 33/43] fix: the frequency-domain workflow refuses shots with
 different frequencies

---
 swprocess/maswworkflows.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swprocess/maswworkflows.py b/swprocess/maswworkflows.py
index 5f84c9b..9af0791 100644
--- a/swprocess/maswworkflows.py
+++ b/swprocess/maswworkflows.py
@@ -20,6 +20,8 @@ from abc import ABC, abstractmethod
 import warnings
 import logging
 
+import numpy as np
+
 from .register import MaswWorkflowRegistry
 from .wavefieldtransforms import WavefieldTransformRegistry
 from .array1d import Array1D, Array1DwSource
@@ -301,6 +303,12 @@ class FrequencyDomainMaswWorkflow(AbstractMaswWorkflow):
             self.pad()
             transform = Transform.from_array(array=self.array,
                                              settings=proc)
+            frequencies = running_stack.frequencies
+            if (len(transform.frequencies) != len(frequencies)
+                    or not np.allclose(transform.frequencies, frequencies)):
+                msg = "Can only stack transforms of the same frequencies, "
+                msg += f"first dissimilar file is {fname}."
+                raise ValueError(msg)
             running_stack.stack(transform)
         running_stack.array = self.array
         if self.settings["signal-to-noise"]["perform"]:
-- 
2.43.0


From d849da9ec26550e41047d87cf3a4db1bf7a8d481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:31 +0000
Subject: [PATCH 34/43] fix: slant stacks no longer read beyond the record due
 to rounding

---
 swprocess/wavefieldtransforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index cafb4ae..08f29be 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -468,7 +468,7 @@ class SlantStack(AbstractWavefieldTransform):
         diff = diff.reshape((len(diff), 1))
         dt = array.sensors[0].dt
         npts = tmatrix.shape[1]
-        ntaus = npts - int(np.max(position)*np.max(1/velocities)/dt) - 1
+        ntaus = npts - int(np.max(position)/dt/np.min(velocities)) - 1
         slant_stack = np.empty((len(velocities), ntaus))
         rows = np.tile(np.arange(nchannels).reshape(nchannels, 1), (1, ntaus))
         cols = np.tile(np.arange(ntaus).reshape(1, ntaus), (nchannels, 1))
-- 
2.43.0


From 22c3636c6ddfa989db1042f166c91aeb5d92bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 35/43] fix: runs in several threads leave the process's
 warning filters unmodified

---
 swprocess/array1d.py |  8 +++-----
 swprocess/fileio.py  | 17 +++++++++++++++++
 swprocess/utils.py   |  5 ++---
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 42c2b89..3c45932 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -27,7 +27,7 @@ from scipy import signal
 
 from swprocess.source import SourceWithSignal
 
-from .fileio import replace_when_complete
+from .fileio import ignore_warnings, replace_when_complete
 from .interact import ginput_session
 from swprocess import Source, Sensor1C
 
@@ -656,8 +656,7 @@ class Array1D():
             obspy_read_kwargs = {}
 
         # Read traces from first file
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with ignore_warnings():
             stream = obspy.read(str(fnames[0]), **obspy_read_kwargs)
 
         # Create array of sensors
@@ -730,8 +729,7 @@ class Array1D():
         # Stack additional traces, if necessary
         if len(fnames) > 0:
             for fname in fnames[1:]:
-                with warnings.catch_warnings():
-                    warnings.simplefilter("ignore")
+                with ignore_warnings():
                     stream = obspy.read(str(fname), **obspy_read_kwargs)
                 nsource = parse_source(stream[0].stats)
                 if nsource != source:
diff --git a/swprocess/fileio.py b/swprocess/fileio.py
index 9068a84..052be76 100644
--- a/swprocess/fileio.py
+++ b/swprocess/fileio.py
@@ -19,6 +19,23 @@
 
 import contextlib
 import os
+import threading
+import warnings
+
+_FILTERS_LOCK = threading.RLock()
+
+
+@contextlib.contextmanager
+def ignore_warnings():
+    """Ignore warnings, one thread at a time.
+
+    The warning filters belong to the process. If threads were to change
+    and restore them concurrently they would be left modified.
+
+    """
+    with _FILTERS_LOCK, warnings.catch_warnings():
+        warnings.simplefilter("ignore")
+        yield
 
 
 @contextlib.contextmanager
diff --git a/swprocess/utils.py b/swprocess/utils.py
index aba7e22..6873a2f 100644
--- a/swprocess/utils.py
+++ b/swprocess/utils.py
@@ -27,7 +27,7 @@ import numpy as np
 import obspy
 import pandas as pd
 
-from .fileio import replace_when_complete
+from .fileio import ignore_warnings, replace_when_complete
 
 logger = logging.getLogger("swprocess.utils")
 
@@ -76,8 +76,7 @@ def extract_mseed(startend_fname, network, data_dir="./", output_dir="./", exten
              "end hour": int, "end minute": int, "end second": int,
              "notes": str}
     try:
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with ignore_warnings():
             df = pd.read_csv(startend_fname, dtype=dtype,
                              keep_default_na=False)
     except:
-- 
2.43.0


From 7792ee435f6d00fd92b6b06040a1ae8db5487ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:30 +0000
Subject: [PATCH 36/43] fix: an interrupt while reading headers is no longer
 taken for a missing header

---
 swprocess/sensor1c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swprocess/sensor1c.py b/swprocess/sensor1c.py
index f3d9d96..f026caf 100644
--- a/swprocess/sensor1c.py
+++ b/swprocess/sensor1c.py
@@ -116,7 +116,7 @@ class Sensor1C(ActiveTimeSeries):
         else:
             try:
                 _format = trace.stats._format.upper()
-            except:
+            except AttributeError:
                 raise ValueError("Trace type could not be identified.")
 
         if read_header:
@@ -136,7 +136,8 @@ class Sensor1C(ActiveTimeSeries):
     def _safely_get_header(header, name_to_get, default_value, conversion_function):
         try:
             value = conversion_function(getattr(header, name_to_get))
-        except:
+        except (AttributeError, LookupError, ArithmeticError,
+                TypeError, ValueError):
             msg = f"Failed to get {name_to_get}, set to {default_value}."
             warnings.warn(msg)
             value = default_value
-- 
2.43.0


From d53d976faa3dbfef57d414ecd33211e7f865670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 37/43] fix: stacking averages the computed power, not what a
 plot normalized it to

---
 swprocess/wavefieldtransforms.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/swprocess/wavefieldtransforms.py b/swprocess/wavefieldtransforms.py
index 08f29be..b7fa2e0 100644
--- a/swprocess/wavefieldtransforms.py
+++ b/swprocess/wavefieldtransforms.py
@@ -41,7 +41,7 @@ class AbstractWavefieldTransform(ABC):
         self.power = power
 
         # Pre-define internal state attributes
-        self._to_abs = 1.
+        self._computed_power = None
 
         # Pre-define optional attributes
         self.snr = None
@@ -97,20 +97,23 @@ class AbstractWavefieldTransform(ABC):
 
         """
         # Select normalization
-        register = {"none": (np.abs,
-                             lambda x: 1.),
-                    "absolute-maximum": (lambda x: np.abs(x)/np.max(np.abs(x)),
-                                         lambda x: np.max(np.abs(x))),
-                    "frequency-maximum": (lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
-                                          lambda x: np.max(np.abs(x), axis=0))
+        register = {"none": np.abs,
+                    "absolute-maximum": lambda x: np.abs(x)/np.max(np.abs(x)),
+                    "frequency-maximum": lambda x: np.abs(x)/np.max(np.abs(x), axis=0),
                     }
-        to_norm, to_abs = register[by]
+        to_norm = register[by]
 
         # Return power to unnormalized state.
-        power = self.power * self._to_abs
+        power = self._unnormalized_power()
 
         # Normalize power
-        self.power, self._to_abs = (to_norm(power), to_abs(power))
+        self._computed_power, self.power = (power, to_norm(power))
+
+    def _unnormalized_power(self):
+        """Power as computed, whether it is currently normalized or not."""
+        if self._computed_power is None:
+            return self.power
+        return self._computed_power
 
     def find_peak_power(self, by="frequency-maximum", **kwargs):
         """Find maximum `WavefieldTransform` power.
@@ -359,13 +362,14 @@ class EmptyWavefieldTransform(AbstractWavefieldTransform):
 
     def stack(self, other):
         try:
-            power = (self.power*self.n + other.power*other.n)
+            power = (self._unnormalized_power()*self.n
+                     + other._unnormalized_power()*other.n)
             n = self.n + other.n
             power /= n
         except AttributeError as e:
             msg = "Can only append objects if descendant of `AbstractWavefieldTransform`."
             raise AttributeError(msg) from e
-        self.power, self.n = (power, n)
+        self.power, self._computed_power, self.n = (power, None, n)
 
     @classmethod
     def transform(cls, array, velocities, settings):  # pragma: no cover
-- 
2.43.0


From 5f97ec61fa9eac88bcf074f03af73e1c3c828047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 38/43] fix: the source of a SEG2 shot is mapped in y as its
 receivers are

---
 swprocess/array1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 3c45932..8a8cdbe 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -670,7 +670,7 @@ class Array1D():
         if _format == "SEG2":
             def parse_source(stats):
                 x = float(stats.seg2.SOURCE_LOCATION)
-                return Source(x=map_x(x), y=0, z=0)
+                return Source(x=map_x(x), y=map_y(0), z=0)
 
         elif _format == "SU":
             def parse_source(stats):
-- 
2.43.0


From 2ba570e507ebad84410b743bd317291377d0ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:42 +0000
Subject: [PATCH 39/43] fix: a peak of unknown power is not left out of the
 statistics

---
 swprocess/peaks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/swprocess/peaks.py b/swprocess/peaks.py
index a58ad2d..b7fce67 100644
--- a/swprocess/peaks.py
+++ b/swprocess/peaks.py
@@ -507,16 +507,17 @@ class Peaks():
 
         values = []
         for cindex, (colvals, valids) in enumerate(zip(decide.T, self._valid.T)):
-            mindex = 0
+            mindex = None
             mval = -np.inf
             for rindex, (rowval, valid) in enumerate(zip(colvals, valids)):
                 if not valid:
                     continue
-                if rowval > mval:
+                # Unknown power (nan) is weaker than any known.
+                if mindex is None or rowval > mval:
                     mindex = rindex
-                    mval = rowval
+                    mval = -np.inf if np.isnan(rowval) else rowval
 
-            if mval != -np.inf:
+            if mindex is not None:
                 values.append(attr[mindex, cindex])
 
         return values
-- 
2.43.0


From 647305ebe0d8e0cc38de4e38aaf73ec0c028b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:44 +0000
Subject: [PATCH 40/43] fix: statistics use the values of sparse observations
 too

---
 swprocess/peakssuite.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swprocess/peakssuite.py b/swprocess/peakssuite.py
index b9180c1..bb09ed5 100644
--- a/swprocess/peakssuite.py
+++ b/swprocess/peakssuite.py
@@ -579,9 +579,11 @@ class PeaksSuite():
 
         xx, data_matrix = self.to_array(xtype, ytype, xx)
 
+        # Besides samples with too few values drop only what has none at all.
+        any_value = np.finfo(float).tiny
         xx, data_matrix = self._drop(xx, data_matrix,
-                                     drop_sample_if_fewer_percent=0.01,
-                                     drop_observation_if_fewer_percent=0.01,
+                                     drop_sample_if_fewer_percent=any_value,
+                                     drop_observation_if_fewer_percent=any_value,
                                      drop_sample_if_fewer_count=drop_sample_if_fewer_count)
 
         mean = np.nanmean(data_matrix, axis=0)
-- 
2.43.0


From e24668a9ac4788672a318c967640bddb263e72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:53 +0000
Subject: [PATCH 41/43] fix: a trimmed record's times stay those of its samples

---
 swprocess/activetimeseries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swprocess/activetimeseries.py b/swprocess/activetimeseries.py
index 31e5612..25acb22 100644
--- a/swprocess/activetimeseries.py
+++ b/swprocess/activetimeseries.py
@@ -235,8 +235,12 @@ class ActiveTimeSeries(TimeSeries):
             Updates the attributes `nsamples` and `delay`.
 
         """
+        time = self.time
         super().trim(start_time, end_time)
-        self._delay = start_time
+        # The record begins with the sample closest to `start_time`.
+        first = float(time[np.argmin(np.absolute(time - start_time))])
+        is_sample_time = abs(first - start_time) < 1E-6*self.dt
+        self._delay = start_time if is_sample_time else first
 
     def zero_pad(self, df):
         """Append zeros to `amp` to achieve a desired frequency step.
-- 
2.43.0


From 0de6570e887dbf9b81b5cd8eb428d93957284651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:41 +0000
Subject: [PATCH 42/43] fix: refuse a mute line whose points are at the same
 distance

---
 swprocess/array1d.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 8a8cdbe..84cf3e8 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -559,6 +559,11 @@ class Array1D():
             Modifies the object internal state.
 
         """
+        for line in (signal_start, signal_end):
+            if line is not None and line[0][0] == line[1][0]:
+                msg = "The two points of a line must be at different distances."
+                raise ValueError(msg)
+
         # General variables common to intercept calculations.
         position = np.array(self.position())
         dt = self[0].dt
-- 
2.43.0


From 83526754874923733c76b1ddb827fa1b59252f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:27 +0000
Subject: [PATCH 43/43] fix: refuse files whose traces have different sources

---
 swprocess/array1d.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/swprocess/array1d.py b/swprocess/array1d.py
index 84cf3e8..5061fef 100644
--- a/swprocess/array1d.py
+++ b/swprocess/array1d.py
@@ -728,7 +728,14 @@ class Array1D():
 
                 return Source(x=map_x(x), y=map_y(y), z=0)
 
-        source = parse_source(trace.stats)
+        def parse_common_source(stream):
+            source, *others = [parse_source(trace.stats) for trace in stream]
+            if any(other != source for other in others):
+                msg = "All traces of a file must have the same source."
+                raise ValueError(msg)
+            return source
+
+        source = parse_common_source(stream)
         obj = cls(sensors, source)
 
         # Stack additional traces, if necessary
@@ -736,7 +743,7 @@ class Array1D():
             for fname in fnames[1:]:
                 with ignore_warnings():
                     stream = obspy.read(str(fname), **obspy_read_kwargs)
-                nsource = parse_source(stream[0].stats)
+                nsource = parse_common_source(stream)
                 if nsource != source:
                     msg = f"fname = {fname} has an incompatible source."
                     raise ValueError(msg)
-- 
2.43.0

