From 1ea3b41daa6f8d2bf69ab4c444dff9ad44b567c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 01/65] fix: don't apply time-offset of calibration to
 durations and time-deltas

---
 shepherd_core/shepherd_core/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..0ca6902 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -178,7 +178,8 @@ class Reader:
         # above's typecasting prevents overflow in u64-format
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
-            duration_s = self._cal.time.raw_to_si(duration_raw)
+            duration_s = duration_raw * self._cal.time.gain
+            # ⤷ a time-offset does not apply to durations
             self.sample_interval_s = duration_s / sample_count
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
@@ -547,7 +548,7 @@ class Reader:
 
         diffs_ll = [calc_timediffs(i) for i in job_iter]
         diffs = {
-            round(self._cal.time.raw_to_si(j) / self.samples_per_buffer, 6)
+            round(float(j) * self._cal.time.gain / self.samples_per_buffer, 6)
             for i in diffs_ll
             for j in i
         }
-- 
2.43.0


From 609c3c6f68b1482c9921cc345a241904e7712cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 02/65] fix: derive sample-interval from the number of
 intervals between first and last sample

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 0ca6902..6507b2c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -180,7 +180,7 @@ class Reader:
             # this assumes iso-chronous sampling
             duration_s = duration_raw * self._cal.time.gain
             # ⤷ a time-offset does not apply to durations
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 4fad069f29bdb0062037be5c7c1249230586fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 03/65] fix: validate arguments of Writer before the file gets
 truncated or modified

---
 shepherd_core/shepherd_core/writer.py | 54 +++++++++++++++++----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..ea96581 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -138,9 +138,32 @@ class Writer(Reader):
                 self.file_path.name,
             )
 
+        # Validate Arguments (before the file gets touched)
+        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
+            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
+            raise ValueError(msg)
+        if isinstance(datatype, str):
+            datatype = EnergyDType[datatype]
+        if not self._modify:
+            self._validate_type(
+                mode or self.mode_default, datatype or self.datatype_default, window_samples or 0
+            )
+
         # open file
         if self._modify:
             self.h5file = h5py.File(self.file_path, "r+")  # = rw
+            _stored = self.h5file["data"].attrs.get("datatype", self.datatype_default.name)
+            _window = self.get_window_samples() if window_samples is None else window_samples
+            try:
+                self._validate_type(
+                    mode or self.h5file.attrs.get("mode", self.mode_default),
+                    datatype or EnergyDType.__members__.get(_stored),
+                    # window is only mandatory for an explicit request
+                    _window if datatype else 1,
+                )
+            except (KeyError, ValueError):
+                self.h5file.close()
+                raise
         else:
             if not self.file_path.parent.exists():
                 self.file_path.parent.mkdir(parents=True)
@@ -149,33 +172,16 @@ class Writer(Reader):
             self._create_skeleton()
 
         # Handle Mode
-        if isinstance(mode, str) and mode not in self.mode_dtype_dict:
-            msg = f"Can't handle mode '{mode}' (choose one of {self.mode_dtype_dict})"
-            raise ValueError(msg)
-
         if mode is not None:
             self.h5file.attrs["mode"] = mode
         if "mode" not in self.h5file.attrs:
             self.h5file.attrs["mode"] = self.mode_default
 
-        _dtypes = self.mode_dtype_dict[self.get_mode()]
-
         # Handle Datatype
-        if isinstance(datatype, str):
-            datatype = EnergyDType[datatype]
-        if isinstance(datatype, EnergyDType) and datatype not in _dtypes:
-            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
-            raise ValueError(msg)
-
         if isinstance(datatype, EnergyDType):
             self.h5file["data"].attrs["datatype"] = datatype.name
         if "datatype" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["datatype"] = self.datatype_default.name
-        if self.get_datatype() not in _dtypes:
-            msg = (
-                f"Can't handle value '{self.get_datatype()}' of datatype (choose one of {_dtypes})"
-            )
-            raise ValueError(msg)
 
         # Handle Window_samples
         if window_samples is not None:
@@ -183,9 +189,6 @@ class Writer(Reader):
         if "window_samples" not in self.h5file["data"].attrs:
             self.h5file["data"].attrs["window_samples"] = 0
 
-        if datatype == EnergyDType.ivcurve and self.get_window_samples() < 1:
-            raise ValueError("Window Size argument needed for ivcurve-Datatype")
-
         # Handle Cal
         if isinstance(cal_data, (CalEmu, CalHrv)):
             cal_data = CalSeries.from_cal(cal_data)
@@ -228,6 +231,17 @@ class Writer(Reader):
         self.is_valid()
         self.h5file.close()
 
+    def _validate_type(
+        self, mode: str, datatype: Optional[EnergyDType], window_samples: int
+    ) -> None:
+        """Check if the combination of mode, datatype and window-size is supported."""
+        _dtypes = self.mode_dtype_dict[mode]
+        if datatype not in _dtypes:
+            msg = f"Can't handle value '{datatype}' of datatype (choose one of {_dtypes})"
+            raise ValueError(msg)
+        if datatype == EnergyDType.ivcurve and window_samples < 1:
+            raise ValueError("Window Size argument needed for ivcurve-Datatype")
+
     def _create_skeleton(self) -> None:
         """Initialize the structure of the HDF5 file.
 
-- 
2.43.0


From f8b0d0ab5602420544d579f1860aa17c069ef228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 04/65] fix: let reader find the config stored by writer

---
 shepherd_core/shepherd_core/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 6507b2c..499ba31 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -256,8 +256,9 @@ class Reader:
         return ""
 
     def get_config(self) -> Dict:
-        if "config" in self.h5file["data"].attrs:
-            return yaml.safe_load(self.h5file["data"].attrs["config"])
+        for node in (self.h5file["data"], self.h5file):  # Writer stores it at root-level
+            if "config" in node.attrs:
+                return yaml.safe_load(node.attrs["config"])
         return {}
 
     def get_hostname(self) -> str:
-- 
2.43.0


From fcfc911ede81307d1c25316715a35db6026ebb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 05/65] fix: report voltage-step from recorded data in volt and
 for falling ramps

---
 shepherd_core/shepherd_core/reader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 499ba31..6f8767d 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -289,16 +289,14 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
+            dsv = self.ds_voltage[0:2000].astype("i8")  # signed, for descending ramps
+            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
             diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
             # static voltages have 0 steps, so
             if len(diffs_ls) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(min(diffs_ls)) * self._cal.voltage.gain
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From b5d19012d9be226b101d2fb2182a280a28592456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 06/65] fix: detect time-jumps between analysis-blocks

---
 shepherd_core/shepherd_core/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 6f8767d..d5763a7 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -528,11 +528,13 @@ class Reader:
 
         :return: list of (unique) time-deltas between buffers [s]
         """
-        iterations = math.ceil(self.ds_time.shape[0] / self.max_elements)
+        # blocks start at buffer-borders and overlap by one -> no diff gets lost
+        block_len = max(1, self.max_elements // self.samples_per_buffer) * self.samples_per_buffer
+        iterations = math.ceil(self.ds_time.shape[0] / block_len)
         job_iter = trange(
             0,
             self.h5file["data"]["time"].shape[0],
-            self.max_elements,
+            block_len,
             desc="timediff",
             leave=False,
             disable=iterations < 8,
@@ -540,7 +542,7 @@ class Reader:
 
         def calc_timediffs(idx_start: int) -> list:
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + block_len + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
-- 
2.43.0


From 62b81f0af8bc977b8ae8530aec4812c490b80149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 07/65] fix: time-check of recordings with just one (or no)
 buffer

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index d5763a7..a13f4bb 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -567,6 +567,8 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
+        if len(diffs) == 0:  # just one buffer
+            return True
         return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
-- 
2.43.0


From e0b499c25f6c8a3eea874c330cf07517f8379181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 08/65] fix: prefer exact match when searching a gpio-pin by
 name

---
 shepherd_core/shepherd_core/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index a13f4bb..7810d4c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -662,6 +662,9 @@ class Reader:
         if "gpio" not in self.h5file:
             return None
         descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
+        for desc_name, desc in descriptions.items():
+            if name == desc["name"]:
+                return int(desc_name)
         for desc_name, desc in descriptions.items():
             if name in desc["name"]:
                 return int(desc_name)
-- 
2.43.0


From d86ece520d04869c6a369774127bca1a9694e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 09/65] fix: allow empty gpio-traces

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 7810d4c..473539f 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -678,6 +678,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if len(data) < 1:
+            return np.zeros(data.shape, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From 39ed0f5743cb7625ab437a2c99d9fa120cd59f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 10/65] fix: use chosen separator also for the header of
 waveform-csv

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 473539f..b60a1d0 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -714,7 +714,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From 2ae710c96cdb609b4d344fc2965ea59da37fbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 11/65] fix: csv-export of datasets without offset was off by
 one

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..1e0efb9 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From fa7ede7adea4fab2043313aa58892c48248ef974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 12/65] fix: log-export of groups that contain sub-groups

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 1e0efb9..b16a4d7 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [key for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From 2eb6f1d1d80787e66e713897810b72406c52b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 13/65] fix: keep a uniform sampling-grid when downsampling in
 blocks

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index b16a4d7..b09d60d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # inner blocks must contain a multiple of ds_factor to keep the phase of the sampling-grid
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From 0594df36cfcec402a0912417f12535a2701f90e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 14/65] fix: don't lose end of recording (up to 50 ms) when
 cutting & downsampling

---
 shepherd_data/shepherd_data/reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index b09d60d..adfbd77 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -262,10 +262,12 @@ class Reader(CoreReader):
         # prepare cut
         if not isinstance(start_s, (float, int)):
             start_s = 0
+        duration_s = self.ds_time.shape[0] / self.samplerate_sps
+        # ⤷ more precise than .runtime_s
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
 
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
@@ -291,7 +293,7 @@ class Reader(CoreReader):
             )
 
         # assemble file-name of output
-        if start_s != 0.0 or end_s != self.runtime_s:
+        if start_s != 0.0 or end_s != duration_s:
             start_str = f"{start_s:.3f}".replace(".", "s")
             end_str = f"{end_s:.3f}".replace(".", "s")
             cut_str = f".cut_{start_str}_to_{end_str}"
-- 
2.43.0


From 72e4a0c780a3d9c2802f79e422ba5c7fd59cbecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 15/65] fix: roll back failing append, so datasets stay
 consistent

---
 shepherd_core/shepherd_core/writer.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index ea96581..b04446e 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -322,15 +322,22 @@ class Writer(Reader):
 
         len_old = self.ds_voltage.shape[0]
 
-        # resize dataset
-        self.ds_time.resize((len_old + len_new,))
-        self.ds_voltage.resize((len_old + len_new,))
-        self.ds_current.resize((len_old + len_new,))
-
-        # append new data
-        self.ds_time[len_old : len_old + len_new] = timestamp[:len_new]
-        self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]
-        self.ds_current[len_old : len_old + len_new] = current[:len_new]
+        try:
+            # resize dataset
+            self.ds_time.resize((len_old + len_new,))
+            self.ds_voltage.resize((len_old + len_new,))
+            self.ds_current.resize((len_old + len_new,))
+
+            # append new data
+            self.ds_time[len_old : len_old + len_new] = timestamp[:len_new]
+            self.ds_voltage[len_old : len_old + len_new] = voltage[:len_new]
+            self.ds_current[len_old : len_old + len_new] = current[:len_new]
+        except Exception:
+            # roll back, so datasets stay aligned & without phantom-samples
+            self.ds_time.resize((len_old,))
+            self.ds_voltage.resize((len_old,))
+            self.ds_current.resize((len_old,))
+            raise
 
     def append_iv_data_si(
         self,
-- 
2.43.0


From 385394581724a2f74f1e635a3efd11cd8b7ab0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 16/65] fix: avoid start-transient (step-response from zero) in
 downsampled data

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index adfbd77..355198a 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -224,7 +224,8 @@ class Reader(CoreReader):
             ftype="butter",
         )
         # filter state - needed for sliced calculation
-        f_state = np.zeros((filter_.shape[0], 2))
+        # -> start in steady state, otherwise the result begins with a step-response from zero
+        f_state = signal.sosfilt_zi(filter_) * float(data_src[start_n])
 
         slice_len = 0
         for _iter in trange(
-- 
2.43.0


From b534cce85ba67c9adf9b806ed9f5bfe70aada82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 17/65] fix: allow tab as csv-separator

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 355198a..2eb3ca5 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -64,7 +64,7 @@ class Reader(CoreReader):
         ]
         datasets.remove("time")
         datasets = ["time", *datasets]
-        separator = separator.strip().ljust(2)
+        separator = separator.strip(" ").ljust(2)  # keeps tabs
         header_elements: List[str] = [
             str(h5_group[key].attrs["description"]).replace(", ", separator) for key in datasets
         ]
-- 
2.43.0


From d6e7e639f9a38f792a8d39da348792ee9e0761f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 18/65] fix: don't modify the callers waveform when decoding
 uart

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..8c04f1a 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,8 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            # copy, because events get modified below
+            self.events_sig = np.array(content, dtype=float)
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From 5be867ddb1c35069e39614b96cd5ccb376312b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 19/65] fix: keep symbol after lone CR, unfinished last line
 and time of empty lines when decoding uart

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 8c04f1a..06776de 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -269,12 +269,13 @@ class Uart:
         for time, symbol in self.events_symbols:
             if symbol == "\n" or semi_stop:
                 if symbol == "\n":
+                    t_start = time if t_start is None else t_start
                     line += symbol
                 content.append((t_start, line))
                 semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
+                if symbol == "\n":
                     continue
             if symbol == "\r":
                 semi_stop = True
@@ -282,6 +283,8 @@ class Uart:
             if t_start is None:
                 t_start = time
             line += symbol
+        if len(line) > 0:  # last line without line-break
+            content.append((t_start, line))
         self.events_lines = np.concatenate(content).reshape((len(content), 2))
         return self.events_lines
 
-- 
2.43.0


From aaf39efd9ba109b4937580d4406250909faf2f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 20/65] fix: decode uart-symbols with msb set and the last
 symbol of a recording

---
 .../shepherd_core/decoder_waveform/uart.py    | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index 06776de..c7212d3 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -150,9 +150,11 @@ class Uart:
             return
         if not hasattr(self, "dur_tick"):
             raise ValueError("Make sure that baud-rate was calculated before running add_dur()")
-        dur_steps = self.events_sig[1:, 0] - self.events_sig[:-1, 0]
-        dur_steps = np.reshape(dur_steps, (dur_steps.size, 1))
-        self.events_sig = np.append(self.events_sig[:-1, :], dur_steps / self.dur_tick, axis=1)
+        dur_steps = (self.events_sig[1:, 0] - self.events_sig[:-1, 0]) / self.dur_tick
+        # last state has no known duration, but still belongs to the last frame
+        # -> handled as pause, but too short to influence the detectors
+        dur_steps = np.append(dur_steps, 80.0).reshape((-1, 1))
+        self.events_sig = np.append(self.events_sig, dur_steps, axis=1)
 
     def detect_inversion(self) -> bool:
         """Analyze bit-state during long pauses (unchanged states).
@@ -215,16 +217,12 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length:
-                if value:
-                    # long pause on High -> reset frame
-                    if pos_df is not None:
-                        content.append([t_start, chr(symbol)])
-                        t_start = None
-                        symbol = 0
-                    pos_df = None
-                else:
-                    logger.debug("Error - Long pause - but SigLow (@%d)", time)
+            # long pause on High just finishes the frame, LOW can be start + data-frame at most
+            if not value and steps > self.frame_length + 1.5:
+                logger.debug("Error - Long pause - but SigLow (@%d)", time)
+                t_start = None
+                symbol = 0
+                pos_df = None
                 continue
             if pos_df is None and value == 0:
                 # Start of frame (first low after pause / EOF)
@@ -233,9 +231,8 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
-                    lshift = min(pos_df, self.frame_length - 1)
-                    symbol += (2 ** round(chunk) - 1) << lshift
+                    chunk = min(round(steps), self.frame_length - pos_df)
+                    symbol += (2**chunk - 1) << pos_df
                 pos_df += round(steps)
                 off_tick = abs(steps - round(steps)) > 0.1
                 if pos_df >= self.frame_length or (off_tick and value):
-- 
2.43.0


From 9120903bf15c0d5b92861c61122e3be860333cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 21/65] fix: keep time-resolution when extracting uart from
 gpio-trace

---
 shepherd_core/shepherd_core/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index b60a1d0..8bb5ace 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -728,11 +728,16 @@ class Reader:
         if write_to_file:
             self.waveform_to_csv(pin_name, pin_wf)
 
-        gpio_wf = pin_wf.astype(float)
+        # decode relative to first event -> float can't resolve short bits in absolute time
+        gpio_wf = pin_wf.astype(np.int64)
+        ts_start = gpio_wf[0, 0] if len(gpio_wf) > 0 else 0
+        gpio_wf = (gpio_wf - [ts_start, 0]).astype(float)
         gpio_wf[:, 0] = gpio_wf[:, 0] / 1e9
 
         try:
-            return Uart(gpio_wf).get_lines()
+            lines = Uart(gpio_wf).get_lines()
+            times = lines[:, 0].astype(float) + ts_start / 1e9
+            return np.column_stack((times.astype(str), lines[:, 1]))
         except TypeError:
             self._logger.error("TypeError: Extracting UART from GPIO failed - will skip file.")
             return None
-- 
2.43.0


From e7adce0edb39d9a266b1fb950530cd39fd393315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 22/65] fix: handle request for waveform of an unknown pin

---
 shepherd_core/shepherd_core/reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 8bb5ace..f1edc07 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -695,7 +695,11 @@ class Reader:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
             pin_dict = {value["name"]: key for key, value in descriptions.items()}
         else:
-            pin_dict = {name: self.get_gpio_pin_num(name)}
+            pin_num = self.get_gpio_pin_num(name)
+            if pin_num is None:
+                self._logger.error("GPIO '%s' not found in recording", name)
+                return waveforms
+            pin_dict = {name: pin_num}
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From 458381a9a20fa9cf3b7bcc13b7fb439558a1a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 23/65] fix: reject calibration-measurements that don't define
 a line

---
 shepherd_core/shepherd_core/data_models/base/cal_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
index aa74a8c..72ebe36 100644
--- a/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
+++ b/shepherd_core/shepherd_core/data_models/base/cal_measurement.py
@@ -48,7 +48,7 @@ def meas_to_cal(data: CalMeasPairs, component: str) -> CalibrationPair:
     sstot = np.sum((y - ybar) ** 2)
     rval = ssreg / sstot
 
-    if rval < 0.999:
+    if rval < 0.999 or np.ptp(y) == 0:  # constant references can't define a line
         msg = (
             "Calibration faulty -> Correlation coefficient "
             f"(rvalue) = {rval}:.6f is too low for '{component}'"
-- 
2.43.0


From ea10baf9e834821cf4fdb897890c6d94f1ea5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 24/65] fix: no energy from sources below capacitor-voltage
 when a series-resistor is configured

---
 shepherd_core/shepherd_core/vsource/virtual_converter_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
index 8d0c1f5..012f339 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_converter_model.py
@@ -132,7 +132,7 @@ class VirtualConverterModel:
             )
             V_res_drop_uV = input_current_nA * self.R_input_kOhm
             if V_res_drop_uV > V_diff_uV:
-                input_voltage_uV = self.V_mid_uV
+                input_voltage_uV = min(input_voltage_uV, self.V_mid_uV)
             else:
                 input_voltage_uV -= V_res_drop_uV
 
-- 
2.43.0


From 0a66e42fb62139a7ba20e2f6e67b59efd75e13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 25/65] fix: keep extrapolated operating point of harvester
 non-negative

---
 shepherd_core/shepherd_core/vsource/virtual_harvester_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
index 41cf950..b91b9e1 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_harvester_model.py
@@ -144,7 +144,8 @@ class VirtualHarvesterModel:
         self.voltage_last = _voltage_uV
         self.current_last = _current_nA
         self.compare_last = compare_now
-        return self.voltage_hold, self.current_hold
+        # Python-specific (model unsigned int), extrapolation can leave the first quadrant
+        return max(0, self.voltage_hold), max(0, self.current_hold)
 
     def ivcurve_2_mppt_voc(self, _voltage_uV: int, _current_nA: int) -> Tuple[int, int]:
         self.interval_step = self.interval_step + 1
-- 
2.43.0


From 9da9e36cd947e205d501a02dbfadc73915a22bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 26/65] fix: allow stepping a constant-power-target without
 supply-voltage

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..3af6f71 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0  # regulator is not supplied (and would divide by zero)
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 016d8f11a23e0c89c84511a6dd7ac019306f4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 27/65] fix: solve diode-equation of target also below its
 forward-voltage

---
 .../shepherd_core/vsource/target_model.py     | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index 3af6f71..e74562f 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -12,7 +12,6 @@ TODO: add more targets
 import math
 from abc import ABC
 from abc import abstractmethod
-from contextlib import suppress
 
 
 class TargetABC(ABC):
@@ -80,21 +79,19 @@ class DiodeTarget(TargetABC):
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
         if pwr_good or not self.ctrl:
             V_CC = voltage_uV * 1e-6
-            V_D = V_CC / 2
-            I_R = I_D = 0
-            # there is no direct formular, but this iteration converges fast
-            for _ in range(10):
-                # low voltages tend to produce log(x<0)=err
-                with suppress(ValueError):
-                    V_D = self.c1 * math.log(1 + (V_CC - V_D) / (self.R_Ohm * self.I_S))
+            if V_CC <= 0:
+                return 0
+            # upper limit for the voltage of the diode, as I_D <= V_CC / R
+            V_D = min(V_CC, self.c1 * math.log1p(V_CC / (self.R_Ohm * self.I_S)))
+            I_R = I_D = 0.0
+            # there is no direct formular, but newtons method converges fast (from above)
+            for _ in range(20):
                 # both currents are positive and should be identical
                 I_R = max(0.0, (V_CC - V_D) / self.R_Ohm)
                 I_D = max(0.0, self.I_S * math.expm1(V_D / self.c1))
-                with suppress(ZeroDivisionError):
-                    if abs(I_R / I_D - 1) < 1e-6:
-                        break
-                # take mean of both currents and determine a new V_D
-                V_D = V_CC - self.R_Ohm * (I_R + I_D) / 2
+                if abs(I_R - I_D) <= 1e-6 * I_D:
+                    break
+                V_D -= (I_D - I_R) / ((I_D + self.I_S) / self.c1 + 1 / self.R_Ohm)
             return 1e9 * (I_R + I_D) / 2  # = nA
         return 0
 
-- 
2.43.0


From 7144ddd00145162e11a82d040411e1e67de35b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 28/65] fix: keep sub-second part of time spans when exporting
 models to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 shepherd_core/shepherd_core/writer.py                    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..0aeb637 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,7 +32,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index b04446e..8ced5b7 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,7 +42,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
-- 
2.43.0


From ae66f15bd3609ffa323711f17539ed183f4d1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 29/65] fix: allow exporting models with url or ipv6-address to
 yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 0aeb637..c093ee2 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -48,6 +50,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From 8bc9ccbafbfa6a9aa0d86479888f7698501311f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 30/65] fix: equal models get the same hash, independent of the
 name of their timezone

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index c093ee2..9d77022 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -1,6 +1,7 @@
 """Shepherds base-model that brings a lot of default functionality."""
 
 import hashlib
+import json
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
@@ -171,4 +172,6 @@ class ShpModel(BaseModel):
         return cls(**shp_wrap.parameters)
 
     def get_hash(self) -> str:
-        return hashlib.sha3_224(str(self.model_dump()).encode("utf-8")).hexdigest()
+        content = json.dumps(self.model_dump(), default=str)
+        # ⤷ equal models get the same hash, repr() would also include the names of timezones
+        return hashlib.sha3_224(content.encode("utf-8")).hexdigest()
-- 
2.43.0


From 092f714bc51a362d322d5684b17b5d487a0a8a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 31/65] fix: paths of firmwares keep their type when exported
 and imported

---
 .../shepherd_core/data_models/content/firmware.py     | 11 ++++++++++-
 .../shepherd_core/data_models/task/firmware_mod.py    |  5 ++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..2d15044 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -8,6 +8,7 @@ from typing import Optional
 from typing import TypedDict
 from typing import Union
 
+from pydantic import BeforeValidator
 from pydantic import StringConstraints
 from pydantic import model_validator
 from pydantic import validate_call
@@ -49,6 +50,14 @@ arch_to_mcu: dict = {
 FirmwareStr = Annotated[str, StringConstraints(min_length=3, max_length=8_000_000)]
 
 
+def path2str(data: Union[str, Path]) -> Union[str, Path]:
+    """Bring paths into the same form they have after an export."""
+    return data.as_posix() if isinstance(data, Path) else data
+
+
+FirmwareData = Annotated[Union[FirmwareStr, Path], BeforeValidator(path2str)]
+
+
 class Firmware(ContentModel, title="Firmware of Target"):
     """meta-data representation of a data-component."""
 
@@ -56,7 +65,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
 
     mcu: MCU
 
-    data: Union[FirmwareStr, Path]
+    data: FirmwareData
     data_type: FirmwareDType
     data_hash: Optional[str] = None
     data_local: bool = True
diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index 735a28d..bcfee1e 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -4,7 +4,6 @@ import copy
 from pathlib import Path
 from typing import Optional
 from typing import TypedDict
-from typing import Union
 
 from pydantic import Field
 from pydantic import model_validator
@@ -17,8 +16,8 @@ from ...logger import logger
 from ..base.content import IdInt
 from ..base.shepherd import ShpModel
 from ..content.firmware import Firmware
+from ..content.firmware import FirmwareData
 from ..content.firmware import FirmwareDType
-from ..content.firmware import FirmwareStr
 from ..experiment.experiment import Experiment
 from ..testbed import Testbed
 from ..testbed.target import IdInt16
@@ -28,7 +27,7 @@ from ..testbed.target import MCUPort
 class FirmwareModTask(ShpModel):
     """Config for Task that adds the custom ID to the firmware & stores it into a file."""
 
-    data: Union[FirmwareStr, Path]
+    data: FirmwareData
     data_type: FirmwareDType
     custom_id: Optional[IdInt16] = None
     firmware_file: Path
-- 
2.43.0


From 45a83c65dbb16aa054e366af8aa6a6b311a66688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 32/65] fix: collected inventory equals its export

---
 shepherd_core/shepherd_core/inventory/system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 0ac1997..9634e68 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -68,7 +68,7 @@ class SystemInventory(ShpModel):
             )
         else:
             ifs1 = psutil.net_if_addrs().items()
-            ifs2 = {name: (_if[1].address, _if[0].address) for name, _if in ifs1 if len(_if) > 1}
+            ifs2 = {name: [_if[1].address, _if[0].address] for name, _if in ifs1 if len(_if) > 1}
             uptime = time.time() - psutil.boot_time()
 
         fs_cmd = ["/usr/bin/df", "-h", "/"]
-- 
2.43.0


From 37014c216798404a7e9d220a8617b88ae8ab8b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 33/65] fix: give harvester-fixture cv10 its own id (clashed
 with cv33)

---
 .../data_models/content/virtual_harvester_fixture.yaml          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
index 9fc270a..0ee7603 100644
--- a/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
+++ b/shepherd_core/shepherd_core/data_models/content/virtual_harvester_fixture.yaml
@@ -88,7 +88,7 @@
 
 - datatype: VirtualHarvesterConfig
   parameters:
-    id: 2102
+    id: 2103
     name: cv10
     inherit_from: cv20
     voltage_mV: 1000
-- 
2.43.0


From e8a1e17759875c9bb4a68ee8b091e7ac17cba739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 34/65] fix: reject circular inheritance of fixtures instead of
 exceeding recursion-limit

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..614945e 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -107,6 +107,10 @@ class Fixture:
                         msg,
                     )
                 chain.append(base_name)
+            if [str(_n).lower() for _n in chain].count(str(fixture_name).lower()) > 1:
+                # ⤷ one match is fine, new elements can have the same name as an ancestor
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             fixture_base = copy.copy(self[fixture_name])
             logger.debug("'%s' will inherit from '%s'", self.model_type, fixture_name)
             fixture_base["name"] = fixture_name
-- 
2.43.0


From 5080f78e155bd7a7dd5e98b2f9b7db6fad9eee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 35/65] fix: finding targets of testbeds that include an
 observer without cape

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..4c78e8d 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,8 +93,8 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
-                # skip decommissioned setups
+            if not _observer.active or _observer.cape is None or not _observer.cape.active:
+                # skip decommissioned (or incomplete) setups
                 continue
             if _observer.has_target(target_id):
                 return _observer
-- 
2.43.0


From 869909daf0c787395c146e2d566982add7b11a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 36/65] fix: check collisions between custom IDs and those that
 get used by default (testbed-ID)

---
 .../shepherd_core/data_models/experiment/experiment.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..6ca4671 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -75,12 +75,13 @@ class Experiment(ShpModel, title="Config of an Experiment"):
         for _config in configs:
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                target = Target(id=_id)
                 # ⤷ this can raise exception for non-existing targets
+                if _config.custom_IDs is None:
+                    custom_ids.append(target.testbed_id)
+                    # ⤷ default, when no custom ID is provided
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
-            else:
-                custom_ids = custom_ids + _config.target_IDs
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From e6e1461fadee55b7a1b89dd93c60f2071b821996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 37/65] fix: detect capes & targets that are used more than
 once in testbed by ID

comparing model-instances missed most duplicates, as 'created' defaults to now
---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 4c78e8d..b759dc3 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,11 +67,11 @@ class Testbed(ShpModel):
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From dbb52a2028a9290ea43b19a2c9ea6c4c90706283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:10 +0000
Subject: [PATCH 38/65] fix: reject testbeds with ambiguous observer-names

tasks & files get assigned to observers by name
---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index b759dc3..698b306 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -57,6 +57,7 @@ class Testbed(ShpModel):
     @model_validator(mode="after")
     def post_validation(self) -> Self:
         observers = []
+        names = []
         ips = []
         macs = []
         capes = []
@@ -64,6 +65,7 @@ class Testbed(ShpModel):
         eth_ports = []
         for _obs in self.observers:
             observers.append(_obs.id)
+            names.append(_obs.name)
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
@@ -75,6 +77,8 @@ class Testbed(ShpModel):
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
+        if len(names) > len(set(names)):
+            raise ValueError("Observer-Name used more than once in Testbed")
         if len(ips) > len(set(ips)):
             raise ValueError("Observer-IP used more than once in Testbed")
         if len(macs) > len(set(macs)):
-- 
2.43.0


From 5a80d324907097ad51922bae86462cc8d3f6138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 39/65] fix: allow programming-tasks for MCUs with 5 V
 prog-voltage

---
 shepherd_core/shepherd_core/data_models/task/programming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index e54470e..98395c6 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -30,7 +30,7 @@ class ProgrammingTask(ShpModel):
     mcu_port: MCUPort = 1
     mcu_type: SafeStr
     # ⤷ must be either "nrf52" or "msp430" ATM, TODO: clean xp to tasks
-    voltage: Annotated[float, Field(ge=1, lt=5)] = 3
+    voltage: Annotated[float, Field(ge=1, le=5)] = 3
     datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 200_000
     protocol: ProgrammerProtocol
 
-- 
2.43.0


From 4b13c1c0435d456f9b317c02c477def80b94b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 40/65] fix: don't generate firmware-tasks for MCUs the target
 doesn't have

---
 .../shepherd_core/data_models/task/firmware_mod.py        | 8 ++++++--
 .../shepherd_core/data_models/task/programming.py         | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
index bcfee1e..aa7b2d7 100644
--- a/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
+++ b/shepherd_core/shepherd_core/data_models/task/firmware_mod.py
@@ -61,10 +61,14 @@ class FirmwareModTask(ShpModel):
             # TODO: if target has default fw -> use that! otherwise no sleep is flashed
             return None
 
+        target = tb.get_observer(tgt_id).get_target(tgt_id)
+        if target[f"mcu{mcu_port}"] is None:
+            # shared firmware-config, but this target has no such MCU
+            return None
+
         fw_id = tgt_cfg.get_custom_id(tgt_id)
         if fw_id is None:
-            obs = tb.get_observer(tgt_id)
-            fw_id = obs.get_target(tgt_id).testbed_id
+            fw_id = target.testbed_id
 
         return cls(
             data=fw.data,
diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index 98395c6..1800723 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -62,6 +62,9 @@ class ProgrammingTask(ShpModel):
         fw = tgt_cfg.firmware1 if mcu_port == 1 else tgt_cfg.firmware2
         if fw is None:
             return None
+        if obs.get_target(tgt_id)[f"mcu{mcu_port}"] is None:
+            # shared firmware-config, but this target has no such MCU
+            return None
 
         return cls(
             firmware_file=copy.copy(fw_path),
-- 
2.43.0


From be7adb8de541295155320ab508491610cec653b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 41/65] fix: detection of msp430-hex raised for half present
 reset-vector and never checked its range

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..fca5aba 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -51,10 +51,11 @@ def is_hex_msp430(file: Path) -> bool:
         ih = IntelHex(file.as_posix())
         if ih.minaddr() != 0x4000:
             return False
-        if 0xFFFE not in ih.addresses():
+        try:
+            value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
+        except IntelHexError:  # vector is not (completely) part of the image
             return False
-        value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From 958e7edd19781ae30ed4fbe7ce30bcc6ccbb9919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 42/65] fix: detection of firmware-type raised various errors
 for damaged ELF-files

---
 .../shepherd_core/fw_tools/converter_elf.py        |  6 +++++-
 shepherd_core/shepherd_core/fw_tools/validation.py | 14 ++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter_elf.py b/shepherd_core/shepherd_core/fw_tools/converter_elf.py
index e87fb10..d788844 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter_elf.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter_elf.py
@@ -9,6 +9,10 @@ from pydantic import validate_call
 # extra src-file necessary to prevent circular import
 
 
+class ConversionError(RuntimeError):
+    """Objcopy could not handle the file."""
+
+
 @validate_call
 def elf_to_hex(file_elf: Path, file_hex: Optional[Path] = None) -> Path:
     """Convert ELF to hex file using objcopy."""
@@ -26,5 +30,5 @@ def elf_to_hex(file_elf: Path, file_hex: Optional[Path] = None) -> Path:
             "Objcopy not found -> are binutils or build-essential installed?"
         ) from err
     except subprocess.CalledProcessError:
-        raise RuntimeError("Objcopy failed to convert ELF to iHEX") from None
+        raise ConversionError("Objcopy failed to convert ELF to iHEX") from None
     return file_hex
diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index fca5aba..f169079 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -14,6 +14,7 @@ from pydantic import validate_call
 
 from ..data_models.content.firmware_datatype import FirmwareDType
 from ..logger import logger
+from .converter_elf import ConversionError
 from .converter_elf import elf_to_hex
 
 try:
@@ -96,6 +97,9 @@ def is_elf(file: Path) -> bool:
     except ELFError:
         logger.debug("File %s is not ELF - Magic number does not match", file.name)
         return False
+    except Exception as err:  # noqa: BLE001 - damaged files trip the parser in many ways
+        logger.debug("File %s is not a valid ELF - %s", file.name, err)
+        return False
     return True
 
 
@@ -107,7 +111,10 @@ def is_elf_msp430(file: Path) -> bool:
     if is_elf(file):
         with tempfile.TemporaryDirectory() as path:
             file_hex = Path(path) / "file.hex"
-            file_hex = elf_to_hex(file, file_hex)
+            try:
+                file_hex = elf_to_hex(file, file_hex)
+            except ConversionError:
+                return False
             if is_hex_msp430(file_hex):
                 return True
         return False
@@ -122,7 +129,10 @@ def is_elf_nrf52(file: Path) -> bool:
     if is_elf(file):
         with tempfile.TemporaryDirectory() as path:
             file_hex = Path(path) / "file.hex"
-            file_hex = elf_to_hex(file, file_hex)
+            try:
+                file_hex = elf_to_hex(file, file_hex)
+            except ConversionError:
+                return False
             if is_hex_nrf52(file_hex):
                 return True
         return False
-- 
2.43.0


From 359ed20584893e5cdc68d72161c8b37437269050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 43/65] fix: patching a symbol at the end of its segment
 destroyed foreign bytes of the file, reading it raised

---
 .../shepherd_core/fw_tools/patcher.py         | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/patcher.py b/shepherd_core/shepherd_core/fw_tools/patcher.py
index 946c359..8217e25 100644
--- a/shepherd_core/shepherd_core/fw_tools/patcher.py
+++ b/shepherd_core/shepherd_core/fw_tools/patcher.py
@@ -14,8 +14,10 @@ from .validation import is_elf
 
 try:
     from pwnlib.elf import ELF
+    from pwnlib.exception import PwnlibException
 except ImportError as e:
     ELF = None
+    PwnlibException = None
     elf_error_text = (
         "Please install functionality with 'pip install shepherd-core[elf] -U' first, "
         f"underlying exception: {e.msg}"
@@ -60,8 +62,13 @@ def read_symbol(file_elf: Path, symbol: str, length: int = uid_len_default) -> O
         raise RuntimeError(elf_error_text)
     elf = ELF(path=file_elf)
     addr = elf.symbols[symbol]
-    value_raw = elf.read(address=addr, count=length)[-length:]
-    elf.close()
+    try:
+        value_raw = elf.read(address=addr, count=length)[-length:]
+    except PwnlibException:
+        logger.warning("Symbol '%s' @%s is not part of the image", symbol, f"0x{addr:X}")
+        return None
+    finally:
+        elf.close()
     return int.from_bytes(bytes=value_raw, byteorder=elf.endian, signed=False)
 
 
@@ -83,6 +90,16 @@ def read_arch(file_elf: Path) -> Optional[str]:
     return None
 
 
+def _is_stored_in_file(elf: "ELF", addr: int, length: int) -> bool:
+    """Check if a segment holds all of these bytes, as pwntools ignores the bounds on writes."""
+    return any(
+        seg.header.p_type == "PT_LOAD"
+        and seg.header.p_vaddr <= addr
+        and addr + length <= seg.header.p_vaddr + seg.header.p_filesz
+        for seg in elf.segments
+    )
+
+
 @validate_call
 def modify_symbol_value(
     file_elf: Path,
@@ -105,6 +122,9 @@ def modify_symbol_value(
         raise RuntimeError(elf_error_text)
     elf = ELF(path=file_elf)
     addr = elf.symbols[symbol]
+    if not _is_stored_in_file(elf, addr, uid_len_default):
+        logger.warning("ELF-Modifier failed @%s for symbol '%s'", f"0x{addr:X}", symbol)
+        return None
     value_raw = elf.read(address=addr, count=uid_len_default)[-uid_len_default:]
     # ⤷ cutting needed -> msp produces 4b instead of 2
     value_old = int.from_bytes(bytes=value_raw, byteorder=elf.endian, signed=False)
-- 
2.43.0


From 6d57e876e083a16fc2a500e8b0f96ccb4b8364bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 44/65] fix: damaged embedded firmware raised ZstdError past
 the handling of faulty data

---
 shepherd_core/shepherd_core/fw_tools/converter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter.py b/shepherd_core/shepherd_core/fw_tools/converter.py
index 07c8a87..f58dfeb 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter.py
@@ -45,6 +45,15 @@ def file_to_base64(file_path: Path) -> str:
     return base64.b64encode(file_cmpress).decode("ascii")
 
 
+def _decode_base64(content: str) -> bytes:
+    """Decode and decompress embedded data."""
+    try:
+        return zstd.ZstdDecompressor().decompress(base64.b64decode(content))
+    except (zstd.ZstdError, MemoryError) as err:
+        # note: faulty frame-header can claim an absurd size
+        raise ValueError("Embedded data is damaged and can't be decompressed") from err
+
+
 @validate_call
 def base64_to_file(content: str, file_path: Path) -> None:
     """DeCompress and decode Content of file.
@@ -52,8 +61,7 @@ def base64_to_file(content: str, file_path: Path) -> None:
     - base64 adds ~33 % overhead
     - zstd compression reduces to ~ 1:3
     """
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = _decode_base64(content)
     if not file_path.parent.exists():
         file_path.parent.mkdir(parents=True)
     with file_path.resolve().open("wb") as file:
@@ -73,8 +81,7 @@ def file_to_hash(file_path: Path) -> str:
 @validate_call
 def base64_to_hash(content: str) -> str:
     """Convert base64-content to hash-value."""
-    file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    file_content = _decode_base64(content)
     return hashlib.sha3_224(file_content).hexdigest()
 
 
-- 
2.43.0


From cd93912a12dda1079689388318a35f82e12433f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 45/65] fix: comparing the hash of a firmware given by path
 tried to decode the path

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 2d15044..ee71996 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -156,6 +156,9 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
+        elif self.data_type in base64_to_path_DType.values():
+            file = Path(self.data)
+            match = file.is_file() and self.data_hash == fw_tools.file_to_hash(file)
         else:
             hash_new = fw_tools.base64_to_hash(self.data)
             match = self.data_hash == hash_new
-- 
2.43.0


From 27688071614103a7dc4fc5184d7d94dc14b96664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 46/65] fix: damaged headers (offset beyond the file, unknown
 type or architecture) raised during patching and detection

---
 shepherd_core/shepherd_core/fw_tools/patcher.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/patcher.py b/shepherd_core/shepherd_core/fw_tools/patcher.py
index 8217e25..1deecb3 100644
--- a/shepherd_core/shepherd_core/fw_tools/patcher.py
+++ b/shepherd_core/shepherd_core/fw_tools/patcher.py
@@ -84,8 +84,8 @@ def read_arch(file_elf: Path) -> Optional[str]:
     if ELF is None:
         raise RuntimeError(elf_error_text)
     elf = ELF(path=file_elf)
-    if "exec" in elf.elftype.lower():
-        return elf.arch.lower()
+    if "exec" in str(elf.elftype).lower():  # unknown values stay numeric
+        return str(elf.arch).lower()
     logger.error("ELF is not Executable")
     return None
 
@@ -131,7 +131,7 @@ def modify_symbol_value(
     value_raw = value.to_bytes(length=uid_len_default, byteorder=elf.endian, signed=False)
     try:
         elf.write(address=addr, data=value_raw)
-    except AttributeError:
+    except (AttributeError, IndexError):
         logger.warning("ELF-Modifier failed @%s for symbol '%s'", f"0x{addr:X}", symbol)
         return None
     if overwrite:
-- 
2.43.0


From 9d8d8133f7457b729f64b93b65f55b33b30332ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 47/65] fix: expansion of gpio-events produced one event too
 much for some delays and periods

---
 .../shepherd_core/data_models/experiment/observer_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
index 1fa133d..fb11572 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/observer_features.py
@@ -115,8 +115,8 @@ class GpioEvent(ShpModel, title="Config for a GPIO-Event"):
         return self
 
     def get_events(self) -> np.ndarray:
-        stop = self.delay + self.count * self.period
-        return np.arange(self.delay, stop, self.period)
+        # note: arange(start, stop, step) would return a surplus event for some floats
+        return self.delay + self.period * np.arange(self.count)
 
 
 class GpioActuation(ShpModel, title="Config for GPIO-Actuation"):
-- 
2.43.0


From 708f0108d03c0ce7d7e22385cb67398922018fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 48/65] fix: local timezone ignored whether daylight-saving is
 in effect

---
 shepherd_core/shepherd_core/data_models/base/timezone.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/timezone.py b/shepherd_core/shepherd_core/data_models/base/timezone.py
index 69ff3b5..48e7f37 100644
--- a/shepherd_core/shepherd_core/data_models/base/timezone.py
+++ b/shepherd_core/shepherd_core/data_models/base/timezone.py
@@ -1,16 +1,13 @@
 """Helper-functions for better support of timezones."""
 
-import time
 from datetime import datetime
-from datetime import timedelta
 from datetime import timezone
 
 
 def local_tz() -> timezone:
     """Query the local timezone of the user."""
-    if time.daylight:
-        return timezone(timedelta(seconds=-time.altzone), time.tzname[1])
-    return timezone(timedelta(seconds=-time.timezone), time.tzname[0])
+    return datetime.now().astimezone().tzinfo
+    # ⤷ time.daylight would only tell if there is a DST defined, not if it is in effect
 
 
 def local_now() -> datetime:
-- 
2.43.0


From 692811ddb2e343ce0085b4f1d26e6aea89a39700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 49/65] fix: import of ivonne-traces ignored entries beside the
 sample-grid and failed for short traces

---
 shepherd_data/shepherd_data/ivonne.py | 48 ++++++++++++++++-----------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 0077623..4e80dff 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -21,6 +21,7 @@ from typing import Type
 
 import numpy as np
 import pandas as pd
+from scipy.interpolate import make_interp_spline
 from tqdm import trange
 from typing_extensions import Self
 
@@ -40,6 +41,27 @@ def get_isc(coeffs: pd.DataFrame):  # noqa: ANN201
     return coeffs["a"]
 
 
+def upsample(coeffs: pd.DataFrame, interval_us: int, time_start: float) -> pd.DataFrame:
+    """Interpolate to an equidistant time-grid.
+
+    :param coeffs: entries with time-column, the last one limits the range (excluded)
+    :param interval_us: steps of grid
+    :param time_start: origin of grid, so blocks of the same recording join without gaps
+    :return: interpolated entries
+    """
+    coeffs = coeffs.dropna()
+    if coeffs.shape[0] < 2:
+        return coeffs.iloc[:0]
+    time_rel = coeffs["time"].to_numpy() - time_start
+    idx_range = np.ceil(np.round(time_rel[[0, -1]] * 1e6 / interval_us, 3))
+    grid = np.arange(*idx_range) * interval_us * 1e-6
+    # not every trace (or end of it) offers enough points for cubic
+    spline = make_interp_spline(time_rel, coeffs.to_numpy(), k=min(3, coeffs.shape[0] - 1))
+    result = pd.DataFrame(spline(grid), columns=coeffs.columns)
+    result["time"] = time_start + grid
+    return result
+
+
 class Reader:
     """Container for converters that bridge the gap to shepherds data-files."""
 
@@ -142,14 +164,8 @@ class Reader:
             for idx in job_iter:
                 idx_top = min(idx + max_elements, df_elements_n)
                 df_slice = self._df.iloc[idx : idx_top + 1].copy()
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice.set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{curve_interval_us}us")
-                    .interpolate(method="cubic")
-                    .iloc[:-1]
-                )
+                df_slice = df_slice[["time", "a", "b", "c"]]
+                df_slice = upsample(df_slice, curve_interval_us, self._df["time"].iloc[0])
 
                 for _, coeffs in df_slice.iterrows():
                     i_proto = iv_model(v_proto, coeffs)
@@ -224,12 +240,8 @@ class Reader:
                 df_slice.loc[:, "voc"] = get_voc(df_slice)
                 df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                 df_slice = tracker.process(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "v", "i", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
+                df_slice = df_slice[["time", "v", "i"]]
+                df_slice = upsample(df_slice, interval_us, self._df["time"].iloc[0])
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["v"].to_numpy(),
@@ -275,12 +287,8 @@ class Reader:
                 df_slice.loc[:, "voc"] = get_voc(df_slice)
                 df_slice.loc[df_slice["voc"] >= v_max, "voc"] = v_max
                 df_slice.loc[:, "isc"] = get_isc(df_slice)
-                df_slice["timestamp"] = pd.to_timedelta(df_slice["time"], unit="s")
-                df_slice = df_slice[["time", "voc", "isc", "timestamp"]].set_index("timestamp")
-                # warning: .interpolate does crash in debug-mode with typeError
-                df_slice = (
-                    df_slice.resample(f"{interval_us}us").interpolate(method="cubic").iloc[:-1]
-                )
+                df_slice = df_slice[["time", "voc", "isc"]]
+                df_slice = upsample(df_slice, interval_us, self._df["time"].iloc[0])
                 sfw.append_iv_data_si(
                     df_slice["time"].to_numpy(),
                     df_slice["voc"].to_numpy(),
-- 
2.43.0


From a197904ed80db0afea805946e26fcc63b24708b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 50/65] fix: duration of ivonne-import was cut by rounding of
 floats

---
 shepherd_data/shepherd_data/ivonne.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/ivonne.py b/shepherd_data/shepherd_data/ivonne.py
index 4e80dff..7be5035 100644
--- a/shepherd_data/shepherd_data/ivonne.py
+++ b/shepherd_data/shepherd_data/ivonne.py
@@ -144,7 +144,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -210,7 +210,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
@@ -264,7 +264,7 @@ class Reader:
             raise RuntimeError("IVonne Context was not entered - file not open!")
         if isinstance(duration_s, (float, int)) and self.runtime_s > duration_s:
             self._logger.info("  -> gets trimmed to %f s", duration_s)
-            df_elements_n = min(self._df.shape[0], int(duration_s * self.samplerate_sps))
+            df_elements_n = min(self._df.shape[0], round(duration_s * self.samplerate_sps))
         else:
             df_elements_n = self._df.shape[0]
 
-- 
2.43.0


From 56d36574b9c908e26d9cf0c19cb65ae819d7ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 51/65] fix: open-circuit tracker failed for dark entries,
 traces without voc and curves beyond the voltage range

---
 shepherd_data/shepherd_data/mppt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..0b39ed6 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -36,7 +36,10 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     Searches last current value that is above a certain ratio of the short-circuit
     current.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    if i_arr[0] <= 0:  # no light
+        return v_arr[0]
+    below = i_arr < i_arr[0] * ratio
+    return v_arr[np.argmax(below)] if below.any() else v_arr[-1]
 
 
 class MPPTracker(ABC):
@@ -80,9 +83,9 @@ class OpenCircuitTracker(MPPTracker):
         """
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From bd0c2b19a2385427b86739888c4c434f0a316aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 52/65] fix: cli-validation reported success for unreadable
 files

---
 shepherd_data/shepherd_data/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..0f19213 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -89,6 +89,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
         except TypeError:
+            valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
 
-- 
2.43.0


From 186f249e0ade72c48f6132d0034d65187b614738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 53/65] fix: cli-commands stopped at damaged files and skipped
 the rest of the batch

---
 shepherd_data/shepherd_data/cli.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 0f19213..e01e6fb 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -88,7 +88,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 valid_dir &= valid_file
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except Exception:  # damaged files can raise anything
             valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
@@ -158,7 +158,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -203,7 +203,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -244,7 +244,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -274,7 +274,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -342,7 +342,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except Exception:  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -421,7 +421,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except Exception:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From c7eed0657c1602096b889f78cd12f86d531d52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 54/65] fix: cli-downsampling used the factor of the first file
 for the whole batch

---
 shepherd_data/shepherd_data/cli.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index e01e6fb..f31f7ce 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -331,11 +331,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
-                if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                factor = ds_factor
+                if factor is None and sample_rate is not None and sample_rate >= 1:
+                    factor = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(factor, (float, int)) and factor >= 1:
+                    ds_list = [factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From c9139d9737d8e17d46d54e795a6c4d8219dff490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 55/65] fix: multiplot without usable data raised IndexError

---
 shepherd_data/shepherd_data/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 2eb3ca5..e5e2c2e 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -615,6 +615,9 @@ class Reader(CoreReader):
         :param height: plot-height
         :param only_pwr: plot power-trace instead of voltage, current & power
         """
+        if len(data) < 1:
+            logger.warning("No data to plot, will skip multiplot!")
+            return None
         start_str = f"{data[0]['start_s']:.3f}".replace(".", "s")
         end_str = f"{data[0]['end_s']:.3f}".replace(".", "s")
         plot_path = (
-- 
2.43.0


From 512f04592dd6555c4d2970927ce8ebe6d0e589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 56/65] fix: inventory-report failed for collected hosts,
 missing versions and unknown attributes

---
 .../shepherd_core/inventory/__init__.py       | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/__init__.py b/shepherd_core/shepherd_core/inventory/__init__.py
index 20e2fe9..3faec57 100644
--- a/shepherd_core/shepherd_core/inventory/__init__.py
+++ b/shepherd_core/shepherd_core/inventory/__init__.py
@@ -76,21 +76,24 @@ class InventoryList(ShpModel):
     def warn(self) -> dict:
         warnings = {}
         ts_earl = min([_e.created.timestamp() for _e in self.elements])
-        for _e in self.elements:
-            if _e.uptime > timedelta(hours=30).total_seconds():
-                warnings["uptime"] = f"[{self.hostname}] restart is recommended"
-            if (_e.created.timestamp() - ts_earl) > 10:
-                warnings["time_delta"] = f"[{self.hostname}] time-sync has failed"
+        uptime_max = timedelta(hours=30).total_seconds()
+        hosts = [_e.hostname for _e in self.elements if _e.uptime > uptime_max]
+        if hosts:
+            warnings["uptime"] = f"[{', '.join(hosts)}] restart is recommended"
+        hosts = [_e.hostname for _e in self.elements if (_e.created.timestamp() - ts_earl) > 10]
+        if hosts:
+            warnings["time_delta"] = f"[{', '.join(hosts)}] time-sync has failed"
 
         # turn  Dict[hostname][type] = val
         # to    Dict[type][val] = List[hostnames]
-        _inp = {
-            _e.hostname: _e.model_dump(exclude_unset=True, exclude_defaults=True)
+        _inp = [
+            (_e.hostname, _e.model_dump(exclude_unset=True, exclude_defaults=True))
             for _e in self.elements
-        }
+        ]
         result = {}
-        for _host, _types in _inp.items():
-            for _type, _val in _types.items():
+        for _host, _types in _inp:
+            for _type, _value in _types.items():
+                _val = str(_value)  # lists & dicts are not hashable
                 if _type not in result:
                     result[_type] = {}
                 if _val not in result[_type]:
@@ -108,7 +111,7 @@ class InventoryList(ShpModel):
             "zstandard",
         ]
         for _key in t_unique:
-            if rescnt[_key] > 1:
+            if rescnt.get(_key, 0) > 1:
                 warnings[_key] = f"[{_key}] VersionMismatch - {result[_key]}"
 
         # TODO: finish with more potential warnings
-- 
2.43.0


From 1d44def9e4875a491a9b5cbf0cdfe16332b14c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 57/65] fix: system-inventory could not be collected without
 psutil

---
 shepherd_core/shepherd_core/inventory/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/inventory/system.py b/shepherd_core/shepherd_core/inventory/system.py
index 9634e68..8c89d83 100644
--- a/shepherd_core/shepherd_core/inventory/system.py
+++ b/shepherd_core/shepherd_core/inventory/system.py
@@ -19,7 +19,7 @@ except ImportError:
     psutil = None
 
 from pydantic import ConfigDict
-from pydantic.types import PositiveInt
+from pydantic.types import NonNegativeInt
 
 from ..data_models import ShpModel
 
@@ -27,8 +27,8 @@ from ..data_models import ShpModel
 class SystemInventory(ShpModel):
     """System / OS related inventory model."""
 
-    uptime: PositiveInt
-    # ⤷ seconds
+    uptime: NonNegativeInt
+    # ⤷ seconds, 0 if unknown
     timestamp: datetime
     # time_delta: timedelta = timedelta(0)  # noqa: ERA001
     # ⤷ lag behind earliest observer, TODO: wrong place
-- 
2.43.0


From 72165d32e1deae5ebc9b3f6bb346427864d64097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 58/65] fix: web-client ignored tokens given as text

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..b4c2857 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -92,7 +92,7 @@ class WebClient(AbcClient):
             with token.resolve().open() as file:
                 self._token = file.read()
         elif isinstance(token, str):
-            self._token = self._token
+            self._token = token
 
         if isinstance(server, str):
             self._server = server.lower()
-- 
2.43.0


From 1f84bb8458269bb30e1a8997580f9e9e2a64d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 59/65] fix: web-client altered tokens with line-breaks or
 reserved characters

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index b4c2857..40e9cac 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -90,7 +90,7 @@ class WebClient(AbcClient):
             if not token.exists():
                 raise FileNotFoundError("Token-Path does not exist")
             with token.resolve().open() as file:
-                self._token = file.read()
+                self._token = file.read().strip()
         elif isinstance(token, str):
             self._token = token
 
@@ -114,7 +114,7 @@ class WebClient(AbcClient):
 
     def _query_user_data(self) -> bool:
         if self._server:
-            r = self._req.get(self._server + "/user?token=" + self._token, timeout=2)
+            r = self._req.get(self._server + "/user", params={"token": self._token}, timeout=2)
             # TODO: possibly a security nightmare (send via json or encrypted via public key?)
             r.raise_for_status()
             self._user = User(**r.json())
-- 
2.43.0


From d75f082dec69bdbde7e8965ee5cb63f4a5b5d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:18 +0000
Subject: [PATCH 60/65] fix: web-client could not insert models with
 ip-addresses

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index 40e9cac..39c9e0d 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -51,7 +51,7 @@ class WebClient(AbcClient):
     def insert(self, data: ShpModel) -> bool:
         wrap = Wrapper(
             datatype=type(data).__name__,
-            parameters=data.model_dump(),
+            parameters=data.model_dump(mode="json"),
         )
         r = self._req.post(self._server + "/add", data=wrap.model_dump_json(), timeout=2)
         r.raise_for_status()
-- 
2.43.0


From 5955e031a2f1fbad0bca72f7d4a0bf70aa71e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 61/65] fix: extraction of metadata failed for lists and
 altered plain text-attributes

---
 shepherd_core/shepherd_core/reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index f1edc07..8a780ec 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -617,8 +617,13 @@ class Reader:
         for attr in node.attrs:
             attr_value = node.attrs[attr]
             if isinstance(attr_value, str):
-                with contextlib.suppress(yaml.YAMLError):
-                    attr_value = yaml.safe_load(attr_value)
+                with contextlib.suppress(yaml.YAMLError, ValueError):
+                    attr_tree = yaml.safe_load(attr_value)
+                    if isinstance(attr_tree, (dict, list)):
+                        # ⤷ only expand structured content (e.g. config), keep plain text
+                        attr_value = attr_tree
+            elif isinstance(attr_value, np.ndarray):
+                attr_value = attr_value.tolist()
             elif "int" in str(type(attr_value)):
                 # TODO: why not isinstance? can it be List[int] other complex type?
                 attr_value = int(attr_value)
-- 
2.43.0


From c6453c536f211345cfaf822e8594047f60ec5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 62/65] fix: plots lost the end of recordings that are no
 multiple of 100 ms

---
 shepherd_data/shepherd_data/reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index e5e2c2e..7823bc1 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -476,10 +476,12 @@ class Reader(CoreReader):
             self._logger.warning("Plot-Function was not written for IVCurves.")
         if not isinstance(start_s, (float, int)):
             start_s = 0
+        duration_s = self.ds_time.shape[0] / self.samplerate_sps
+        # ⤷ more precise than .runtime_s
         if not isinstance(end_s, (float, int)):
-            end_s = self.runtime_s
+            end_s = duration_s
         start_s = max(0, start_s)
-        end_s = min(self.runtime_s, end_s)
+        end_s = min(duration_s, end_s)
         start_sample = round(start_s * self.samplerate_sps)
         end_sample = round(end_s * self.samplerate_sps)
         if end_sample - start_sample < 5:
-- 
2.43.0


From c7633560e6206028f0ddeba0ce576c97b38c40eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 63/65] fix: monitoring internals of simulation failed for
 recordings that are no multiple of 100 ms

---
 .../shepherd_core/vsource/virtual_source_simulation.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
index f014de8..1f90c7a 100644
--- a/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
+++ b/shepherd_core/shepherd_core/vsource/virtual_source_simulation.py
@@ -62,7 +62,7 @@ def simulate_source(
     e_out_Ws = 0.0
     if monitor_internals and path_output:
         stats_sample = 0
-        stats_internal = np.empty((round(file_inp.runtime_s * file_inp.samplerate_sps), 11))
+        stats_internal = np.empty((file_inp.ds_time.shape[0], 11))
         try:
             # keep dependencies low
             from matplotlib import pyplot as plt
-- 
2.43.0


From cb09ae144e0bafceebb31916e22cc66c750c4f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 64/65] fix: creating a user wrote the new token into the
 provided data, so later users got the same

---
 shepherd_core/shepherd_core/testbed_client/user_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/user_model.py b/shepherd_core/shepherd_core/testbed_client/user_model.py
index 72ccd06..4fcc565 100644
--- a/shepherd_core/shepherd_core/testbed_client/user_model.py
+++ b/shepherd_core/shepherd_core/testbed_client/user_model.py
@@ -68,6 +68,7 @@ class User(ShpModel):
 
         # post correction
         if values.get("token") is None:
+            values = dict(values)  # keep input unchanged, next user would share the token
             values["token"] = "shepherd_token_" + secrets.token_urlsafe(nbytes=128)
 
         return values
-- 
2.43.0


From 1e433ea5bc8bff0f7b2b701e136fedf4cdce10be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 65/65] fix: users could not be converted to string due to
 their secrets

---
 shepherd_core/shepherd_core/testbed_client/user_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/user_model.py b/shepherd_core/shepherd_core/testbed_client/user_model.py
index 4fcc565..b061c0a 100644
--- a/shepherd_core/shepherd_core/testbed_client/user_model.py
+++ b/shepherd_core/shepherd_core/testbed_client/user_model.py
@@ -61,6 +61,10 @@ class User(ShpModel):
     # ⤷ TODO (min_length=128), request with: token.get_secret_value()
     active: bool = False
 
+    def __str__(self) -> str:
+        """Secrets stay masked, but yaml can't represent these."""
+        return repr(self)
+
     @model_validator(mode="before")
     @classmethod
     def query_database(cls, values: dict) -> dict:
-- 
2.43.0

