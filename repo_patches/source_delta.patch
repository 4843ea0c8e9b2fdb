From 091ed8116fe44a8f9e21be7be8bc3b924149f003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 01/24] fix: write metadata files atomically

An interrupted write left a truncated JSON file in place of the existing
metadata, project or solution file.
---
 resistics/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resistics/common.py b/resistics/common.py
index ab9a3cc..d42cf75 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -448,8 +448,12 @@ class WriteableMetadata(Metadata):
             Path to write JSON file
         """
         self.file_info = ResisticsFile()
-        with json_path.open("w") as f:
+        # write to a temporary file first so that an interrupted write leaves any
+        # existing file complete
+        tmp_path = json_path.with_name(f"{json_path.name}.tmp")
+        with tmp_path.open("w") as f:
             f.write(self.json())
+        tmp_path.replace(json_path)
 
 
 class Record(ResisticsModel):
-- 
2.43.0


From e05c9a349f502e48317e1732cb0f51bd9626cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 02/24] fix: drop existing metadata before overwriting a
 dataset

When an overwrite was interrupted, the metadata of the earlier dataset was
left with the data of the new one.
---
 resistics/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index d42cf75..672c9f0 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -928,6 +928,11 @@ class ResisticsWriter(ResisticsProcess):
             return False
         if dir_path.exists():
             logger.warning(f"Overwriting existing directory {dir_path}")
+            # an interrupted overwrite must not leave the existing metadata next
+            # to new data
+            metadata_path = dir_path / "metadata.json"
+            if metadata_path.exists():
+                metadata_path.unlink()
         if not dir_path.exists():
             logger.info(f"Directory {dir_path} not found. Creating including parents.")
             dir_path.mkdir(parents=True)
-- 
2.43.0


From 249f6c185e29926ff67a76005ab25b9d6aeabdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 03/24] fix: do not truncate a memory mapped numpy data file
 when overwriting

Writing time data to the folder it was read from killed the process with
SIGBUS, as the data is memory mapped from the file that was truncated.
---
 resistics/time.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resistics/time.py b/resistics/time.py
index 6c21864..07a26fe 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1138,6 +1138,9 @@ class TimeWriterNumpy(ResisticsWriter):
         logger.info(f"Writing time numpy data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
+        if data_path.exists():
+            # any data memory mapped from the existing file has to remain valid
+            data_path.unlink()
         np.save(data_path, time_data.data)
         metadata = time_data.metadata.copy()
         for chan in time_data.metadata.chans:
-- 
2.43.0


From 90f6d21489a136d4f85d7a571a5f4ba0cc244a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 04/24] fix: keep the wall clock out of project time spans

Sites without measurements have the time of loading as begin and end, which
ended up in the time span of the project and in the concurrent sites.
---
 resistics/letsgo.py  | 8 +++++---
 resistics/project.py | 4 +++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index e541d52..48fa68b 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -130,9 +130,11 @@ class ProjectLoader(ResisticsProcess):
         for site_dir in time_subdirs:
             site = self._load_site(site_dir, config)
             sites[site_dir.name] = site
-        if len(sites) > 0:
-            begin_time = min([x.begin_time for x in sites.values()])
-            end_time = max([x.end_time for x in sites.values()])
+        # sites without measurements have no time span
+        sites_with_meas = [x for x in sites.values() if x.n_meas > 0]
+        if len(sites_with_meas) > 0:
+            begin_time = min([x.begin_time for x in sites_with_meas])
+            end_time = max([x.end_time for x in sites_with_meas])
         else:
             begin_time = datetime.now()
             end_time = datetime.now()
diff --git a/resistics/project.py b/resistics/project.py
index 7961d21..f8cba75 100644
--- a/resistics/project.py
+++ b/resistics/project.py
@@ -300,11 +300,13 @@ class Project(ResisticsModel):
         List[Site]
             List of Site instances which were recording concurrently
         """
+        if self.sites[site_name].n_meas == 0:
+            return []
         site_start = self.sites[site_name].begin_time
         site_end = self.sites[site_name].end_time
         concurrent = []
         for site in self.sites.values():
-            if site.name == site_name:
+            if site.name == site_name or site.n_meas == 0:
                 continue
             if site.end_time < site_start:
                 continue
-- 
2.43.0


From 2c38d8530aa5262d2ccf11f88ee7c2437d99e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 05/24] fix: run fourier transforms on machines with few CPUs

The default of all but one CPU is out of range on a machine with one CPU.
---
 resistics/spectra.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resistics/spectra.py b/resistics/spectra.py
index 2ccd68d..3431cad 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -541,7 +541,17 @@ class FourierTransform(ResisticsProcess):
         win_coeffs = self._get_window(metadata.win_size).astype(data.dtype)
         data = data * win_coeffs
         # perform the fft on the last axis
-        return rfft(data, n=n_transform, axis=-1, norm="ortho", workers=self.workers)
+        return rfft(
+            data, n=n_transform, axis=-1, norm="ortho", workers=self._get_workers()
+        )
+
+    def _get_workers(self) -> int:
+        """Get the number of workers, at least 1 however few CPUs there are"""
+        from os import cpu_count
+
+        if self.workers < 0:
+            return max(1, (cpu_count() or 1) + 1 + self.workers)
+        return self.workers
 
     def _get_window(self, win_size: int):
         """Get the window to apply to the data"""
-- 
2.43.0


From db6d577485b6d73b887a176637967a40f3938e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 06/24] fix: list folder contents in a defined order

The order of listing a folder decided which of two overlapping measurements
is used for the windows they share.
---
 resistics/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/common.py b/resistics/common.py
index 672c9f0..ebacf00 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -150,7 +150,7 @@ def dir_contents(dir_path: Path) -> Tuple[List[Path], List[Path]]:
 
     dirs = []
     files = []
-    for obj in dir_path.iterdir():
+    for obj in sorted(dir_path.iterdir()):
         if obj.is_file():
             files.append(obj)
         elif obj.is_dir():
-- 
2.43.0


From 073b0f3ba74678050ea0496f4510c38e29077af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 07/24] fix: make output folders without racing other processes

---
 resistics/common.py | 7 ++++++-
 resistics/letsgo.py | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/resistics/common.py b/resistics/common.py
index ebacf00..21766ab 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -935,7 +935,12 @@ class ResisticsWriter(ResisticsProcess):
                 metadata_path.unlink()
         if not dir_path.exists():
             logger.info(f"Directory {dir_path} not found. Creating including parents.")
-            dir_path.mkdir(parents=True)
+            try:
+                # the directory may have been made by another process meanwhile
+                dir_path.mkdir(parents=True, exist_ok=self.overwrite)
+            except FileExistsError:
+                logger.error(f"Write path {dir_path} exists and can not be used")
+                return False
         return True
 
     def _get_record(self, dir_path: Path, data_type: Type):
diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index 48fa68b..fc34ea9 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -801,8 +801,8 @@ def process_evals_to_tf(
     reg_data = run_regression_preparer(config, gathered_data)
     solution = run_solver(config, reg_data)
     solution_path = get_results_path(proj.dir_path, out_site, config.name)
-    if not solution_path.exists():
-        solution_path.mkdir(parents=True)
+    # may be made by another process writing to the same directory
+    solution_path.mkdir(parents=True, exist_ok=True)
     solution_name = get_solution_name(
         fs, solution.tf.name, solution.tf.variation, postfix
     )
-- 
2.43.0


From 1d05ffd147823b0440cb6b571b7ec4978ca867da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 08/24] fix: copy metadata before adding to its history

Writers and time processors made shallow copies of the metadata, so that records
and data files were added to the metadata of their input too.
---
 resistics/decimate.py |  2 +-
 resistics/spectra.py  |  2 +-
 resistics/time.py     | 12 ++++++------
 resistics/window.py   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 9613dda..8d01652 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -829,7 +829,7 @@ class DecimatedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in dec_data.data.items()})
-        metadata = dec_data.metadata.copy()
+        metadata = DecimatedMetadata(**dec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(dec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 3431cad..962c0d5 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -798,7 +798,7 @@ class SpectraDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in spec_data.data.items()})
-        metadata = spec_data.metadata.copy()
+        metadata = SpectraMetadata(**spec_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(spec_data)))
         metadata.write(metadata_path)
 
diff --git a/resistics/time.py b/resistics/time.py
index 07a26fe..2fcb347 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1142,7 +1142,7 @@ class TimeWriterNumpy(ResisticsWriter):
             # any data memory mapped from the existing file has to remain valid
             data_path.unlink()
         np.save(data_path, time_data.data)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             metadata[chan].data_files = [data_path.name]
         metadata.history.add_record(self._get_record(dir_path, type(time_data)))
@@ -1176,7 +1176,7 @@ class TimeWriterAscii(ResisticsWriter):
             raise WriteError(dir_path, "Unable to write to directory, check logs")
         logger.info(f"Writing time ASCII data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
             chan_path = dir_path / f"{chan.lower()}.ascii"
             np.savetxt(chan_path, time_data[chan], fmt="%.6f", newline="\n")
@@ -1303,7 +1303,7 @@ class Subsection(TimeProcess):
         )
         messages = [f"Subection from sample {from_sample} to {to_sample}"]
         messages.append(f"Adjusted times {str(from_time)} to {str(to_time)}")
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(metadata, fs, from_time, n_samples=n_samples)
         data = np.array(time_data.data[:, from_sample : to_sample + 1])
         record = self._get_record(messages)
@@ -1973,7 +1973,7 @@ class Resample(TimeProcess):
         data = data.astype(time_data.data.dtype)
         # adjust headers and
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, self.new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2069,7 +2069,7 @@ class Decimate(TimeProcess):
         new_fs = fs / self.factor
         messages.append(f"Sampling frequency adjusted from {fs} to {new_fs}")
         n_samples = data.shape[1]
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, new_fs, time_data.metadata.first_time, n_samples=n_samples
         )
@@ -2259,7 +2259,7 @@ class ShiftTimestamps(TimeProcess):
         x_shift = np.arange(0, n_samples, dtype=time_data.data.dtype) + norm_shift
         interp_fnc = interp1d(x, time_data.data, axis=1, copy=False)
         data = interp_fnc(x_shift)
-        metadata = time_data.metadata.copy()
+        metadata = TimeMetadata(**time_data.metadata.dict())
         metadata = adjust_time_metadata(
             metadata, metadata.fs, first_time, n_samples=n_samples
         )
diff --git a/resistics/window.py b/resistics/window.py
index 76d78a2..6900be7 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1559,7 +1559,7 @@ class WindowedDataWriter(ResisticsWriter):
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data"
         np.savez_compressed(data_path, **{str(x): y for x, y in win_data.data.items()})
-        metadata = win_data.metadata.copy()
+        metadata = WindowedMetadata(**win_data.metadata.dict())
         metadata.history.add_record(self._get_record(dir_path, type(win_data)))
         metadata.write(metadata_path)
 
-- 
2.43.0


From 8667f25eff5a8d34e0353ad6e58f59221363c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 09/24] fix: leave dictionaries unchanged when initialising
 from them

---
 resistics/common.py    | 1 +
 resistics/transfunc.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/resistics/common.py b/resistics/common.py
index 21766ab..6d43120 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -820,6 +820,7 @@ class ResisticsProcess(ResisticsModel):
             )
         if "name" not in value:
             raise KeyError("No name provided for initialisation of process")
+        value = dict(value)  # the content passed in may be used again
         name = value.pop("name")
         try:
             return cls._types[name](**value)
diff --git a/resistics/transfunc.py b/resistics/transfunc.py
index 016ba2b..607acc4 100644
--- a/resistics/transfunc.py
+++ b/resistics/transfunc.py
@@ -253,6 +253,7 @@ class TransferFunction(Metadata):
         if "name" not in value:
             raise KeyError("No name provided for initialisation of TransferFunction")
         # check if it is a TransferFunction
+        value = dict(value)  # the content passed in may be used again
         name = value.pop("name")
         if name == "TransferFunction":
             return cls(**value)
-- 
2.43.0


From c990964f95c806ff8e78b55b2128089400918747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 10/24] fix: leave channels without a function unchanged in
 ApplyFunction

---
 resistics/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resistics/time.py b/resistics/time.py
index 2fcb347..b578955 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -2348,7 +2348,8 @@ class ApplyFunction(TimeProcess):
         """
         logger.info(f"Applying custom functions to channels {list(self.fncs.keys())}")
         messages = []
-        data = np.empty(shape=time_data.data.shape)
+        # channels without a function are left as they are
+        data = np.array(time_data.data, dtype=float)
         for chan, fnc in self.fncs.items():
             if chan in time_data.metadata.chans:
                 messages.append(f"Applying custom function to {chan}")
-- 
2.43.0


From 93ff84f4f50aac8e38e157f085faf3b2b9545f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 11/24] fix: do not fail when the files to overwrite are
 already removed

---
 resistics/common.py | 4 +---
 resistics/time.py   | 5 ++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/resistics/common.py b/resistics/common.py
index 6d43120..913918d 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -931,9 +931,7 @@ class ResisticsWriter(ResisticsProcess):
             logger.warning(f"Overwriting existing directory {dir_path}")
             # an interrupted overwrite must not leave the existing metadata next
             # to new data
-            metadata_path = dir_path / "metadata.json"
-            if metadata_path.exists():
-                metadata_path.unlink()
+            (dir_path / "metadata.json").unlink(missing_ok=True)
         if not dir_path.exists():
             logger.info(f"Directory {dir_path} not found. Creating including parents.")
             try:
diff --git a/resistics/time.py b/resistics/time.py
index b578955..00c0767 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1138,9 +1138,8 @@ class TimeWriterNumpy(ResisticsWriter):
         logger.info(f"Writing time numpy data to {dir_path}")
         metadata_path = dir_path / "metadata.json"
         data_path = dir_path / "data.npy"
-        if data_path.exists():
-            # any data memory mapped from the existing file has to remain valid
-            data_path.unlink()
+        # any data memory mapped from the existing file has to remain valid
+        data_path.unlink(missing_ok=True)
         np.save(data_path, time_data.data)
         metadata = TimeMetadata(**time_data.metadata.dict())
         for chan in time_data.metadata.chans:
-- 
2.43.0


From b03a9ca489f47eeab85e2abc849000faf7facb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 12/24] fix: read single channel ascii data as two dimensional

---
 resistics/time.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resistics/time.py b/resistics/time.py
index 00c0767..f383509 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -1049,6 +1049,7 @@ class TimeReaderAscii(TimeReaderJSON):
             delimiter=self.delimiter,
             skiprows=read_from + self.n_header,
             max_rows=n_samples,
+            ndmin=2,
         )
         data = data.transpose()
         metadata = self._get_return_metadata(metadata, read_from, read_to)
-- 
2.43.0


From 72aeec39c1ff98122fbdc57880b8f75bf727d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 13/24] fix: raise an error when data files hold fewer samples
 than requested

---
 resistics/time.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/resistics/time.py b/resistics/time.py
index f383509..ad8d092 100644
--- a/resistics/time.py
+++ b/resistics/time.py
@@ -920,6 +920,22 @@ class TimeReader(ResisticsProcess):
             raise ValueError(f"From sample {read_from} >= to sample {read_to}")
         return read_from, read_to
 
+    def _check_data_shape(
+        self,
+        dir_path: Path,
+        metadata: TimeMetadata,
+        data: np.ndarray,
+        n_samples: int,
+    ) -> None:
+        """Raise an error if the data does not have the expected number of samples"""
+        from resistics.errors import TimeDataReadError
+
+        expected = (len(metadata.chans), n_samples)
+        if data.shape != expected:
+            raise TimeDataReadError(
+                dir_path, f"Data has shape {data.shape}, expected {expected}"
+            )
+
     def _get_return_metadata(
         self, metadata: TimeMetadata, read_from: int, read_to: int
     ) -> TimeMetadata:
@@ -1052,6 +1068,7 @@ class TimeReaderAscii(TimeReaderJSON):
             ndmin=2,
         )
         data = data.transpose()
+        self._check_data_shape(dir_path, metadata, data, n_samples)
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
@@ -1101,6 +1118,7 @@ class TimeReaderNumpy(TimeReaderJSON):
         messages.append(f"Sampling frequency {metadata.fs} Hz")
         data_path = dir_path / metadata.chans_metadata[metadata.chans[0]].data_files[0]
         data = np.load(data_path, mmap_mode="r")[:, read_from : read_to + 1]
+        self._check_data_shape(dir_path, metadata, data, read_to - read_from + 1)
         metadata = self._get_return_metadata(metadata, read_from, read_to)
         messages.append(f"From sample, time: {read_from}, {str(metadata.first_time)}")
         messages.append(f"To sample, time: {read_to}, {str(metadata.last_time)}")
-- 
2.43.0


From 9f07be43ec9e990e753848b309269cef67237429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 14/24] fix: allow for rounding when converting times to
 samples

---
 resistics/sampling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/sampling.py b/resistics/sampling.py
index ab06eed..416761e 100644
--- a/resistics/sampling.py
+++ b/resistics/sampling.py
@@ -373,14 +373,15 @@ def to_n_samples(delta: RSTimeDelta, fs: float, method: str = "round") -> int:
     >>> check_inclusive
     471900155
     """
-    from math import floor, ceil
+    from math import floor, ceil, isclose
 
     days_in_seconds, remaining_in_seconds = to_seconds(delta)
     n_samples = (days_in_seconds + remaining_in_seconds) * fs
     # add 1 to be inclusive of start and end
     n_samples += 1
-    if n_samples.is_integer():
-        return int(n_samples)
+    # allow for floating point error in times that fall on a sample
+    if isclose(n_samples, round(n_samples), rel_tol=1e-13, abs_tol=1e-9):
+        return int(round(n_samples))
 
     if method == "floor":
         return int(floor(n_samples))
-- 
2.43.0


From 73b429639823e409d6dd8ae4ff94cd3760c3b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 15/24] fix: calibrate data with a single evaluation frequency

---
 resistics/calibrate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 3cfc156..143c1d6 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -466,8 +466,7 @@ class Calibrator(ResisticsProcess):
             Calibrated data
         """
         transfunc = self._interpolate(np.array(freqs), cal_data)
-        chan_data = chan_data[:, np.newaxis, :] / transfunc[np.newaxis, :]
-        return np.squeeze(chan_data)
+        return chan_data / transfunc[np.newaxis, :]
 
     def _interpolate(
         self, freqs: np.ndarray, cal_data: CalibrationData
-- 
2.43.0


From fa938fca90efdd49400200f1270fe84c8a0fd41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 16/24] fix: keep the channel dimension when windowing a single
 channel or window

---
 resistics/window.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 6900be7..2502d52 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1384,9 +1384,9 @@ class Windower(ResisticsProcess):
         from_sample = win_table.loc[0, "from_sample"]
         to_sample = win_table.loc[win_table.index[-1], "from_sample"]
         increment_size = win_size - olap_size
-        view = np.squeeze(
-            sliding_window_view(data, window_shape=(n_chans, win_size), writeable=True)
-        )
+        view = sliding_window_view(
+            data, window_shape=(n_chans, win_size), writeable=True
+        )[0]
         return view[from_sample : to_sample + 1 : increment_size]
 
     def _get_level_metadata(
-- 
2.43.0


From d5c347aaf95c3b35f88716ae7588f9777be32697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 17/24] fix: reject calibration data with differing numbers of
 values

---
 resistics/calibrate.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/resistics/calibrate.py b/resistics/calibrate.py
index 143c1d6..bccb975 100644
--- a/resistics/calibrate.py
+++ b/resistics/calibrate.py
@@ -58,6 +58,20 @@ class CalibrationData(WriteableMetadata):
     n_samples: Optional[int] = None
     """Number of data samples"""
 
+    @validator("frequency")
+    def validate_frequency(cls, value: List[float]) -> List[float]:
+        """Validate that there are calibration data"""
+        if len(value) == 0:
+            raise ValueError("No calibration data")
+        return value
+
+    @validator("magnitude", "phase")
+    def validate_length(cls, value: List[float], values: Dict[str, Any]) -> List[float]:
+        """Validate that there is a value for each frequency"""
+        if "frequency" in values and len(value) != len(values["frequency"]):
+            raise ValueError("Number of values does not match number of frequencies")
+        return value
+
     @validator("n_samples", always=True)
     def validate_n_samples(cls, value: Union[int, None], values: Dict[str, Any]) -> int:
         """Validate number of samples"""
-- 
2.43.0


From 70fc91ee98e85fd00df1a33d92f78237f23ffc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 18/24] fix: check only once whether the folder to write to
 exists

---
 resistics/common.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resistics/common.py b/resistics/common.py
index 913918d..5453d15 100644
--- a/resistics/common.py
+++ b/resistics/common.py
@@ -924,18 +924,19 @@ class ResisticsWriter(ResisticsProcess):
 
     def _check_dir(self, dir_path: Path) -> bool:
         """Check the output directory"""
-        if dir_path.exists() and not self.overwrite:
+        # ask once, other processes may make the directory at any time
+        exists = dir_path.exists()
+        if exists and not self.overwrite:
             logger.error(f"Write path {dir_path} exists and overwrite is False")
             return False
-        if dir_path.exists():
+        if exists:
             logger.warning(f"Overwriting existing directory {dir_path}")
             # an interrupted overwrite must not leave the existing metadata next
             # to new data
             (dir_path / "metadata.json").unlink(missing_ok=True)
-        if not dir_path.exists():
+        if not exists:
             logger.info(f"Directory {dir_path} not found. Creating including parents.")
             try:
-                # the directory may have been made by another process meanwhile
                 dir_path.mkdir(parents=True, exist_ok=self.overwrite)
             except FileExistsError:
                 logger.error(f"Write path {dir_path} exists and can not be used")
-- 
2.43.0


From 5d40a3a2ee23ee12e7a8e69194dac7faf0bab038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 19/24] fix: allow for rounding when converting times to
 windows

---
 resistics/window.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index 2502d52..bb036a3 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -343,7 +343,7 @@ def datetime_to_win(
     1985-09-12 22:20:20
 
     """
-    from math import floor, ceil
+    from math import floor, ceil, isclose
     from resistics.sampling import to_seconds
 
     if time < ref_time:
@@ -356,8 +356,9 @@ def datetime_to_win(
     delta_total_in_seconds = delta_days_in_seconds + delta_remaining_in_seconds
     n_increments = delta_total_in_seconds / increment_seconds
 
-    if n_increments.is_integer():
-        n_increments = int(n_increments)
+    # allow for floating point error in times that are window starts
+    if isclose(n_increments, round(n_increments), rel_tol=1e-14, abs_tol=1e-9):
+        n_increments = int(round(n_increments))
     elif method == "floor":
         n_increments = int(floor(n_increments))
     elif method == "ceil":
-- 
2.43.0


From 337c1f90c414f974b456ec1f2d8d96a2a66fdfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 20/24] fix: get the last window for any overlap and allow for
 rounding of times

---
 resistics/window.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/resistics/window.py b/resistics/window.py
index bb036a3..6629a11 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -379,12 +379,13 @@ def get_first_and_last_win(
 
     .. note::
 
-        For the last window, on initial calculation this may be one or a
-        maximum of two windows beyond the last time. The last window is adjusted
-        in this function.
+        For the last window, on initial calculation this may be one or more
+        windows beyond the last time. The last window is adjusted in this
+        function.
 
-        Two windows may occur when the time of the last sample is in the overlap
-        of the final two windows.
+        Two or more windows may occur when the time of the last sample is in the
+        overlap of the final windows. If there is not enough data for a single
+        window, the last window returned is less than the first window.
 
     Parameters
     ----------
@@ -403,12 +404,6 @@ def get_first_and_last_win(
         First and last global windows. This is window indices relative to the
         reference time
 
-    Raises
-    ------
-    ValueError
-        If unable to calculate the last window correctly as this will result in
-        an incorrect number of windows
-
     Examples
     --------
     Get the first and last window for the first decimation level in a decimated
@@ -478,16 +473,14 @@ def get_first_and_last_win(
     increment = inc_duration(win_size, olap_size, metadata.fs)
     first_win = datetime_to_win(ref_time, metadata.first_time, increment, method="ceil")
     last_win = datetime_to_win(ref_time, metadata.last_time, increment, method="floor")
-    # adjust if there is not enough date to complete the last window
+    # adjust if there is not enough date to complete the last window, allowing
+    # for rounding of times by a small fraction of a sample
+    last_time = metadata.last_time + win_duration(2, metadata.fs) * 0.001
     last_win_time = win_to_datetime(ref_time, last_win, increment)
-    for attempt in range(2):
-        if metadata.last_time >= last_win_time + duration:
-            break
-        logger.debug(f"Adjusting last window attempt {attempt + 1}")
+    while last_win >= first_win and last_time < last_win_time + duration:
+        logger.debug(f"Not enough data for window {last_win}, adjusting last window")
         last_win -= 1
         last_win_time = win_to_datetime(ref_time, last_win, increment)
-    if metadata.last_time < last_win_time + duration:
-        raise ValueError("Unable to correctly get the last window")
     return first_win, last_win
 
 
@@ -685,8 +678,10 @@ def get_win_table(
     n_wins = last_win - first_win + 1
     local_wins = np.arange(n_wins).astype(int)
     # samples - use the floor here to avoid a situation where it is rounded up
-    # and then there are insufficient samples
-    first_sample = to_n_samples(first_win_time - first_time, fs, method="floor") - 1
+    # and then there are insufficient samples. However, allow for rounding of
+    # times by a small fraction of a sample
+    first_delta = first_win_time - first_time + win_duration(2, fs) * 0.001
+    first_sample = to_n_samples(first_delta, fs, method="floor") - 1
     starts = datetime_array_estimate(first_win_time, fs / increment_size, n_wins)
     ends = get_win_ends(starts, win_size, fs)
     df_dict = {
-- 
2.43.0


From 6b6068d5df7917f18406691d32d4af12c1b7f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 21/24] fix: subtract the index offset when getting a window by
 global index

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index 6629a11..a277b0c 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1138,7 +1138,7 @@ class WindowedData(ResisticsData):
             Window data
         """
         index_offset = self.metadata.levels_metadata[level].index_offset
-        return self.get_local(level, global_win + index_offset)
+        return self.get_local(level, global_win - index_offset)
 
     def get_chan(self, level: int, chan: str) -> np.ndarray:
         """
-- 
2.43.0


From 4aef125e259eeb5b4ebc77665c75223525126644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 22/24] fix: keep the reference time that target windows are
 relative to

---
 resistics/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resistics/window.py b/resistics/window.py
index a277b0c..596eb83 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1488,7 +1488,7 @@ class WindowerTarget(Windower):
             )
             data[ilevel] = win_level_data
             win_levels_metadata.append(win_level_metadata)
-        metadata_dict["ref_time"] = metadata_dict["first_time"]
+        metadata_dict["ref_time"] = ref_time
         metadata = self._get_metadata(metadata_dict, win_levels_metadata)
         metadata.history.add_record(self._get_record(messages))
         logger.info("Windowing completed")
-- 
2.43.0


From 4637b3be10b90a12c179513c2178c0ef383f4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 23/24] fix: close data files after reading them

---
 resistics/decimate.py | 4 ++--
 resistics/spectra.py  | 4 ++--
 resistics/window.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/resistics/decimate.py b/resistics/decimate.py
index 8d01652..75888aa 100644
--- a/resistics/decimate.py
+++ b/resistics/decimate.py
@@ -870,8 +870,8 @@ class DecimatedDataReader(ResisticsProcess):
         if metadata_only:
             return metadata
         data_path = dir_path / "data.npz"
-        npz_file = np.load(data_path)
-        data = {int(level): npz_file[level] for level in npz_file.files}
+        with data_path.open("rb") as f, np.load(f) as npz_file:
+            data = {int(level): npz_file[level] for level in npz_file.files}
         messages = [f"Decimated data read from {dir_path}"]
         metadata.history.add_record(self._get_record(messages))
         return DecimatedData(metadata, data)
diff --git a/resistics/spectra.py b/resistics/spectra.py
index 962c0d5..74159e7 100644
--- a/resistics/spectra.py
+++ b/resistics/spectra.py
@@ -839,8 +839,8 @@ class SpectraDataReader(ResisticsProcess):
         if metadata_only:
             return metadata
         data_path = dir_path / "data.npz"
-        npz_file = np.load(data_path)
-        data = {int(level): npz_file[level] for level in npz_file.files}
+        with data_path.open("rb") as f, np.load(f) as npz_file:
+            data = {int(level): npz_file[level] for level in npz_file.files}
         messages = [f"Spectra data read from {dir_path}"]
         metadata.history.add_record(self._get_record(messages))
         return SpectraData(metadata, data)
diff --git a/resistics/window.py b/resistics/window.py
index 596eb83..83dac1d 100644
--- a/resistics/window.py
+++ b/resistics/window.py
@@ -1596,8 +1596,8 @@ class WindowedDataReader(ResisticsProcess):
         if metadata_only:
             return metadata
         data_path = dir_path / "data.npz"
-        npz_file = np.load(data_path)
-        data = {int(level): npz_file[level] for level in npz_file.files}
+        with data_path.open("rb") as f, np.load(f) as npz_file:
+            data = {int(level): npz_file[level] for level in npz_file.files}
         messages = [f"Windowed data read from {dir_path}"]
         metadata.history.add_record(self._get_record(messages))
         return WindowedData(metadata, data)
-- 
2.43.0


From 5d0e86c00a081b7dd800cc9710607ccd36948377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:28 +0000
Subject: [PATCH 24/24] fix: no project is created when a file is in the place
 of one of its folders

---
 resistics/letsgo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resistics/letsgo.py b/resistics/letsgo.py
index fc34ea9..1c4a80c 100644
--- a/resistics/letsgo.py
+++ b/resistics/letsgo.py
@@ -59,11 +59,14 @@ class ProjectCreator(ResisticsProcess):
 
     def _make_subdirs(self):
         """Make project subdirectories"""
+        from resistics.common import assert_dir
+
         for data_type, subdir in PROJ_DIRS.items():
             subdir_path = self.dir_path / subdir
             if not subdir_path.exists():
                 logger.info(f"Making {data_type} data subdirectory: {subdir_path}")
                 subdir_path.mkdir()
+            assert_dir(subdir_path)
 
 
 def new(dir_path: Union[Path, str], proj_info: Dict[str, Any]) -> bool:
-- 
2.43.0

