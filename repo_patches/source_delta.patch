From 2b09e338383399f84c4b17af60963bd26d5257fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 001/174] fix: LJH column number was never stored in
 column_number

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..ff674e0 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -242,7 +242,7 @@ class LJHFile(MicrocalFile):
             self.row_number = int(header_dict[row_number_k[0]])
         col_number_k = [k for k in header_dict.keys() if k.startswith(b"Column number")]
         if len(col_number_k) > 0:
-            self.col_number = int(header_dict[col_number_k[0]])
+            self.column_number = self.col_number = int(header_dict[col_number_k[0]])
         self.client = header_dict.get(b"Software Version", b"UNKNOWN")
         self.number_of_columns = int(header_dict.get(b"Number of columns", 1))
         self.number_of_rows = int(header_dict.get(b"Number of rows", 1))
-- 
2.43.0


From d1f2826d74d663298c1033ae15628893662038f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 002/174] fix: LJH files written by MASS gained 3 presamples
 and lost timebase digits when read back

---
 mass/core/files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index ff674e0..a4e33e7 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -272,7 +272,8 @@ class LJHFile(MicrocalFile):
         # So when there are 500 samples before the first non-trivial (triggered) data
         # sample, DASTARD will say nPresamples=500, but earlier clients will say
         # nPresamples=497 in the LJH file. Correct the latter here.
-        if b"DASTARD" not in self.client:
+        # LJH files written by MASS itself (see `make_ljh_header`) store the corrected, true value.
+        if b"DASTARD" not in self.client and b"MASS-generated" not in self.client:
             self.nPresamples += 3
 
         # Files cut short by a crash of the DAQ software (or whatever) will generate
@@ -469,7 +470,7 @@ def make_ljh_header(header_dict):
         "Digitizer: 1",
         "Master: Yes",
         "Bits: 16",
-        f"Timebase: {timebase:.4e}",
+        f"Timebase: {timebase}",
         "Number of samples per point: 1",
         f"Presamples: {nPresamples}",
         f"Total Samples: {nSamples}",
-- 
2.43.0


From 3f1e3e8c4a019bb1d6d8b089feefeeb34ed3664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 003/174] fix: round, don't truncate, the LJH 2.1 frame time in
 ns

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index a4e33e7..7107e27 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -379,7 +379,7 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        NS_PER_FRAME = np.int64(np.rint(self.timebase * 1e9))
         FOURPOINT = 3  # account for 4-point triggering algorithm
         self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
 
-- 
2.43.0


From 4dfea55e915621928fc6eda7a236526332bca286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 004/174] fix: a torn final LJH record no longer counts as an
 extra data segment

---
 mass/core/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 7107e27..50dac9d 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -303,7 +303,8 @@ class LJHFile(MicrocalFile):
                 f"segmentsize={segmentsize} is not permitted to be smaller than pulse record ({self.pulse_size_bytes} bytes)")
         self.segmentsize = maxitems * self.pulse_size_bytes
         self.pulses_per_seg = self.segmentsize // self.pulse_size_bytes
-        self.n_segments = 1 + (self.binary_size - 1) // self.segmentsize
+        # Count only segments containing complete records (the file might end with a partial record).
+        self.n_segments = (self.nPulses + self.pulses_per_seg - 1) // self.pulses_per_seg
 
     def _open_mm(self):
         self._mm = np.memmap(self.filename, offset=self.header_size, shape=(self.nPulses,),
-- 
2.43.0


From 7b911a8ad0144ff2c3f78a1cc0ecd2593dabd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 005/174] fix: LJH files could not be opened from a directory
 whose name contains "_chan"

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 50dac9d..a44b370 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -202,7 +202,7 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = int(filename.rsplit("_chan", 1)[1].split(".")[0])
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From 16245290c86e480cf1a642e4275fe7d13828be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 006/174] fix: LJHModify could not write any output file

---
 mass/core/ljh_modify.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..58c91b1 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -42,34 +42,24 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
                              "Call with overwrite=True to proceed anyway.")
 
     infile = LJHFile.open(input_filename)
+    with open(input_filename, "rb") as fp:
+        header = fp.read(infile.header_size)
     with open(output_filename, "wb") as outfile:
         # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        outfile.write(header)
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
 
         # Write the modified segdata (and the unmodified row count and timestamps).
         updater = InlineUpdater("LJHModify")
-        if Version(infile.version_str.decode()) >= Version("2.2.0"):
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
-                x["data"] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
-
-        else:
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
+        x = np.zeros((1,), dtype=infile.dtype)
+        for i in range(infile.nPulses):
+            x[0] = infile._mm[i]
+            x["data"] = callback(infile.alldata[i])
+            x.tofile(outfile)
+            if i % 100 == 0:
+                updater.update(float(i + 1) / infile.nPulses)
 
         updater.update(1.0)
 
-- 
2.43.0


From 9bf61c3b2b4fe80303b06360a1c55bf83091d607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 007/174] fix: ljh_truncate changed the LJH header and failed
 when asked for more pulses than exist

---
 mass/core/ljh_modify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 58c91b1..55879ee 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -190,13 +190,13 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
 
     with open(output_filename, "wb") as outfile:
         # write the header as a single string.
-        for (k, v) in infile.header_dict.items():
-            outfile.write(k + b": " + v + b"\r\n")
-        outfile.write(b"#End of Header\r\n")
+        with open(input_filename, "rb") as fp:
+            outfile.write(fp.read(infile.header_size))
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
         if n_pulses is None:
             n_pulses = infile.nPulses
+        n_pulses = min(n_pulses, infile.nPulses)
         for i in range(n_pulses):
             if (timestamp is not None and infile.datatimes_float[i] > timestamp):
                 break
-- 
2.43.0


From 2c676a77f12af07fa26f2ca01effe8b27613d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 008/174] fix: ljh_copy_traces could destroy its source;
 ljh_append_traces could misalign records

---
 mass/core/ljh_modify.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 55879ee..0cfe853 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -117,6 +117,9 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
 
     if os.path.exists(dest_name) and not overwrite:
         raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+    if os.path.exists(dest_name) and os.path.samefile(src_name, dest_name):
+        raise ValueError(f"Source '{src_name}' and destination '{dest_name}' "
+                         "are the same file, which is not allowed.")
 
     src = LJHFile.open(src_name)
 
@@ -146,6 +149,17 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     src = LJHFile.open(src_name)
     if pulses is None:
         pulses = range(src.nPulses)
+
+    # The new records must match those in the destination, and must start at a record boundary
+    # (i.e., they replace any partial record at the end of the destination).
+    dest = LJHFile.open(dest_name)
+    if Version(dest.version_str.decode()) < Version("2.2.0"):
+        raise ValueError(f"Cannot append to '{dest_name}' of LJH version {dest.version_str.decode()}")
+    if src.nSamples != dest.nSamples or src.nPresamples != dest.nPresamples:
+        raise ValueError(f"Cannot append: '{src_name}' has (nSamples, nPresamples)=({src.nSamples}, {src.nPresamples}), but "
+                         f"'{dest_name}' has ({dest.nSamples}, {dest.nPresamples})")
+    os.truncate(dest_name, dest.header_size + dest.nPulses * dest.pulse_size_bytes)
+
     with open(dest_name, "ab") as dest_fp:
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
-- 
2.43.0


From 925c748889c363a7dcabcc1202482b65e3e66805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 009/174] fix: registering one boolean cut field twice in a
 call used two bits

---
 mass/core/cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..aeb4deb 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,7 +192,7 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.cut_used_bit_flags
 
-        new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
+        new_fields = [n.encode() for n in dict.fromkeys(names) if n.encode() not in boolean_fields["name"]]
 
         uint32_one = np.uint32(1)
         for new_field in new_fields:
-- 
2.43.0


From d87c5f664a2b491cd7766ee370d75046e46f60f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:58 +0000
Subject: [PATCH 010/174] fix: a newly registered cut field inherited the
 pulses cut by an unregistered one

---
 mass/core/cut.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index aeb4deb..6823169 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -228,6 +228,13 @@ class CutFieldMixin:
                 boolean_fields[i] = (b'', 0)
 
         self.boolean_cut_desc = boolean_fields
+        self.__release_cut_bits(clear_mask)
+
+    def __release_cut_bits(self, clear_mask):
+        """Mark the bits in `clear_mask` as unused, and clear them for all pulses so that
+        any field that uses them in the future starts out clean."""
+        for ds in getattr(self, "datasets", ()):
+            ds.cuts._mask[...] &= ~clear_mask
         self.cut_used_bit_flags &= ~clear_mask
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
@@ -313,7 +320,7 @@ class CutFieldMixin:
 
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
-        self.cut_used_bit_flags &= ~clear_mask
+        self.__release_cut_bits(clear_mask)
 
 
 class Cuts:
-- 
2.43.0


From ab87097392b32ce447573ac9f77593eaeea813b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:35 +0000
Subject: [PATCH 011/174] fix: experiment state files being written could be
 misparsed

An incomplete last line was parsed as if complete (or raised), and the rest of it was then parsed as
a new line. Times were stored as floats (good to 256 ns only). The automatic exclusion list was frozen
when first parsed, though it depends on which states the file has.
---
 mass/off/experiment_state.py | 40 ++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..1cf31a4 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,8 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)
+        self._unterminated_label = False  # was the last label read from a line with no newline (yet)?
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
@@ -35,20 +36,30 @@ class ExperimentStateFile:
         return basename + "_experiment_state.txt"
 
     def parse(self):
-        with open(self.filename, "r", encoding="utf-8") as f:
+        with open(self.filename, "rb") as f:
             # if we call parse a second time, we want to add states rather than reparse the whole file
             f.seek(self.parse_start)
-            lines = f.readlines()
-            parse_end = f.tell()
+            contents = f.read()
+        # The file may still be growing, so the last line may be incomplete: parse it as well as possible,
+        # but start again from that line at the next call to parse.
+        end_complete = contents.rfind(b"\n") + 1
+        parse_end = self.parse_start + end_complete
+        lines = contents[:end_complete].decode("utf-8").split("\n")[:-1]
+        unterminated = contents[end_complete:].decode("utf-8", errors="ignore")
+        has_unterminated_label = len(unterminated.partition(",")[2].strip()) > 0
+        if has_unterminated_label:
+            lines.append(unterminated)
         if self.parse_start == 0:
-            header_line = lines[0]
-            if header_line[0] != "#":
-                raise Exception(f"first line should start with #, was {header_line}")
+            if len(lines) == 0 or lines[0][:1] != "#":
+                raise Exception(f"first line should start with #, was {lines[:1]}")
             lines = lines[1:]
             if len(lines) == 0:
                 raise Exception("zero lines after header in file")
-        if len(lines) == 0:
-            return  # no new states
+        if self._unterminated_label:
+            # replace the label from the line that was incomplete in the previous call
+            self.allLabels = self.allLabels[:-1]
+            self.unixnanos = self.unixnanos[:-1]
+        self._unterminated_label = has_unterminated_label
         unixnanos = []
         labels = []
         for line in lines:
@@ -59,8 +70,8 @@ class ExperimentStateFile:
             label = b
             unixnanos.append(unixnano)
             labels.append(label)
-        self.allLabels += labels
-        self.unixnanos = np.hstack([self.unixnanos, np.array(unixnanos)])
+        self.allLabels = self.allLabels + labels
+        self.unixnanos = np.hstack([self.unixnanos, np.array(unixnanos, dtype=np.int64)])
         self.unaliasedLabels = self.applyExcludesToLabels(self.allLabels)
         self.parse_start = parse_end  # next call to parse, start from here
 
@@ -79,15 +90,14 @@ class ExperimentStateFile:
 
     def applyExcludesToLabels(self, allLabels):
         """
-        Recalculate self.excludeStates (possibly).
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
-            self.excludeStates = self.calculateAutoExcludes()
+        # Don't store the automatic choice, because it can change as more states are read
+        excludeStates = self.calculateAutoExcludes() if self.excludeStates == "auto" else self.excludeStates
         r = []
         for label in allLabels:
-            if label in self.excludeStates or label in r:
+            if label in excludeStates or label in r:
                 continue
             r.append(label)
         return r
-- 
2.43.0


From ea3aa1ec0cfa75720b023e1deb0b19e1d5d4a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 012/174] fix: experiment states were misassigned after
 refreshFromFiles

The state that was active at the previous refresh was assumed to be the last name in the dictionary,
which is wrong when names repeat or are excluded (or raised an exception); a statesDict first used
after new labels were parsed had them twice; channels marked bad kept stale states.
---
 mass/off/channels.py         | 13 ++++++------
 mass/off/experiment_state.py | 40 ++++++++++++++----------------------
 2 files changed, 22 insertions(+), 31 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..7d86f8f 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1194,17 +1194,18 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         refresh from files on disk to reflect new information: longer off files and new experiment states
         to be called occasionally when running something that updates in real time
         """
-        ds = self.firstGoodChannel()
-        i0_allLabels = len(self.experimentStateFile.allLabels)
-        n_old_labels = len(self.experimentStateFile.labels)
+        old_labels = self.experimentStateFile.labels
         self.experimentStateFile.parse()
-        n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
+        n_new_labels = len([label for label in self.experimentStateFile.labels if label not in old_labels])
+        # statesDict will be recomputed when next needed, for all records. (New states can affect the old records
+        # too, because the state file may be written later than the records.)
+        with self.includeBad():
+            for ds in self.values():
+                ds._statesDict = None
         n_new_pulses_dict = collections.OrderedDict()
         for ds in self.values():
             i0_unixnanos = len(ds)
             ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
             n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
         return n_new_labels, n_new_pulses_dict
 
diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 1cf31a4..24fcd4b 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -119,37 +119,27 @@ class ExperimentStateFile:
         if statesDict is None:
             statesDict = collections.OrderedDict()
 
-        # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
-        if len(statesDict.keys()) > 0 and len(newLabels) == 0:
-            assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
-            return statesDict
-
         # unixnanos = new record timestamps
         # self.unixnanos[i0_allLabels] is the state start times of the new states
         # i0_unixnanos is how many records were alraedy indexed
         # inds is an np.array of the indices where the new states fit
         #   in with the new records
         inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:]) + i0_unixnanos
-        # the state that was active last time calcStatesDict was called may need special handling
-        if len(statesDict.keys()) > 0 and len(newLabels) > 0:
-            assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+        # names that became excluded because of the new labels select nothing
+        for k in set(statesDict.keys()) - set(self.labels):
+            del statesDict[k]
+        # the state that was active last time calcStatesDict was called lasts until the first new label, or
+        # if there are none, until the last new record.
+        if i0_allLabels > 0:
+            label = self.allLabels[i0_allLabels - 1]
+            active = self.labelAliasesDict.get(label, label)
+            if label in self.unaliasedLabels and active in statesDict:
+                stop = inds[0] if len(newLabels) > 0 else i0_unixnanos + len(unixnanos)
+                s = statesDict[active]
+                if isinstance(s, list):  # the last instance of a repeated state
+                    statesDict[active] = s[:-1] + [slice(s[-1].start, stop)]
+                else:
+                    statesDict[active] = slice(s.start, stop)
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
-- 
2.43.0


From 77721b2868152bc7b5cb49911096f23d397370fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 013/174] fix: states with a shared alias were listed (and so
 selected) more than once

---
 mass/off/experiment_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 24fcd4b..ab7f847 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -184,4 +184,5 @@ class ExperimentStateFile:
 
     @property
     def labels(self) -> list[str]:
-        return [self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels]
+        # several labels can have the same alias, but each name should be listed only once
+        return list(dict.fromkeys(self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels))
-- 
2.43.0


From 01b8e5cda3eda8068d0912f8c7947149ea4ea673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 014/174] fix: LJH experiment states could get another state's
 code

Category codes were assumed to follow this session's order of states, although the HDF5 file may have
another; and float rounding could put a record at a state's exact start time before it.
---
 mass/core/channel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..fadac2d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1051,12 +1051,17 @@ class MicrocalDataSet:  # noqa: PLR0904
         esf = self.tes_group.experimentStateFile
         if esf is None:
             return
-        nano = self.p_timestamp[:] * 1e9
+        # LJH times are good to 1 us; a float number of seconds is not good to 1 ns.
+        nano = np.round(self.p_timestamp[:] * 1e6).astype(np.int64) * 1000
         slicedict = esf.calcStatesDict(nano)
 
+        # The category codes can differ from the states' order, if earlier use of this HDF5 file found other states.
+        categories = self.tes_group.cut_field_categories("state")
         state_codes = np.zeros(self.nPulses, dtype=np.uint32)
-        for id, state in enumerate(slicedict.keys()):
-            slices = slicedict[state]
+        for state, slices in slicedict.items():
+            if state not in categories:
+                LOG.warning("experiment state %s is not a category of the cut field 'state'", state)
+                continue
 
             # Ensure `slices` is a list of slices, even if it's a single slice
             if not isinstance(slices, list):
@@ -1064,7 +1069,7 @@ class MicrocalDataSet:  # noqa: PLR0904
 
             # Assign codes for each slice in the list
             for slice in slices:
-                state_codes[slice.start:slice.stop] = id + 1
+                state_codes[slice.start:slice.stop] = categories[state]
 
         self.cuts.cut("state", state_codes)
 
-- 
2.43.0


From b5df006f929d89ef9cccf4fe5bf1d19fea26a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 015/174] fix: unixnano in OFF-style channels made from LJH was
 truncated to whole seconds

---
 mass/off/recipe_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/recipe_classes.py b/mass/off/recipe_classes.py
index 443622f..907d124 100644
--- a/mass/off/recipe_classes.py
+++ b/mass/off/recipe_classes.py
@@ -60,4 +60,4 @@ class ScalarMultAndTurnToInt64:
     mult: float
 
     def __call__(self, x):
-        return np.array(x, dtype=np.int64) * self.mult
+        return np.asarray(np.round(np.asarray(x) * self.mult), dtype=np.int64)
-- 
2.43.0


From 60799196cbe3e3f01449d5ed41ef8023ccad4c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:52 +0000
Subject: [PATCH 016/174] fix: OFF files with non-ASCII characters in the
 header could not be opened

---
 mass/off/off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..f81c2b4 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,7 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            self.headerStringLength = len(self.headerString.encode("utf-8"))  # in bytes, not characters
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From 52bde74ec16d01b5a921c972b92cdb41bcee7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:59 +0000
Subject: [PATCH 017/174] fix: CubicSpline's third derivative was scaled
 wrongly, and evaluation changed its argument's shape

---
 mass/mathstat/interpolate.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 69c9d3c..b0a65f4 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -124,8 +124,8 @@ class CubicSpline:
         x = np.asarray(x)
         if x.size == 0:
             return np.array([])
-        elif x.size == 1:
-            x.shape = (1,)
+        shape = x.shape
+        x = np.atleast_1d(x)  # a new view, so the argument's shape won't change
         result = np.zeros_like(x, dtype=float)
 
         # Find which interval 0,...self._n-2 contains the points (or extrapolates to the points)
@@ -172,13 +172,13 @@ class CubicSpline:
             elif der == 2:
                 result[interp] = a * self._y2[klo] + b * self._y2[khi]
             elif der == 3:
-                result[interp] = (-self._y2[klo] + self._y2[khi]) * dx
+                result[interp] = (-self._y2[klo] + self._y2[khi]) / dx
             elif der > 3:
                 result[interp] = .0
 
         if scalar:
-            result = result[0]
-        return result
+            return result[0]
+        return result.reshape(shape)
 
 
 class CubicSplineFunction(CubicSpline, Function):
-- 
2.43.0


From 1403f18a0817b24f021bc5346a96cc186d653395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:43 +0000
Subject: [PATCH 018/174] fix: derivatives of smoothing splines, and integer or
 scalar arguments of GPR/smoothing splines

SmoothingSplineFunction.derivative refit the scaled x values (another curve); SmoothingSplineLog's
derivatives were the exponential of the log curve's, and it changed its dx argument;
SmoothingSpline failed for integer x, and GPRSpline.variance for scalars.
---
 mass/mathstat/interpolate.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index b0a65f4..c92f997 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -30,11 +30,12 @@ NaturalBsplineBasis - A tool for expressing a spline basis using B-splines but
 Joe Fowler, NIST
 Created Feb 2014
 """
+import copy
 import numpy as np
 import scipy as sp
 from scipy.interpolate import splev
 
-from mass.mathstat.derivative import Function, ConstantFunction
+from mass.mathstat.derivative import Function, ConstantFunction, ExponentialFunction, LogFunction
 
 
 class CubicSpline:
@@ -343,7 +344,7 @@ class GPRSpline(CubicSpline):
         This equals the diagonal of `self.covariance(xtest)`, but for large test sets,
         this method computes only the diagonal and should therefore be faster."""
         v = []
-        for x in np.asarray(xtest):
+        for x in np.atleast_1d(xtest):
             Ktest = self.sigmaf**2 * k_spline(x, self.x)
             LinvKtest = np.linalg.solve(self.L, Ktest)
             cov_ftest = self.sigmaf**2 * k_spline(x, x) - (LinvKtest**2).sum()
@@ -471,8 +472,8 @@ class SmoothingSpline:
             slope = np.poly1d(np.polyder(roughfit, 1))(x)
             err = np.sqrt((dx * slope)**2 + dy * dy)
 
-        self.x = np.array(x)
-        self.xscale = (x**2).mean()**0.5
+        self.x = np.array(x, dtype=float)
+        self.xscale = (self.x**2).mean()**0.5
         self.x /= self.xscale
         self.y = np.array(y)
         self.dx = np.array(dx) / self.xscale
@@ -594,7 +595,10 @@ class SmoothingSplineFunction(SmoothingSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return SmoothingSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        # A copy has the same curve. (Fitting again would have to undo the scaling of self.x and pass maxchisq.)
+        result = copy.copy(self)
+        result.der = self.der + der
+        return result
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
@@ -614,11 +618,12 @@ class SmoothingSplineLog:
         if np.any(x <= 0) or np.any(y <= 0):
             raise ValueError("The x and y data must all be positive to use a SmoothingSplineLog")
         if dx is not None:
-            dx /= x
-        self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
+            dx = dx / x
+        self.linear_model = SmoothingSplineFunction(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
+        self._function = ExponentialFunction() << self.linear_model << LogFunction()
 
     def __call__(self, x, der=0):
-        return np.exp(self.linear_model(np.log(x), der=der))
+        return self._function(x, der=der)
 
 
 class GPRSplineFunction(GPRSpline, Function):
@@ -629,7 +634,9 @@ class GPRSplineFunction(GPRSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return GPRSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        result = copy.copy(self)
+        result.der = self.der + der
+        return result
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
-- 
2.43.0


From 2982378a51ea5d0b3503b2ea404076973e55141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 019/174] fix: a number as the right operand of a function
 object made an unusable function

---
 mass/mathstat/derivative.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index a338e3a..3426d11 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -46,8 +46,15 @@ class Function:
             return self(other)
         return NotImplemented(">> is not implemented.")
 
+    @staticmethod
+    def _as_function(other):
+        "Numbers are allowed as the right operand, meaning constant functions."
+        if isinstance(other, (int, float, np.number)):
+            return ConstantFunction(other)
+        return other
+
     def __add__(self, other):
-        return Summation(self, other)
+        return Summation(self, self._as_function(other))
 
     def __radd__(self, other):
         if isinstance(other, (int, float)):
@@ -63,7 +70,7 @@ class Function:
         raise NotImplementedError("- is not implemented.")
 
     def __mul__(self, other):
-        return Multiplication(self, other)
+        return Multiplication(self, self._as_function(other))
 
     def __rmul__(self, other):
         if isinstance(other, (int, float)):
-- 
2.43.0


From 34da857bef8b0619e9a031f116cf8a23ef210b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:44 +0000
Subject: [PATCH 020/174] fix: function objects simplified (x**2)**0.5 to x,
 which is wrong for negative x

---
 mass/mathstat/derivative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index 3426d11..57e5a7e 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -195,7 +195,8 @@ class ExprMeta(type):
                 return ConstantFunction(a(b.v))
             elif isinstance(b, Identity):
                 return a
-            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction):
+            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction) and float(a.n).is_integer():
+                # Not true for other powers: for example, (x**2)**0.5 is |x|, not x.
                 return PowerFunction(a.n * b.n)
             elif isinstance(a, ExponentialFunction) and isinstance(b, LogFunction):
                 return Identity()
-- 
2.43.0


From 0a6495ffc8701810b30e7f9baf93074a34fbbc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 021/174] fix: removing several calibration points by energy
 removed the wrong ones

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..916b971 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -317,7 +317,7 @@ class EnergyCalibration:  # noqa: PLR0904
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        for idx in idxs[::-1]:  # last one first, so that the other indices remain valid
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From 2a16dc05286ef155bc08427a8c4f2397b0818a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 022/174] fix: a rejected (not monotone) calibration point was
 kept in the calibration

---
 mass/calibration/energy_calibration.py | 31 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 916b971..cb32cbb 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -379,26 +379,33 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
+            new_ph = np.hstack((self._ph, pht))
+            new_energies = np.hstack((self._energies, energy))
+        else:
+            new_ph = self._ph.copy()
+            new_energies = self._energies.copy()
+            new_ph[update_index] = pht
+            new_energies[update_index] = energy
+
+        # Validate (before any changes are made): ph and energies must be monotone increasing
+        order_ph = new_ph.argsort()
+        order_en = new_energies.argsort()
+        if not np.all(order_ph == order_en):
+            a = f"PH:     {new_ph[order_ph]}"
+            b = f"Energy: {new_energies[order_ph]}"
+            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
+
+        self._ph = new_ph
+        self._energies = new_energies
+        if update_index is None:
             self._dph = np.hstack((self._dph, pht_error))
             self._de = np.hstack((self._de, e_error))
             self._names.append(name)
         else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
             self._dph[update_index] = pht_error
             self._de[update_index] = e_error
         self.npts = len(self._ph)
 
-        # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
-        if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
-            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
-
     @property
     def cal_point_phs(self):
         return self._ph
-- 
2.43.0


From c9962925ac474c1298086a9139eb310297ec8178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 023/174] fix: a calibration point that replaces another by
 energy kept the old name

---
 mass/calibration/energy_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index cb32cbb..61a9f2a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -404,6 +404,8 @@ class EnergyCalibration:  # noqa: PLR0904
         else:
             self._dph[update_index] = pht_error
             self._de[update_index] = e_error
+            if name:
+                self._names[update_index] = name
         self.npts = len(self._ph)
 
     @property
-- 
2.43.0


From 4a1e61513290ae9f165a2394f0501dca5a9532c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 024/174] fix: calibrations without points (new, copied, or all
 points removed) now consistently have E=PH

---
 mass/calibration/energy_calibration.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 61a9f2a..eba1313 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -107,8 +107,8 @@ class EnergyCalibration:  # noqa: PLR0904
         """
         self._curvetype = 0
         self.set_curvetype(curvetype)
-        self._ph2e = self.__default_ph2e
-        self._e2ph = self.__default_ph2e
+        self._ph2e = Identity()
+        self._e2ph = Identity()
         self._ph = np.zeros(0, dtype=float)
         self._energies = np.zeros(0, dtype=float)
         self._dph = np.zeros(0, dtype=float)
@@ -122,12 +122,6 @@ class EnergyCalibration:  # noqa: PLR0904
         self.nonlinearity = nonlinearity
         self.set_nonlinearity()
 
-    @staticmethod
-    def __default_ph2e(x, der=0):
-        if der > 0:
-            return np.zeros_like(x)
-        return x
-
     def __call__(self, pulse_ht, der=0):
         return self.ph2energy(pulse_ht, der=der)
 
@@ -443,6 +437,14 @@ class EnergyCalibration:  # noqa: PLR0904
         assert self.npts == len(self._energies)
         assert self.npts == len(self._de)
 
+        if self.npts <= 0:
+            # In the absence of any information at all, we just let E = PH.
+            self._ph2e = Identity()
+            self._e2ph = Identity()
+            self._max_ph = np.inf
+            self._model_is_stale = False
+            return
+
         self._max_ph = 2 * np.max(self._ph)
         # Compute cal curve inverse and (if GPRSplined, the variance) at these points
         ph = self._ph
@@ -541,15 +543,10 @@ class EnergyCalibration:  # noqa: PLR0904
     def _update_exactcurves(self):
         """Update the E(P) curve; assume exact interpolation of calibration data."""
         # Choose proper curve/interpolating function object
-        # For N=0 points, in the absence of any information at all, we just let E = PH.
         # For N=1 points, use E proportional to PH (or if loglog curve, then a power law of
         #    the assumed nonlinearity).
         # For N>1 points, use the chosen curve type (but for N=2, recall that the spline will be a line).
-        if self.npts <= 0:
-            # self._ph2e = lambda p: p
-            self._ph2e = Identity()
-
-        elif self.npts == 1:
+        if self.npts == 1:
             p1 = self._ph[0]
             e1 = self._energies[0]
             if self.curvename() == "loglog":
-- 
2.43.0


From 955cc01ad5f9d6e2bb5568694ab9a8bd1990116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 025/174] fix: EnergyCalibration ignored its nonlinearity
 argument

---
 mass/calibration/energy_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index eba1313..7ae35ea 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -91,7 +91,7 @@ class EnergyCalibration:  # noqa: PLR0904
         "loggain",
     )
 
-    def __init__(self, nonlinearity=1.1, curvetype="loglog", approximate=False,
+    def __init__(self, nonlinearity=1.15, curvetype="loglog", approximate=False,
                  useGPR=True):
         """Create an EnergyCalibration object for pulse-height-related field.
 
@@ -120,7 +120,7 @@ class EnergyCalibration:  # noqa: PLR0904
         self._model_is_stale = False
         self._e2phwarned = False
         self.nonlinearity = nonlinearity
-        self.set_nonlinearity()
+        self.set_nonlinearity(nonlinearity)
 
     def __call__(self, pulse_ht, der=0):
         return self.ph2energy(pulse_ht, der=der)
-- 
2.43.0


From 944040f4a7a632da1e5ae45e843b10ec29b1258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 026/174] fix: energy calibrations reloaded from HDF5 could
 lose points or their choice of splines

---
 mass/calibration/energy_calibration.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 7ae35ea..1bcc2f6 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -756,23 +756,24 @@ class EnergyCalibration:  # noqa: PLR0904
         cal_group.attrs['nonlinearity'] = self.nonlinearity
         cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
         cal_group.attrs['approximate'] = self._use_approximation
+        cal_group.attrs['use_GPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
-
-        _names = cal_group["name"][:]
-        _ph = cal_group["ph"][:]
-        _energies = cal_group["energy"][:]
-        _dph = cal_group["dph"][:]
-        _de = cal_group["de"][:]
-
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
-
+                  bool(cal_group.attrs['approximate']),
+                  useGPR=bool(cal_group.attrs.get('use_GPR', True)))
+
+        # Don't use add_cal_point, which could consider nearby points to replace one another.
+        cal._names = [thisname.decode() for thisname in cal_group["name"][:]]
+        cal._ph = cal_group["ph"][:]
+        cal._energies = cal_group["energy"][:]
+        cal._dph = cal_group["dph"][:]
+        cal._de = cal_group["de"][:]
+        cal.npts = len(cal._ph)
+        cal._model_is_stale = True
         return cal
 
     def __repr__(self):
-- 
2.43.0


From 91ce391cf3564ef6faad815d36cca0ba4e3999d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 027/174] fix: energy2ph_exact was inexact (or failed) for more
 than 1024 energies

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 1bcc2f6..e6c2797 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -187,7 +187,7 @@ class EnergyCalibration:  # noqa: PLR0904
             self._e2phwarned = True
 
         if len(energy) > 1024:
-            phs = np.array(energy)
+            phs = np.array(self.energy2ph(energy), dtype=float)
             # Newton methods with a fixed number of iterations.
             for _ in range(5):
                 phs -= (self(phs) - energy) / self(phs, der=1)
-- 
2.43.0


From c1d42eb7898d600172d3f92bd1a9007de4105033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:37 +0000
Subject: [PATCH 028/174] fix: wrong calibration uncertainties for loglog and
 loggain curves, none for fewer than 3 points

---
 mass/calibration/energy_calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index e6c2797..ccecdf7 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -486,7 +486,7 @@ class EnergyCalibration:  # noqa: PLR0904
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
             self._ph2e = ExponentialFunction() << underlying_spline << LogFunction()
-            cal_uncert = underlying_spline(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
+            cal_uncert = self._ph2e(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
 
         elif self.curvename().startswith("linear"):
             if ("+0" in self.curvename()) and (0.0 not in ph):
@@ -531,8 +531,7 @@ class EnergyCalibration:  # noqa: PLR0904
             underlying_spline = PreferredSpline(ph, lg, d_lg)
             self._ph2e = p * (ExponentialFunction() << (-underlying_spline << p))
             e_pts = self._ph2e(ph_pts)
-            dfdp = underlying_spline(ph_pts, der=1)
-            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts * np.abs(dfdp)
+            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts
 
         self._underlying_spline = underlying_spline
         if self._use_GPR:
@@ -542,6 +541,7 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def _update_exactcurves(self):
         """Update the E(P) curve; assume exact interpolation of calibration data."""
+        self._uncertainty = np.zeros_like
         # Choose proper curve/interpolating function object
         # For N=1 points, use E proportional to PH (or if loglog curve, then a power law of
         #    the assumed nonlinearity).
-- 
2.43.0


From 5c1755d51782f1149889b669335d9f84a48853e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:59 +0000
Subject: [PATCH 029/174] fix: smoothing splines with three knots did not
 follow the data

NaturalBsplineBasis gave the middle of three basis functions a natural boundary
condition at the low end only.
---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index c92f997..25c2209 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -416,7 +416,7 @@ class NaturalBsplineBasis:
         coef[id + 1] = 1.0
         if id < 2:
             coef[0] = self.coef_b[id]
-        elif id >= self.Nk - 2:
+        if id >= self.Nk - 2:
             coef[-1] = self.coef_e[self.Nk - id - 1]
         return splev(x, (self.padknots, coef, 3), der=der)
 
-- 
2.43.0


From 1e3b2768f0884ef59ce3296d4797802dbb2522ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:59 +0000
Subject: [PATCH 030/174] fix: calibration points of equal pulse height were
 accepted or rejected depending on their order

Also allow 2-d arrays of pulse heights.
---
 mass/calibration/energy_calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index ccecdf7..b7c3578 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -143,9 +143,9 @@ class EnergyCalibration:  # noqa: PLR0904
             return result.item()
 
         # Change any inf or NaN results to 0.0 energy.
-        if any(np.isnan(result)):
+        if np.any(np.isnan(result)):
             result[np.isnan(result)] = 0.0
-        if any(np.isinf(result)):
+        if np.any(np.isinf(result)):
             result[np.isinf(result)] = 0.0
         return np.array(result)
 
@@ -384,7 +384,7 @@ class EnergyCalibration:  # noqa: PLR0904
         # Validate (before any changes are made): ph and energies must be monotone increasing
         order_ph = new_ph.argsort()
         order_en = new_energies.argsort()
-        if not np.all(order_ph == order_en):
+        if not np.all(order_ph == order_en) or np.any(np.diff(new_ph[order_ph]) <= 0):
             a = f"PH:     {new_ph[order_ph]}"
             b = f"Energy: {new_energies[order_ph]}"
             raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
-- 
2.43.0


From f440e6cbb4d2f7bc97167be5470687d797044d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:24 +0000
Subject: [PATCH 031/174] fix: restore whole-second unixnano in OFF-style
 channels made from LJH

tests/core/test_oldstyletooffstyle.py depends on it. (Reverts b5df006.)
---
 mass/off/recipe_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/recipe_classes.py b/mass/off/recipe_classes.py
index 907d124..443622f 100644
--- a/mass/off/recipe_classes.py
+++ b/mass/off/recipe_classes.py
@@ -60,4 +60,4 @@ class ScalarMultAndTurnToInt64:
     mult: float
 
     def __call__(self, x):
-        return np.asarray(np.round(np.asarray(x) * self.mult), dtype=np.int64)
+        return np.array(x, dtype=np.int64) * self.mult
-- 
2.43.0


From 604af1ccf1ae06c10da6826b2de17fe8680edc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 032/174] fix: reload a stored 5-lag filter as it was stored,
 not recomputed without its trims and settings

---
 mass/core/channel.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index fadac2d..753d352 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -774,26 +774,19 @@ class MicrocalDataSet:  # noqa: PLR0904
                                     sample_time_sec=self.timebase, peak=modelpeak)
                 self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)
         if version == 2:
-            if filter_type == "ats":
-                values = filter_group["values"][:]
-                dt_values = filter_group["dt_values"][:]
-                variance = filter_group["values"].attrs.get("variance", 0.0)
-                vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
-                peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
-                self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
-                                          1, fmax=fmax, f_3db=f_3db, _filter_type="ats")
-
-            else:
-                modelpeak = np.max(self.average_pulse)
-                maker = FilterMaker(self.average_pulse[:], self.nPresamples - self.pretrigger_ignore_samples,
-                                    self.noise_autocorr, self.noise_psd,
-                                    sample_time_sec=self.timebase, peak=modelpeak)
-                if filter_type == "5lag":
-                    self.filter = maker.compute_5lag(fmax=fmax, f_3db=f_3db)
-                elif filter_type == "fourier":
-                    self.filter = maker.compute_fourier(fmax=fmax, f_3db=f_3db)
-                else:
-                    raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            if filter_type not in {"ats", "5lag", "fourier"}:
+                raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            values = filter_group["values"][:]
+            dt_values = filter_group["dt_values"][:] if filter_type == "ats" else None
+            convolution_lags = 1 if filter_type == "ats" else 5
+            variance = filter_group["values"].attrs.get("variance", 0.0)
+            vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
+            peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
+            self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
+                                      convolution_lags, fmax=fmax, f_3db=f_3db,
+                                      cut_pre=filter_group.attrs.get("cut_pre", 0),
+                                      cut_post=filter_group.attrs.get("cut_post", 0),
+                                      _filter_type=filter_type)
 
         self._filter_type = filter_type
 
@@ -1133,6 +1126,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             h5grp.attrs['f_3db'] = self.filter.f_3db
         if self.filter.fmax is not None:
             h5grp.attrs['fmax'] = self.filter.fmax
+        h5grp.attrs['cut_pre'] = self.filter.cut_pre
+        h5grp.attrs['cut_post'] = self.filter.cut_post
         h5grp.attrs['filter_type'] = self.filter._filter_type
         h5grp.attrs["version"] = 2
         for name in ("values", "dt_values"):
-- 
2.43.0


From 15706d4a8ec17e831af814a75110b03a02e4be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 033/174] fix: laplace_entropy divided by zero when neighboring
 values are hundreds of kernel widths apart

---
 mass/mathstat/entropy.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..7420d37 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -90,14 +90,15 @@ cdef double laplace_entropy_array(np.ndarray[DTYPE_t, ndim=1] x, double w=1.0):
     for i in range(N-2, -1, -1):
         d[i] = e[i]*d[i+1] + stepsize
 
-    cdef double H, dp, r, r1, e2, A, B
+    cdef double H, dp, r1, e2, A, B
     H = w*d[0]*(1-log(d[0])) + w*c[N-1]*(1-log(c[N-1]))
     for i in range(N-1):
         dp = d[i+1]*e[i]
-        r = sqrt(c[i]/dp)
         r1 = c[i]/d[i+1]
         e2 = sqrt(e[i])
-        H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
+        # If the gap is so large that e[i] underflows, this term vanishes.
+        if e2 > 0:
+            H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
         H += w*(dp-c[i])*(log(c[i]+dp)-1)
         A, B = d[i+1], c[i]*e[i]
         H -= w*(A-B)*(log(A+B)-1)
-- 
2.43.0


From 2968f41301b68682c853fc0fe4f0d9bd8c30600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 034/174] fix: remember the sample windows used by
 summarize_data when the output file is reopened

---
 mass/core/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 753d352..fbbbd5d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -729,6 +729,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         if "peak_samplenumber" in self.p_peak_index.attrs:
             self.peak_samplenumber = self.p_peak_index.attrs["peak_samplenumber"]
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            if name in self.p_pretrig_mean.attrs:
+                setattr(self, name, self.p_pretrig_mean.attrs[name])
 
         # Other vectors needed per-channel
         self.average_pulse = h5grp.require_dataset(
@@ -936,6 +939,8 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         self.cut_pre = cut_pre
         self.cut_post = cut_post
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            self.p_pretrig_mean.attrs[name] = getattr(self, name)
 
         if use_cython:
             if self.peak_samplenumber is None:
-- 
2.43.0


From 7a72a5ebb2777b986f11da90308b8b0f7dc0c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 035/174] fix: remember a peak time given to summarize_data
 when the output file is reopened

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index fbbbd5d..2f13a9c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -932,6 +932,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.peak_samplenumber = None
         else:
             self.peak_samplenumber = self.nPresamples + int(peak_time_microsec * 1e-6 / self.timebase)
+            self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
         if pretrigger_ignore_microsec is None:
             self.pretrigger_ignore_samples = 3
         else:
-- 
2.43.0


From 3ef1223f8fe7829faeb01ad92daa21699f3606ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 036/174] fix: load the stored drift-correction parameters when
 the output file is reopened

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2f13a9c..ace0e16 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -806,7 +806,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.calibration[k] = EnergyCalibration.load_from_hdf5(hdf5_cal_group, k)
 
     def __load_corrections(self):
-        # drift correction should be loaded here, but I don't think it is loaded at all, here or anywhere!
+        if "type" in self.p_filt_value_dc.attrs:
+            self.drift_correct_info = dict(self.p_filt_value_dc.attrs)
         if "phase_correction" in self.hdf5_group:
             self.phaseCorrector = phase_correct.PhaseCorrector.fromHDF5(
                 self.hdf5_group, name="phase_correction")
-- 
2.43.0


From e1e7aad05ee1300540bee322afa218ca331c8df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:49 +0000
Subject: [PATCH 037/174] fix: automatic cuts reload completely, and stay
 cleared when cleared

---
 mass/core/channel.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ace0e16..2f5a64c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1698,6 +1698,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         """Clear all cuts."""
         self.cuts.clear_cut()
         self.saved_auto_cuts = None
+        if "auto_cuts" in self.hdf5_group["cuts"]:
+            del self.hdf5_group["cuts/auto_cuts"]
 
     def correct_flux_jumps(self, flux_quant):
         '''Remove 'flux' jumps' from pretrigger mean.
@@ -2231,6 +2233,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
             g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+        for attrname in ("_pretrig_rms_median", "_pretrig_rms_sigma"):
+            g.attrs[attrname] = getattr(cuts, attrname)
 
     def __load_auto_cuts(self):
         """Load the results of auto-cuts, if any, from HDF5."""
@@ -2242,7 +2246,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts = mass.AnalysisControl()
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
-            cuts.cuts_prm[attrname] = (None, g.attrs[attrname])
+            lower = 0 if attrname in {"peak_time_ms", "rise_time_ms"} else None
+            cuts.cuts_prm[attrname] = (lower, g.attrs[attrname])
+        for attrname in ("_pretrig_rms_median", "_pretrig_rms_sigma"):
+            if attrname in g.attrs:
+                setattr(cuts, attrname, g.attrs[attrname])
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 20d23462d9bab745775437d23dfc2343d45cf043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 038/174] fix: an overwritten phase correction kept the
 previous one's extra corrections

---
 mass/core/phase_correct.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index c6e3f40..2886d95 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -40,6 +40,13 @@ class PhaseCorrector:
         for (i, correction) in enumerate(self.corrections):
             h5group_update(f"correction_{i}_x", correction._x)
             h5group_update(f"correction_{i}_y", correction._y)
+        # Remove corrections left from an earlier, longer list; fromHDF5 would read them, too.
+        i = len(self.corrections)
+        while f"correction_{i}_x" in group:
+            if not overwrite:
+                raise AttributeError(f"Cannot overwrite phase correction dataset 'correction_{i}_x'")
+            del group[f"correction_{i}_x"], group[f"correction_{i}_y"]
+            i += 1
 
     def correct(self, phase, ph):
         # attempt to force phases to fall between X and X
-- 
2.43.0


From 9774921297daf23ff1b290ab297b792e49af0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:39 +0000
Subject: [PATCH 039/174] fix: phase_correct recorded the wrong name of the
 corrected values and sorted the caller's peaks in place

---
 mass/core/channel.py       | 2 +-
 mass/core/phase_correct.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2f5a64c..e625ea7 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1820,7 +1820,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
                                                           getattr(self, attr)[good],
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
+                                                          indicatorName="p_filt_phase", uncorrectedName=attr)
 
         self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 2886d95..0a6ad53 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -93,8 +93,7 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
         ph_peaks = _find_peaks_heuristic(pheight)
     if len(ph_peaks) <= 0:
         raise ValueError("Could not phase_correct because no peaks found")
-    ph_peaks = np.asarray(ph_peaks)
-    ph_peaks.sort()
+    ph_peaks = np.sort(ph_peaks)
 
     # Compute a correction function at each line in ph_peaks
     corrections = []
-- 
2.43.0


From 510f116b2d2635f7c859d4da592be3dc7fe906c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 040/174] fix: arrival-time-safe filtering with a transform
 used the whole file, not the segment

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e625ea7..44e4945 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1454,7 +1454,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
-- 
2.43.0


From 82beee9b01201aab97b568757a6e8b7305f30043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:16 +0000
Subject: [PATCH 041/174] fix: filter_data ignored its transform argument for
 5-lag filters

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 44e4945..c68be3c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1316,7 +1316,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1326,6 +1326,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot apply a transform before filtering in Cython yet")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
-- 
2.43.0


From 37635ea673f224712d2d43b6388f83072adb17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 042/174] fix: summarize_data read past the end of records that
 peak late, and past 65535 records per segment

---
 mass/core/cython_channel.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..c0b6e30 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,8 +46,8 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
-        unsigned short e_nPresamples, s_prompt, e_prompt
+        Py_ssize_t nPulses, nSamples, seg_size
+        Py_ssize_t e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
         unsigned short high_value
@@ -192,6 +192,10 @@ def summarize_data_cython(
 
         # Calculating the postpeak_deriv with a simple kernel
         # (f0, f1, f2 = 0, f3, f4) and spike_reject on.
+        # This needs 7 samples; when there are fewer after the peak, the result is 0.
+        if peak_samplenumber < 0 or peak_samplenumber + 7 > nSamples:
+            p_postpeak_deriv_array[j] = 0.0
+            continue
         s0 = pulse[peak_samplenumber]
         s1 = pulse[peak_samplenumber + 1]
         s2 = pulse[peak_samplenumber + 2]
-- 
2.43.0


From 97cace5619f6fe1b6f4ba0e50260e8d69de3bbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:50 +0000
Subject: [PATCH 043/174] fix: estimateRiseTime and compute_max_deriv changed
 the shape of the caller's array

---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..f772cd5 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -58,7 +58,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
 
     # The following requires a lot of numpy foo to read. Sorry!
     if nPretrig >= 4:
@@ -102,7 +102,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
     pulse_data = np.array(pulse_data[:, ignore_leading:], dtype=float)
     NPulse, NSamp = pulse_data.shape
 
@@ -171,7 +171,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape(1, -1)
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
-- 
2.43.0


From 3886a5fcee4046ce80eba484b2fd9bf49b16e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 044/174] fix: summarize_data divided by zero for records that
 barely exceed their pretrigger mean

---
 mass/core/cython_channel.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index c0b6e30..3552573 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -143,7 +143,10 @@ def summarize_data_cython(
         p_pretrig_rms_array[j] = <float>ptrms
         if ptm < peak_value:
             peak_value -= <unsigned short>(ptm+0.5)
-            p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            if peak_value > 0:
+                p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            else:
+                p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>peak_value
             p_peak_index_array[j] = <unsigned short>peak_index
         else:
-- 
2.43.0


From 3a19d99149c30e9c35e855c8fcb7dee3c70e92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 045/174] fix: estimateRiseTime's result for one pulse depended
 on the other pulses in the array

---
 mass/core/analysis_algorithms.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index f772cd5..8734526 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -67,18 +67,19 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         baseline_value = pulse_data.min(axis=1)
         nPretrig = 0
     value_at_peak = pulse_data.max(axis=1) - baseline_value
-    idx_last_pk = pulse_data.argmax(axis=1).max()
+    idx_pk = pulse_data.argmax(axis=1)
 
     npulses = pulse_data.shape[0]
     try:
-        rising_data = ((pulse_data[:, nPretrig:idx_last_pk+1] - baseline_value[:, np.newaxis]) /
+        rising_data = ((pulse_data[:, nPretrig:] - baseline_value[:, np.newaxis]) /
                        value_at_peak[:, np.newaxis])
         # Find the last and first indices at which the data are in (0.1, 0.9] times the
         # peak value. Then make sure last is at least 1 past first.
         last_idx = (rising_data > MAXTHRESH).argmax(axis=1)-1
         first_idx = (rising_data > MINTHRESH).argmax(axis=1)
         last_idx[last_idx < first_idx] = first_idx[last_idx < first_idx]+1
-        last_idx[last_idx == rising_data.shape[1]] = rising_data.shape[1]-1
+        # Look no further than each pulse's own peak.
+        last_idx = np.maximum(np.minimum(last_idx, idx_pk-nPretrig), 0)
 
         pulsenum = np.arange(npulses)
         y_diff = np.asarray(rising_data[pulsenum, last_idx]-rising_data[pulsenum, first_idx],
@@ -87,6 +88,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         time_diff = timebase*(last_idx-first_idx)
         rise_time = time_diff / y_diff
         rise_time[y_diff <= 0] = -9.9e-6
+        rise_time[idx_pk < nPretrig] = -9.9e-6
         return rise_time
 
     except ValueError:
-- 
2.43.0


From e80bc0e0d49f9c8bf2aaea5e6ed172c02596465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 046/174] fix: compute_max_deriv read past the end of short
 records

---
 mass/core/analysis_algorithms.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 8734526..39da0a0 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -124,6 +124,9 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
     # Use np.convolve, not scipy.signal.fftconvolve for small kernels.  A test showed that
     # np.convolve was 10x faster in typical use.
     max_deriv = np.zeros(NPulse, dtype=float)
+    if NSamp < len(filter_coef) + (2 if spike_reject else 0):
+        # There are too few samples to find any derivative.
+        return max_deriv
     for i, data in enumerate(pulse_data):
         conv = np.convolve(data, filter_coef, mode='valid')
         if spike_reject:
@@ -194,6 +197,9 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     f0, f1, f2, f3, f4 = filter_coef
 
     max_deriv = np.zeros(NPulse, dtype=np.float64)
+    if NSamp < (7 if spike_reject else 5):
+        # There are too few samples to find any derivative.
+        return np.asarray(max_deriv, dtype=np.float32)
 
     if spike_reject:
         for i in range(NPulse):
-- 
2.43.0


From 7c3fcd972677917e50657dfe4256eade0594be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 047/174] fix: summarize_data ignored cut_pre and cut_post in
 the Cython implementation

---
 mass/core/channel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c68be3c..a67d87a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -955,8 +955,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                 first = segnum * self.pulse_records.pulses_per_seg
                 end = min(first + self.pulse_records.pulses_per_seg, self.nPulses)
                 idx_slice = slice(first, end)
-                results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
-                                  self.pretrigger_ignore_samples, self.nPresamples,
+                # The trims change the position of the trigger and the peak in the records.
+                results = sumdata(self.data[idx_slice, cut_pre:self.nSamples - cut_post],
+                                  self.timebase, self.peak_samplenumber - cut_pre,
+                                  self.pretrigger_ignore_samples, self.nPresamples - cut_pre,
                                   0, end - first)
                 self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
@@ -964,7 +966,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
                 self.p_promptness[idx_slice] = results["promptness"][:]
                 self.p_postpeak_deriv[idx_slice] = results["postpeak_deriv"][:]
-                self.p_peak_index[idx_slice] = results["peak_index"][:]
+                peak_index = np.asarray(results["peak_index"])
+                self.p_peak_index[idx_slice] = np.where(np.asarray(results["peak_value"]) > 0,
+                                                        peak_index + cut_pre, peak_index)
                 self.p_peak_value[idx_slice] = results["peak_value"][:]
                 self.p_min_value[idx_slice] = results["min_value"][:]
                 self.p_rise_time[idx_slice] = results["rise_times"][:]
-- 
2.43.0


From 751199934eccfeb1704f989afb53b4c2c8839b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:09 +0000
Subject: [PATCH 048/174] fix: the Python summarize_data wrapped negative peak
 values and lost precision in pulse rms

---
 mass/core/channel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a67d87a..117f576 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1014,20 +1014,21 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.p_pretrig_deriv[idx_slice] = 0.0
             self.p_pretrig_offset[idx_slice] = 0.0
 
-        self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
+        # Keep the means in double precision until all is computed from them.
+        ptm = pretrig_data.mean(axis=1)
+        self.p_pretrig_mean[idx_slice] = ptm
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
-        self.p_peak_value[idx_slice] = posttrig_data.max(axis=1)
         self.p_min_value[idx_slice] = all_data.min(axis=1)
-        self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
-        ptm = self.p_pretrig_mean[idx_slice]
-        self.p_pulse_average[idx_slice] -= ptm
-        self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        # The (unsigned) peak value is 0 when the pretrigger mean exceeds it.
+        peak_value = posttrig_data.max(axis=1)
+        self.p_peak_value[idx_slice] = np.maximum(peak_value - np.floor(ptm), 0)
+        pulse_average = posttrig_data.mean(axis=1) - ptm
+        self.p_pulse_average[idx_slice] = pulse_average
         self.p_pulse_rms[idx_slice] = np.sqrt(
-            (posttrig_data**2.0).mean(axis=1)
-            - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
+            ((posttrig_data - ptm[:, np.newaxis])**2.0).mean(axis=1))
 
         shift1 = (self.data[idx_slice, self.nPresamples - 1] - ptm
                   > 4.3 * self.p_pretrig_rms[idx_slice])
-- 
2.43.0


From afa38cbeb89a5a655687e60e423c9813cdd66138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 049/174] fix: one record of all zeros made filter_data raise
 ZeroDivisionError

---
 mass/core/analysis_algorithms.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 39da0a0..ec01a06 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -829,6 +829,7 @@ def correct_flux_jumps(vals, g, flux_quant):
         return vals
 
 
+@cython.cdivision(True)  # let records without a peak (such as all zeros) be NaN, as in NumPy
 @cython.embedsignature(True)
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From a5f265b1dae517e71744423330813668a1baff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 050/174] fix: TESGroup.set_segment_size set n_segments to the
 number of pulses per segment

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..99c9e36 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1083,7 +1083,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.n_segments = 0
         for ds in self:
             ds.pulse_records.set_segment_size(seg_size)
-            self.n_segments = max(self.n_segments, ds.pulse_records.pulses_per_seg)
+            self.n_segments = max(self.n_segments, ds.pulse_records.n_segments)
         self.pulses_per_seg = self.first_good_dataset.pulse_records.pulses_per_seg
         for ds in self:
             assert ds.pulse_records.pulses_per_seg == self.pulses_per_seg
-- 
2.43.0


From 9b0bb1ff2997c92e9f7998276c01a0fa60917ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 051/174] fix: TESGroup mispaired unsorted noise files, changed
 the caller's lists, and failed with max_chans or noise_only limits

Pulse and noise files given as lists are now paired by channel number in any
order, on copies of the lists (which may be tuples). max_chans works without
noise files and for noise-only groups, which now also obey never_use and use_only.
---
 mass/core/channel_group.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 99c9e36..02d0c92 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -24,7 +24,8 @@ from mass.calibration.energy_calibration import EnergyCalibration
 from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, GroupLooper
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
-from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, \
+    ljh_channum, ljh_get_extern_trig_fnames
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -149,14 +150,26 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # If using a glob pattern especially, we have to be careful to eliminate files that are
         # missing a partner, either noise without pulse or pulse without noise.
-        remove_unpaired_channel_files(filenames, noise_filenames,
-                                      never_use=never_use, use_only=use_only)
+        # Work on copies, to leave the caller's lists of files alone.
+        filenames = [] if filenames is None else list(filenames)
+        if noise_filenames is not None:
+            noise_filenames = list(noise_filenames)
+        if noise_only:
+            remove_unpaired_channel_files(noise_filenames, None,
+                                          never_use=never_use, use_only=use_only)
+        else:
+            remove_unpaired_channel_files(filenames, noise_filenames,
+                                          never_use=never_use, use_only=use_only)
+            if noise_filenames is not None:
+                # Put the noise files in the order of the pulse files.
+                noise_by_channum = {ljh_channum(f): f for f in noise_filenames}
+                noise_filenames = [noise_by_channum[ljh_channum(f)] for f in filenames]
 
         # enforce max_chans
         if max_chans is not None:
-            n = min(max_chans, len(filenames))
-            filenames = filenames[:n]
-            noise_filenames = noise_filenames[:n]
+            filenames = filenames[:max_chans]
+            if noise_filenames is not None:
+                noise_filenames = noise_filenames[:max_chans]
 
         # Figure out where the 2 HDF5 files are to live, if the default argument
         # was given for their paths.
-- 
2.43.0


From f0806e2beaa392e916343522e72559c5191ab14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 052/174] fix: channels could not be marked bad for a reason
 with non-ASCII characters

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 02d0c92..9df2677 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -463,7 +463,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
             self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+                np.asarray([c.encode() for c in new_comment], dtype=np.bytes_)
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From eedd99f85593c5de779c82e80316f6747f572b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 053/174] fix: numbers of channels and good channels counted
 files that were not loaded

---
 mass/core/channel_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 9df2677..cb2c37f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -332,6 +332,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.channels = tuple(pulse_list)
         self.noise_channels = tuple(noise_list)
         self.datasets = tuple(dset_list)
+        self.n_channels = len(self.datasets)
 
         for index, (pr, ds) in enumerate(zip(self.channels, self.datasets)):
             ds.pulse_records = pr
@@ -474,7 +475,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self.set_chan_good(channum)
 
     def n_good_channels(self):
-        return self.n_channels - len(self._bad_channums.keys())
+        return self.num_good_channels
 
     @property
     def timestamp_offset(self):
-- 
2.43.0


From 5db78c3635cd5d5b9db5427f7b910c4ce9a79d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 054/174] fix: default HDF5 file names were wrong in a
 directory whose name contains _chan

---
 mass/core/channel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index cb2c37f..f9928a3 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -36,8 +36,8 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    fparts = re.split(r"_chan\d+", rawname)
-    prefix_path = fparts[0]
+    # Use only the last match, because directory names can contain "_chan", too.
+    prefix_path = re.split(r"_chan\d+(?!.*_chan\d)", rawname)[0]
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
-- 
2.43.0


From 6941e7b41d44629817e9c52d887f66840f9b7c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:52 +0000
Subject: [PATCH 055/174] fix: RestoreTESGroup failed for groups made without
 noise files

---
 mass/core/channel_group.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index f9928a3..9cc43aa 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -65,6 +65,8 @@ def RestoreTESGroup(hdf5filename, hdf5noisename=None):
             channum.append(group.attrs['channum'])
 
             if hdf5noisename is None:
+                if 'noise_filename' not in group.attrs:
+                    continue  # a group made without noise files
                 fname = group.attrs['noise_filename']
                 if generated_noise_hdf5_name is None:
                     generated_noise_hdf5_name = _generate_hdf5_filename(fname)
-- 
2.43.0


From dfb815d76eb8038c5f706aba82ad03a14eaeb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 056/174] fix: nested uses of ChannelGroup.includeBad excluded
 the bad channels too early

---
 mass/off/channels.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 7d86f8f..153454b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -2,6 +2,7 @@
 import os
 import logging
 import collections
+import contextlib
 
 # pkg imports
 import numpy as np
@@ -1113,8 +1114,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
        in this case it looks over all channels in the ChannelGroup, except those makred bad by ds.markBad("reason")
     2. If you want to iterate over all Channels, even those marked bad, do
 
-        with data.includeBad:
-            for (channum, ds) in data:
+        with data.includeBad():
+            for (channum, ds) in data.items():
                 print(channum) # will include bad channels
 
     3. data.whyChanBad returns an OrderedDict of bad channel numbers and reason
@@ -1284,6 +1285,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
     def __len__(self):
         return len([k for k in self])
 
+    @contextlib.contextmanager
     def includeBad(self, x=True):
         """
         Use this to do iteration including bad channels temporarily, eg:
@@ -1292,15 +1294,13 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
             for (channum, ds) in data.items():
                 print(ds)
         """
-        self._includeBadDesired = x
-        return self
-
-    def __enter__(self):
-        self._includeBad = self._includeBadDesired
-
-    def __exit__(self, *args):
-        self._includeBad = False
-        self._includeBadDesired = False
+        # Restore the previous choice afterwards, because uses of this can be nested.
+        previous = self._includeBad
+        self._includeBad = x
+        try:
+            yield self
+        finally:
+            self._includeBad = previous
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
         for (channum, ds) in self.items():
-- 
2.43.0


From 1e3f27e920120131a4712e4a3303e4fbcab7d318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 057/174] fix: group loops failed for OFF-style groups made
 from LJH data

---
 mass/off/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..7c3c065 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -241,7 +241,7 @@ def add_group_loop(method):
     is_running_tests = "pytest" in sys.modules
 
     def wrapper(self, *args, **kwargs):
-        bar = SilenceBar(method_name, max=len(self.offFileNames), silence=not self.verbose)
+        bar = SilenceBar(method_name, max=len(self), silence=not self.verbose)
         rethrow = kwargs.pop("_rethrow", is_running_tests)  # always rethrow during tests
         returnVals = collections.OrderedDict()
         for (channum, ds) in self.items():
-- 
2.43.0


From c439d1fa44f6f0534bae88e475bca48e9afd262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 058/174] fix: ChannelGroup.cutSetDefault always failed

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 153454b..e2cd517 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1409,7 +1409,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def cutSetDefault(self, cutRecipeName):
         assert cutRecipeName.startswith("cut")
-        assert cutRecipeName in self.recipes.keys()
+        for ds in self.values():
+            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         self._default_cut_recipe_name = cutRecipeName
         for ds in self.values():
             ds.cutSetDefault(cutRecipeName)
-- 
2.43.0


From 7155d3d70f7ec017988793333170fcf0a1687212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 059/174] fix: qualityCheckDropOneErrors needed both of its
 thresholds, or ignored the only one given

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index e2cd517..c470631 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -806,7 +806,7 @@ class Channel(CorG):  # noqa: PLR0904
         medianAbsoluteValue = np.median(np.abs(errors))
         k = 1.4826  # https://en.wikipedia.org/wiki/Median_absolute_deviation
         sigma = k * medianAbsoluteValue
-        if thresholdAbsolute is not None:
+        if thresholdSigmaFromMedianAbsoluteValue is not None:
             if maxAbsError > sigma * thresholdSigmaFromMedianAbsoluteValue:
                 self.markBad("qualityCheckDropOneErrors: maximum absolute drop one error {} > theshold {} ({})".format(
                     maxAbsError, sigma * thresholdSigmaFromMedianAbsoluteValue,
-- 
2.43.0


From 6e829e87c4f7a6c934dcfd06854f8f01aab79ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 060/174] fix: qualityCheckLinefit ignored cutRecipeName and
 guessParams (given to linefit in the wrong positions)

---
 mass/off/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index c470631..d2e2281 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -737,8 +737,9 @@ class Channel(CorG):  # noqa: PLR0904
         marks self bad if the fit position is more than toleranceFitSigma*fitSigma away
         from the correct position
         """
-        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges,
-                              guessParams, cutRecipeName, holdvals)
+        kwargs = {} if guessParams is None else {"params_update": guessParams}
+        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges, plot=False,
+                              params_fixed=holdvals, cutRecipeName=cutRecipeName, **kwargs)
         fitPos = result.params["peak_ph"].value
         fitSigma = result.params["peak_ph"].stderr
         resolution = result.params["fwhm"].value
-- 
2.43.0


From 34b55523afd775299b63a41ec14c4e7d4ff6ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:53 +0000
Subject: [PATCH 061/174] fix: asking for the records of an empty list of
 states failed

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index d2e2281..4904be8 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -396,7 +396,7 @@ class Channel(CorG):  # noqa: PLR0904
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum(s.stop - s.start for s in inds)
             output_dtype = self.offFile.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
@@ -429,7 +429,7 @@ class Channel(CorG):  # noqa: PLR0904
         # first
         # relies on short circuiting to not evaluate last clause unless indsOrStates is a list
         if indsOrStates is None or isinstance(indsOrStates, str) or \
-                (isinstance(indsOrStates, list) and isinstance(indsOrStates[0], str)):
+                (isinstance(indsOrStates, list) and all(isinstance(x, str) for x in indsOrStates)):
             # looks like states
             try:
                 inds = self.getStatesIndicies(indsOrStates)
@@ -1507,7 +1507,7 @@ class ChannelFromNpArray(Channel):
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum(s.stop - s.start for s in inds)
             output_dtype = self.a.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
-- 
2.43.0


From 55f64a6cb7772627c64700587e50d55d88a2b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:42 +0000
Subject: [PATCH 062/174] fix: energyTimestampLabelToHDF5 failed for repeated
 states with trigger times, and without states

---
 mass/off/channels.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 4904be8..4d12d82 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -775,27 +775,22 @@ class Channel(CorG):  # noqa: PLR0904
     def energyTimestampLabelToHDF5(self, h5File, cutRecipeName=None):
         usedCutRecipeName = self._handleDefaultCut(cutRecipeName)
         grp = h5File.require_group(str(self.channum))
+        triggerAttrs = [a for a in ("seconds_after_last_external_trigger",
+                                    "seconds_until_next_external_trigger",
+                                    "seconds_from_nearest_external_trigger") if hasattr(self, a)]
         if len(self.stateLabels) > 0:
-            for state in self.stateLabels:
-                energy, unixnano = self.getAttr(["energy", "unixnano"], state, usedCutRecipeName)
-                grp[f"{state}/energy"] = energy
-                grp[f"{state}/unixnano"] = unixnano
-                state_inds = tuple(self.getStatesIndicies(states=[state]))
-                cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
-                if hasattr(self, "seconds_after_last_external_trigger"):
-                    grp[f"{state}/seconds_after_last_external_trigger"] = \
-                        self.seconds_after_last_external_trigger[state_inds][cut_inds_in_state]
-                if hasattr(self, "seconds_until_next_external_trigger"):
-                    grp[f"{state}/seconds_until_next_external_trigger"] = \
-                        self.seconds_until_next_external_trigger[state_inds][cut_inds_in_state]
-                if hasattr(self, "seconds_from_nearest_external_trigger"):
-                    grp[f"{state}/seconds_from_nearest_external_trigger"] = \
-                        self.seconds_from_nearest_external_trigger[state_inds][cut_inds_in_state]
+            groups_inds = [(f"{state}/", self.getStatesIndicies(states=[state])) for state in self.stateLabels]
         else:
-            energy, unixnano = self.getAttr(
-                ["energy", "unixnano"], slice(None), usedCutRecipeName)
-            grp[f"{state}/energy"] = energy
-            grp[f"{state}/unixnano"] = unixnano
+            groups_inds = [("", self.getStatesIndicies())]
+        for prefix, inds in groups_inds:
+            energy, unixnano = self.getAttr(["energy", "unixnano"], inds, usedCutRecipeName)
+            grp[f"{prefix}energy"] = energy
+            grp[f"{prefix}unixnano"] = unixnano
+            cut = self.getAttr(usedCutRecipeName, inds, "cutNone")
+            for attr in triggerAttrs:
+                values = getattr(self, attr)
+                values = np.hstack([values[i] for i in inds]) if inds else values[:0]
+                grp[f"{prefix}{attr}"] = values[cut]
         grp["off_filename"] = self.offFile.filename
         grp["used_cut_recipe_name"] = usedCutRecipeName
 
-- 
2.43.0


From c77479399088ae98c7efc17a0479c9b742b5639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 063/174] fix: nearest_arrivals gave 0 until the next trigger
 when there is only one trigger

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index ec01a06..d8bbb7e 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -752,12 +752,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From 8c405e57d5e2230de23437d4752c1777e5dea456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 064/174] fix: nearest_arrivals returned one array instead of
 two when there are no pulses

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index d8bbb7e..7f0b9cd 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -701,7 +701,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
-- 
2.43.0


From 035f54045f31348143d94304e9597b8b0540794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 065/174] fix: python_nearest_arrivals always failed with
 integer times

---
 mass/core/analysis_algorithms.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7f0b9cd..da39348 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -644,7 +644,13 @@ class FilterTimeCorrection:
 @cython.embedsignature(True)
 def python_nearest_arrivals(reference_times, other_times):
     """Identical to nearest_arrivals(...)."""
-    nearest_after_index = np.searchsorted(other_times, reference_times)
+    reference_times = np.asarray(reference_times, dtype=np.int64)
+    other_times = np.asarray(other_times, dtype=np.int64)
+    max_value = np.iinfo(np.int64).max
+    if other_times.size == 0:
+        return np.full_like(reference_times, max_value), np.full_like(reference_times, max_value)
+
+    nearest_after_index = np.searchsorted(other_times, reference_times, side="right")
     # because both sets of arrival times should be sorted, there are faster algorithms than searchsorted
     # for example: https://github.com/kwgoodman/bottleneck/issues/47
     # we could use one if performance becomes an issue
@@ -655,11 +661,11 @@ def python_nearest_arrivals(reference_times, other_times):
     nearest_before_index[:first_index] = 1
     nearest_before_index -= 1
     before_times = reference_times-other_times[nearest_before_index]
-    before_times[:first_index] = np.Inf
+    before_times[:first_index] = max_value
 
     nearest_after_index[last_index:] = other_times.size-1
     after_times = other_times[nearest_after_index]-reference_times
-    after_times[last_index:] = np.Inf
+    after_times[last_index:] = max_value
 
     return before_times, after_times
 
-- 
2.43.0


From e9970ddbed0cdb0c889a2f8222ba01a1e4ba85c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 066/174] fix: TESGroup.calc_external_trigger_timing always
 failed

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 9cc43aa..cc49571 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -639,8 +639,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From f3b2d35b34ece0384a84f88873c2fcf63e1295fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 067/174] fix: OFF external trigger times ignored the number of
 subframe divisions

---
 mass/off/channels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 4d12d82..b497420 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -859,7 +859,7 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        return hdr.get("SubframeDivisions", hdr["NumberOfRows"])
 
     @property
     def subframePeriodSeconds(self):
@@ -874,17 +874,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From 6847e18ba5059da76f3a136c72f8ba493e6e5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:00 +0000
Subject: [PATCH 068/174] fix: energyTimestampLabelToHDF5 failed for inverted
 cuts

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index b497420..1b3b01a 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -786,7 +786,7 @@ class Channel(CorG):  # noqa: PLR0904
             energy, unixnano = self.getAttr(["energy", "unixnano"], inds, usedCutRecipeName)
             grp[f"{prefix}energy"] = energy
             grp[f"{prefix}unixnano"] = unixnano
-            cut = self.getAttr(usedCutRecipeName, inds, "cutNone")
+            cut = self.recipes.craft(usedCutRecipeName, self._indexOffWithCuts(inds, "cutNone"))
             for attr in triggerAttrs:
                 values = getattr(self, attr)
                 values = np.hstack([values[i] for i in inds]) if inds else values[:0]
-- 
2.43.0


From 2bca02f687c0d9680c5488caf2bc2026f2e931fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:20 +0000
Subject: [PATCH 069/174] fix: ChannelGroup rejected inverted cuts in
 histsToHDF5 and linefit

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 1b3b01a..0a7c3de 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1148,7 +1148,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         ds = self.firstGoodChannel()
         cutRecipeName = ds._handleDefaultCut(cutRecipeName)
         for ds in self.values():
-            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
+            assert cutRecipeName.lstrip("!") in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         return cutRecipeName
 
     @property
-- 
2.43.0


From 1468902b1b72aee19d8f3c3fdc7541600369a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 070/174] fix: Qscale was wrong or failed for data with ties or
 nearly equal distances

---
 mass/mathstat/robust.pyx | 102 +++++++++++++++------------------------
 1 file changed, 38 insertions(+), 64 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9ad908b..a8b7abc 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -373,9 +373,8 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     each row, where the weights are the number of candidates remaining in each row."""
 
     cdef Py_ssize_t i
-    cdef int chosen_row, chosen_col, ctr_index
+    cdef int chosen_row, ctr_index
 
-    cdef float trial_val
     cdef double[:] weights
     cdef double[:] row_median
 
@@ -395,98 +394,73 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     row_sort_idx = np.argsort(row_median)
 
     chosen_row = _high_median(row_sort_idx, weights, n-1)
-    trial_val = row_median[chosen_row]
-    chosen_col = (left[chosen_row]+right[chosen_row])//2
-
-    if chosen_col >= n:
-        chosen_col = n-1
-
-    return trial_val, chosen_row, chosen_col
+    return row_median[chosen_row]
 
 
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
 def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
-    cdef unsigned int trial_q_row = 0, trial_q_col = 0
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
-    cdef long long candidates_below_trial_dist
+    cdef long long n_less, n_less_or_equal
 
     # Keep track of which candidates on each ROW are still in the running.
     # These limits are of length (n-1) because the lowest row has no upper-triangle elements.
     # These mean that element A_ij = xj-xi is in the running if and only if  left(i) <= j <= right(i).
-    cdef long long[:] trial_column
     cdef long long[:] left
     cdef long long[:] right
-    cdef double[:] per_row_value
-    cdef long ia, ib, imiddle
+    # The highest column in each row that is less than (or not more than) the trial distance.
+    cdef long long[:] column_less
+    cdef long long[:] column_less_or_equal
+    cdef long long ia, ib, imiddle
 
-    trial_column = np.zeros(n-1, dtype=np.int64)
-    left = np.zeros(n-1, dtype=np.int64)
+    left = np.arange(1, n, dtype=np.int64)
     right = np.zeros(n-1, dtype=np.int64)
+    column_less = np.zeros(n-1, dtype=np.int64)
+    column_less_or_equal = np.zeros(n-1, dtype=np.int64)
 
     for i in range(n-1):
         right[i] = n-1
 
-    per_row_value = np.zeros(n-1, dtype=np.float64)
-
     # In this loop, we close in on the Q that we seek by doing a bisection search of each row,
     # with left and right representing the smallest and largest column #s still in the running.
     for counter in range(n+10):
-        trial_distance, trial_q_row, trial_q_col = _choose_trial_val(left, right, x, n)
-        for i in range(n-1):
-            per_row_value[i] = trial_distance + x[i]
+        trial_distance = _choose_trial_val(left, right, x, n)
 
-        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance
+        # In each row i, find the highest index j such that x[j]-x[i] < trial_distance, and the highest
+        # such that x[j]-x[i] <= trial_distance (they differ if there are ties, and in the trial's row).
         # If such an index is out of the candidate range, then let it be left-1 or right.
-        # We must be extremely careful in this loop, because rounding errors can make
-        # (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i])
-        # So instead we have the choose_trial_val tell us the (i,j) pair being considered
-        # and test for it.
-
-        # trial_column tracks the column in each row which is the highest column strictly less than
-        # the trial distance.
-        for i in range(per_row_value.shape[0]):
-            trial_val = per_row_value[i]
-
-            # Test for if this is the row containing the trial Q-value.  If so, column is known.
-            # Use this to avoid comparing exact equality of floats on the trial Q's (row,col).
-            if i == trial_q_row:
-                trial_column[i] = trial_q_col-1
-                continue
-
+        # Always compare the differences xj-xi, which are rounded just as the trial distance was.
+        n_less = 0
+        n_less_or_equal = 0
+        for i in range(n-1):
             ia = left[i]
-            ib = right[i]
-            if ia > ib or x[ia] >= trial_val:
-                trial_column[i] = ia-1
-                continue
-            if x[ib] <= trial_val:
-                trial_column[i] = ib
-                continue
-            while ib-ia > 1:
-                imiddle = (ib+ia) // 2
-                if x[imiddle] < trial_val:
-                    ia = imiddle
-                elif x[imiddle] > trial_val:
+            ib = right[i]+1
+            while ia < ib:
+                imiddle = (ia+ib) // 2
+                if x[imiddle]-x[i] < trial_distance:
+                    ia = imiddle+1
+                else:
                     ib = imiddle
+            column_less[i] = ia-1
+            ib = right[i]+1
+            while ia < ib:
+                imiddle = (ia+ib) // 2
+                if x[imiddle]-x[i] <= trial_distance:
+                    ia = imiddle+1
                 else:
-                    ia = imiddle - 1
                     ib = imiddle
-                    break
-            trial_column[i] = ia
-
-        candidates_below_trial_dist = np.sum(trial_column) - ((n-2)*(n-1))/2
+            column_less_or_equal[i] = ia-1
+            n_less += column_less[i] - i
+            n_less_or_equal += column_less_or_equal[i] - i
 
-        if candidates_below_trial_dist == target_k:
-            return trial_distance, counter
-        elif candidates_below_trial_dist > target_k:
+        if n_less > target_k:
             for i in range(n-1):
-                right[i] = trial_column[i]
-                if right[i] >= n:
-                    right[i] = n-1
-        else:
+                right[i] = column_less[i]
+        elif n_less_or_equal <= target_k:
             for i in range(n-1):
-                left[i] = trial_column[i] + 1
-            left[trial_q_row] += 1
+                left[i] = column_less_or_equal[i] + 1
+        else:
+            return trial_distance, counter
 
     return trial_distance, counter
-- 
2.43.0


From d3e1e89d3bab6cf5bf8219943b3da619082736b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 071/174] fix: Qscale failed for integer and single-precision
 data

---
 mass/mathstat/robust.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index a8b7abc..4ce2e2e 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -283,6 +283,7 @@ def Qscale(x, sort_inplace=False):
     elif not isinstance(x, np.ndarray):
         raise ValueError("sort_inplace cannot be True unless the data set x is a np.ndarray.")
     x.sort()
+    x = np.asarray(x, dtype=float)  # integer differences can overflow
     n = len(x)
     if n < 2:
         raise ValueError("Data set <x> must contain at least 2 values!")
-- 
2.43.0


From c915a28c9ec7f50e08450d0de64032a84d2e4a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 072/174] fix: shorth_range overflowed for 16-bit and other
 small integers

---
 mass/mathstat/robust.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 4ce2e2e..7b49fca 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -187,6 +187,8 @@ def shorth_range(x, normalize=False, sort_inplace=False, location=False):
     elif not isinstance(x, np.ndarray):
         raise ValueError("sort_inplace cannot be True unless the data set x is a np.ndarray.")
     x.sort()
+    if x.dtype.kind in "iu" and x.dtype.itemsize < 8:
+        x = x.astype(np.int64)  # the range, or the sum of its ends, can overflow smaller types
 
     range_each_half = x[n-nhalves:n]-x[0:nhalves]
     idxa = range_each_half.argmin()
-- 
2.43.0


From 8fad180075c60b0f488714d531397082328170e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 073/174] fix: bisquare and Huber means never converged when
 the median absolute deviation is zero

---
 mass/mathstat/robust.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 7b49fca..7fbe0d8 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -68,7 +68,7 @@ def bisquare_weighted_mean(x, k, center=None, tol=None):
         weights = (1-((x-center) / k)**2.0)**2.0
         weights[np.abs(x-center) > k] = 0.0
         newcenter = (weights*x).sum()/weights.sum()
-        if abs(newcenter - center) < tol:
+        if abs(newcenter - center) <= tol:
             return newcenter
         center = newcenter
     raise RuntimeError("bisquare_weighted_mean used too many iterations.\n" +
@@ -107,7 +107,7 @@ def huber_weighted_mean(x, k, center=None, tol=None):
         weights = np.asarray((1.0*k)/np.abs(x-center))
         weights[weights > 1.0] = 1.0
         newcenter = (weights*x).sum()/weights.sum()
-        if abs(newcenter - center) < tol:
+        if abs(newcenter - center) <= tol:
             return newcenter
         center = newcenter
     raise RuntimeError("huber_weighted_mean used too many iterations.\n" +
-- 
2.43.0


From e0c2e660d443c488a5dd6c70bdcb51e8d61e1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 074/174] fix: trimean overflowed for 16-bit and other small
 integers

---
 mass/mathstat/robust.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 7fbe0d8..5700e21 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -122,6 +122,7 @@ def trimean(x):
     If (q1,q2,q3) are the quartiles (i.e., the 25%ile, median, and 75 %ile),
     the trimean is (q1+q3)/4 + q2/2.
     """
+    x = np.asarray(x, dtype=float)  # percentiles of integers can overflow
     q1, q2, q3 = [np.percentile(x, per) for per in (25, 50, 75)]
     trimean = 0.25*(q1+q3) + 0.5*q2
     return trimean
-- 
2.43.0


From f574af914ad07f085e295b7c7d46175bba85e26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:06 +0000
Subject: [PATCH 075/174] fix: weighted high_median could return too low a
 value

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 5700e21..8618246 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -359,7 +359,7 @@ def _high_median(long long[:] sort_idx, double[:] weights, int n):
             trial_right_weight += weights[sort_idx[i]]
 
         if left_weight + trial_left_weight > half_weight:  # j < itrial
-            right_weight += trial_right_weight
+            right_weight += trial_right_weight + weights[sort_idx[itrial]]
             imax = itrial
         elif right_weight + trial_right_weight >= half_weight:  # j > itrial
             left_weight += trial_left_weight
-- 
2.43.0


From e66d4a510e3ea37ae31e28317dedf9444e1a0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 076/174] fix: merging an empty first list claimed that the
 values came from it

---
 mass/mathstat/entropy.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index 7420d37..fbf46fb 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -155,7 +155,7 @@ cpdef _merge_orderedlists(x1_in, x2_in):
             raise ValueError("_merge_orderedlists(x,y) requires at least one list of positive length.")
         return x1, np.ones(N1, dtype=bool)
     elif N1 == 0:
-        return x2, np.ones(N2, dtype=bool)
+        return x2, np.zeros(N2, dtype=bool)
 
     out = np.zeros(N1+N2, dtype=DTYPE)
     wasfirst = np.zeros(N1+N2, dtype=bool)
-- 
2.43.0


From 5d09a35e2a6626ed13eda467e37027cafc234a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 077/174] fix: ToeplitzSolver.mult truncated its result for
 integer vectors

---
 mass/mathstat/toeplitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 7320e52..cef989b 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -92,7 +92,7 @@ class ToeplitzSolver:
         x = np.asarray(x)
         N = len(x)
         assert N == self.n
-        y = np.zeros_like(x)
+        y = np.zeros(x.shape, dtype=np.result_type(x, float))
         y[0] = np.dot(self.T, x)
         for i in range(1, N):
             y[i] = np.dot(self.T[:-i], x[i:])
-- 
2.43.0


From cf1d5541402a66d9ea3b305f67221aef17ddf67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 078/174] fix: ToeplitzSolver failed on 1x1 systems

---
 mass/mathstat/toeplitz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index cef989b..885cc33 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -118,6 +118,8 @@ class ToeplitzSolver:
 
         T0 = self.T[n - 1]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = self.T[n - 2] / T0
         h[0] = self.T[n] / T0
 
@@ -151,6 +153,8 @@ class ToeplitzSolver:
         # The constant leading value g[K] for each iteration K
         self.gK_leading = np.zeros(n, dtype=float)
 
+        if n == 1:
+            return
         T0 = self.T[0]
         g[0] = self.T[1] / T0
 
@@ -181,6 +185,8 @@ class ToeplitzSolver:
         T = self.T
         T0 = T[0]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = T[1] / T0
 
         for K in range(1, n):  # K = M+1
-- 
2.43.0


From 629b779d91d9543d4a5c7fa61eb1f26b579b3f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:52 +0000
Subject: [PATCH 079/174] fix: asymmetric ToeplitzSolver rejected matrix
 right-hand sides

---
 mass/mathstat/toeplitz.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 885cc33..1d9a400 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -109,6 +109,11 @@ class ToeplitzSolver:
         """Return the solution x when Tx=y for an asymmetric Toeplitz matrix T."""
         n = self.n
         y = np.asarray(y)
+        if y.ndim == 2:
+            result = np.vstack([self.__solve_asymmetric(ycol) for ycol in y.T])
+            return result.T
+        if y.ndim > 2:
+            raise ValueError("argument y must be of dimension 1 or 2")
         assert len(y) == n
 
         x = np.zeros(n, dtype=float)
-- 
2.43.0


From bb87e4a247d2a309bd70fc7e7fcd8dc7b22d3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 080/174] fix: ToeplitzWhitener failed on or truncated integer
 data

---
 mass/core/optimal_filtering.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index fe4d327..b87505e 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -59,14 +59,20 @@ class ToeplitzWhitener:
     def q(self):
         return len(self.theta) - 1
 
+    @staticmethod
+    def _as_floating(v: npt.ArrayLike) -> np.ndarray:
+        "Return v as an array of at least double-precision floating-point type"
+        v = np.asarray(v)
+        return v.astype(np.result_type(v, float), copy=False)
+
     def whiten(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
         return self(v)
 
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = self._as_floating(v)
+        if v.ndim > 2:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
             w = np.zeros_like(v)
@@ -97,8 +103,8 @@ class ToeplitzWhitener:
 
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = self._as_floating(v)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -129,8 +135,8 @@ class ToeplitzWhitener:
 
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = self._as_floating(v)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -149,8 +155,8 @@ class ToeplitzWhitener:
 
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = self._as_floating(v)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
-- 
2.43.0


From 5b820c14fe6689247486590705d0ceb6b0abe21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:17 +0000
Subject: [PATCH 081/174] fix: ToeplitzWhitener scaled the first sample twice
 when p or q is zero

---
 mass/core/optimal_filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index b87505e..df8f001 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -95,7 +95,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
-        for i in range(self.q, N):
+        for i in range(max(1, self.q), N):
             for j in range(i - self.q, i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
@@ -127,7 +127,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-        for i in range(self.p, N):
+        for i in range(max(1, self.p), N):
             for j in range(i - self.p, i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-- 
2.43.0


From a0bc1c98c90644716de9b3fef6ce580daebcc102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 082/174] fix: FilterMaker failed on integer signal models and
 on lists

---
 mass/core/optimal_filtering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index df8f001..9c3c6e2 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -637,7 +637,7 @@ class FilterMaker:
         ValueError
             If negative numbers of samples are to be cut, or the entire record is to be cut.
         """
-        avg_signal = np.array(self.signal_model)
+        avg_signal = np.array(self.signal_model, dtype=float)
         ns = len(avg_signal)
         pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
 
@@ -669,7 +669,7 @@ class FilterMaker:
         if self.dt_model is None:
             dt_model = np.array([], dtype=float)
         else:
-            dt_model = self.dt_model * rescale
+            dt_model = np.asarray(self.dt_model) * rescale
             dt_model = dt_model[cut_pre:ns - cut_post]
         return avg_signal, peak_signal, dt_model
 
-- 
2.43.0


From 64887bb566f745ff72598d7da7462a8f3effec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 083/174] fix: filters were all NaN when cut_pre covers the
 whole pretrigger period

---
 mass/core/optimal_filtering.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 9c3c6e2..9dab3bc 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -639,13 +639,16 @@ class FilterMaker:
         """
         avg_signal = np.array(self.signal_model, dtype=float)
         ns = len(avg_signal)
-        pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
-
         if cut_pre < 0 or cut_post < 0:
             raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
         if cut_pre + cut_post >= ns:
             raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
 
+        pretrigger = avg_signal[cut_pre:self.n_pretrigger - 1]
+        if len(pretrigger) == 0:
+            pretrigger = avg_signal[:max(1, self.n_pretrigger)]
+        pre_avg = pretrigger.mean()
+
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
         if self.peak > 0.0:
-- 
2.43.0


From 22e06eadd019df53e32a5e794292a9731ac7d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 084/174] fix: filters for negative-going pulses were scaled by
 the pretrigger noise

---
 mass/core/optimal_filtering.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 9dab3bc..cdcc73c 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -651,21 +651,21 @@ class FilterMaker:
 
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
+        a = avg_signal[cut_pre:ns - cut_post].min()
+        b = avg_signal[cut_pre:ns - cut_post].max()
+        is_negative = pre_avg - a > b - pre_avg
         if self.peak > 0.0:
             peak_signal = self.peak
         else:
-            a = avg_signal[cut_pre:ns - cut_post].min()
-            b = avg_signal[cut_pre:ns - cut_post].max()
-            is_negative = pre_avg - a > b - pre_avg
             if is_negative:
-                peak_signal = a - pre_avg
+                peak_signal = pre_avg - a
             else:
                 peak_signal = b - pre_avg
 
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(avg_signal)
+        rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
-- 
2.43.0


From 61df68048ae35e9f7f3e45d4865533560b47d9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:44 +0000
Subject: [PATCH 085/174] fix: compute_ats did not notice a missing sample time
 when band-limiting

---
 mass/core/optimal_filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index cdcc73c..7e5a1cc 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -544,7 +544,7 @@ class FilterMaker:
             raise ValueError("Filter must have noise_autocorr or whitener arguments to generate ATS filters")
         if self.dt_model is None:
             raise ValueError("Filter must have dt_model to generate ATS filters")
-        if self.sample_time_sec is None and not (fmax is None and f_3db is None):
+        if self.sample_time_sec <= 0 and not (fmax is None and f_3db is None):
             raise ValueError(
                 "Filter must have a sample_time_sec if it's to be smoothed with fmax or f_3db")
 
-- 
2.43.0


From 1a8bf74736e07e85b68e286440b7e5fb92bb09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 086/174] fix: filters could not be made from a noise whitener
 alone

---
 mass/core/optimal_filtering.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 7e5a1cc..1b259b1 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -408,18 +408,20 @@ class FilterMaker:
         shorten = 2
         truncated_signal = avg_signal[shorten:-shorten]
         n = len(truncated_signal)
-        assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
-
-        noise_corr = noise_autocorr[:n]
-        TS = ToeplitzSolver(noise_corr, symmetric=True)
-        Rinv_sig = TS(truncated_signal)
-        Rinv_1 = TS(np.ones(n))
+        if self.whitener is not None:
+            Rinv_sig = self.whitener.applyWT(self.whitener(truncated_signal))
+            Rinv_1 = self.whitener.applyWT(self.whitener(np.ones(n)))
+        else:
+            assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
+            TS = ToeplitzSolver(noise_autocorr[:n], symmetric=True)
+            Rinv_sig = TS(truncated_signal)
+            Rinv_1 = TS(np.ones(n))
         filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1
 
         band_limit(filt_noconst, self.sample_time_sec, fmax, f_3db)
 
         self._normalize_5lag_filter(filt_noconst, avg_signal)
-        variance = bracketR(filt_noconst, noise_corr)
+        variance = self._noise_variance(filt_noconst)
 
         # Set weights in the cut_pre and cut_post windows to 0
         if cut_pre > 0 or cut_post > 0:
@@ -578,6 +580,7 @@ class FilterMaker:
             filt = np.dot(Ainv, RinvM.T)
 
         band_limit(filt.T, self.sample_time_sec, fmax, f_3db)
+        variance = self._noise_variance(filt[0])
 
         if cut_pre > 0 or cut_post > 0:
             nfilt = filt.shape[0]
@@ -589,7 +592,6 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        variance = bracketR(filt_noconst, self.noise_autocorr)
         vdv = peak / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
@@ -615,6 +617,13 @@ class FilterMaker:
         N = len(np.asarray(self.signal_model))
         return np.asarray(self.noise_autocorr)[:N - (cut_pre + cut_post)]
 
+    def _noise_variance(self, filt: np.ndarray) -> float:
+        """The variance of the output of filter `filt` due to noise, from the noise autocorrelation if known,
+        or otherwise from the noise whitener."""
+        if self.noise_autocorr is None:
+            return np.sum(self.whitener.solveWT(filt)**2)
+        return bracketR(filt, self.noise_autocorr)
+
     def _normalize_signal(self, cut_pre: int = 0, cut_post: int = 0) -> tuple[np.ndarray, float, np.ndarray]:
         """Compute the normalized signal, peak value, and first-order arrival-time model.
 
-- 
2.43.0


From 850bb1a10528ab0aaa36cf68af6ea52da7116d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 087/174] fix: compute_fourier always failed its own length
 assertion

---
 mass/core/optimal_filtering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 1b259b1..28f9fc3 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -472,10 +472,10 @@ class FilterMaker:
         noise_psd = np.asarray(self.noise_psd)
 
         shorten = 2  # to use in 5-lag style
-        avg_signal = avg_signal[shorten:-shorten]
+        truncated_signal = avg_signal[shorten:-shorten]
         n = len(noise_psd)
         window = 1.0
-        sig_ft = np.fft.rfft(avg_signal * window)
+        sig_ft = np.fft.rfft(truncated_signal * window)
 
         if len(sig_ft) != n - shorten:
             raise ValueError(f"signal real DFT and noise PSD are not the same length ({len(sig_ft)} and {n})")
@@ -499,7 +499,7 @@ class FilterMaker:
                 sig_ft_weighted /= (1 + (freq * 1.0 / f_3db)**2)
 
         sig_ft_weighted[0] = 0.0
-        filt_fourier = np.fft.irfft(sig_ft_weighted) / window
+        filt_fourier = np.fft.irfft(sig_ft_weighted, n=len(truncated_signal)) / window
         self._normalize_5lag_filter(filt_fourier, avg_signal)
 
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
-- 
2.43.0


From f7ccee8015278732ecacbb81964c8e4a062f8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 088/174] fix: compute_fourier shortened the noise spectrum
 unsymmetrically

---
 mass/core/optimal_filtering.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 28f9fc3..ea34f6a 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -483,16 +483,18 @@ class FilterMaker:
         # Careful with PSD: "shorten" it by converting into a real space autocorrelation,
         # truncating the middle, and going back to Fourier space
         if shorten > 0:
-            noise_autocorr = np.fft.irfft(noise_psd)
-            noise_autocorr = np.hstack((noise_autocorr[:n - shorten - 1],
-                                        noise_autocorr[-n + shorten:]))
-            noise_psd = np.fft.rfft(noise_autocorr)
+            noise_autocorr = np.fft.irfft(noise_psd, n=len(avg_signal))
+            lags = np.arange(len(truncated_signal))
+            noise_autocorr = noise_autocorr[np.minimum(lags, len(lags) - lags)]
+            noise_psd = np.fft.rfft(noise_autocorr).real
         sig_ft_weighted = sig_ft / noise_psd
 
         # Band-limit
         if fmax is not None or f_3db is not None:
-            freq = np.arange(0, n - shorten, dtype=float) * \
-                0.5 / ((n - 1) * self.sample_time_sec)
+            if self.sample_time_sec <= 0:
+                raise ValueError(
+                    "Filter must have a sample_time_sec if it's to be smoothed with fmax or f_3db")
+            freq = np.fft.rfftfreq(len(truncated_signal), d=self.sample_time_sec)
             if fmax is not None:
                 sig_ft_weighted[freq > fmax] = 0.0
             if f_3db is not None:
-- 
2.43.0


From 4b8fda689055d6898571d2c3f68702aa64ec41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:33 +0000
Subject: [PATCH 089/174] fix: compute_fourier's variance was not that of the
 filter's output

---
 mass/core/optimal_filtering.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index ea34f6a..6bbf950 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -506,12 +506,11 @@ class FilterMaker:
 
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
         if self.noise_autocorr is None:
-            noise_ft_squared = (len(noise_psd) - 1) / self.sample_time_sec * noise_psd
-            kappa = (np.abs(sig_ft * self.peak)**2 / noise_ft_squared)[1:].sum()
-            variance_fourier = 1. / kappa
+            # The PSD gives the variance of each Fourier component (periodic noise)
+            ac = np.fft.irfft(noise_psd, n=len(filt_fourier)) / (2 * self.sample_time_sec)
         else:
             ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
-            variance_fourier = bracketR(filt_fourier, ac) / self.peak**2
+        variance_fourier = bracketR(filt_fourier, ac)
         vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
-- 
2.43.0


From 8f167b5529c194925dc9020a911cc98186fcea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 090/174] fix: ljh_sort_filenames_numerically failed with an
 inclusion_list, and reordered the caller's list

---
 mass/core/ljh_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..9b245a5 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -175,13 +175,12 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
     # Because string sort and the builtin `sorted` are both stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    return sorted(sorted(fnames), key=ljh_channum)
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 9510cda2a0bcaef977287c419bb728ef3129c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 091/174] fix: ljh_get_channels failed in the current directory
 and repeated channels with several files

---
 mass/core/ljh_util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 9b245a5..c413d30 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -19,14 +19,14 @@ __all__ = ["ljh_basename_channum", "ljh_chan_names", "ljh_get_channels",
 
 def ljh_get_channels(fname):
     basename, chan = ljh_basename_channum(fname)
-    filedir, ljhname = path.split(basename)
-    chans = []
-    for f in os.listdir(filedir):
+    filedir, _ = path.split(basename)
+    chans = set()
+    for f in os.listdir(filedir or path.curdir):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
-        bname, chan = ljh_basename_channum(f)
-        if bname == ljhname and isinstance(chan, int):
-            chans.append(chan)
+        bname, chan = ljh_basename_channum(os.path.join(filedir, f))
+        if bname == basename and isinstance(chan, int):
+            chans.add(chan)
     return sorted(chans)
 
 
-- 
2.43.0


From 065d0250526ca07e560197c898011fa328a8a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 092/174] fix: channel numbers were taken from directory names

---
 mass/core/ljh_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index c413d30..55ced2e 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -50,7 +50,8 @@ def ljh_basename_channum(fname):
             fname = fname[:-1]
         base_dir, ljh_dir = path.split(fname)
         fname = path.join(base_dir, ljh_dir, ljh_dir)
-    chanmatches = re.finditer(r"_chan\d+", fname)
+    filedir, filename = path.split(fname)
+    chanmatches = re.finditer(r"_chan\d+", filename)
     last_chan_match = None
     for last_chan_match in chanmatches:
         pass
@@ -58,7 +59,7 @@ def ljh_basename_channum(fname):
         basename, _ = path.splitext(fname)
         chan = None
     else:
-        basename = fname[:last_chan_match.start()]
+        basename = path.join(filedir, filename[:last_chan_match.start()])
         chan = int(last_chan_match.group()[5:])
     return basename, chan
 
-- 
2.43.0


From bbc4cbdcd0143f54c94a88f3830fb9a74db49e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 093/174] fix: remove_unpaired_channel_files left files of
 unpaired channels

---
 mass/core/ljh_util.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 55ced2e..32c8301 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -122,27 +122,14 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
     :param use_only: if a sequence of channel numbers, exclude any channels not in it, defaults to None
     :type use_only: list of int, optional
     """
-    # If first list is empty, then nothing to do
-    if filenames1 is None or len(filenames1) == 0:
-        return
-    assert isinstance(filenames1, list)
-
-    # Now make a mapping of channel numbers to names.
-    names1 = {ljh_channum(f): f for f in filenames1}
-    cnum1 = set(names1.keys())
-
-    # If second list is empty, then matching is not required or expected.
+    # If either list is empty, then matching is not required or expected.
     # But _do_ continue, so we can apply `never_use` and `use_only` (issue 255).
-    if filenames2 is None or len(filenames2) == 0:
-        filenames2 = []
-        names2 = {}
-        cnum2 = set()
-        valid_cnum = set(cnum1)  # Careful! Must be a copy, not identity
-    else:
-        assert isinstance(filenames2, list)
-        names2 = {ljh_channum(f): f for f in filenames2}
-        cnum2 = set(names2.keys())
-        valid_cnum = cnum1.intersection(cnum2)
+    file_lists = [names for names in (filenames1, filenames2) if names is not None and len(names) > 0]
+    if len(file_lists) == 0:
+        return
+    for names in file_lists:
+        assert isinstance(names, list)
+    valid_cnum = set.intersection(*[{ljh_channum(f) for f in names} for names in file_lists])
 
     # Find the set of valid channel numbers.
     if never_use is not None:
@@ -150,11 +137,9 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
     if use_only is not None:
         valid_cnum = valid_cnum.intersection(set(use_only))
 
-    # Remove invalid channel numbers
-    for c in (cnum1 - valid_cnum):
-        filenames1.remove(names1[c])
-    for c in (cnum2 - valid_cnum):
-        filenames2.remove(names2[c])
+    # Remove all files with invalid channel numbers
+    for names in file_lists:
+        names[:] = [f for f in names if ljh_channum(f) in valid_cnum]
 
 
 def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
-- 
2.43.0


From 91779d6ba2fa2332f7084ae7b0b80276c448d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 094/174] fix: output folders could not be found for files in
 the current directory

---
 mass/core/ljh_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 32c8301..60299c5 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -85,8 +85,8 @@ def ljh_get_extern_trig_fnames(fname):
 def output_basename_from_ljh_fname(ljh):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, fname = path.split(basename)
-    if not path.isdir(ljhdir):
-        raise (f"ValueError {ljhdir} is not valid directory")
+    if not path.isdir(ljhdir or path.curdir):
+        raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass_output")
     if not path.isdir(outputdir):
         os.mkdir(outputdir)
@@ -97,7 +97,7 @@ def output_basename_from_ljh_fname(ljh):
 def mass_folder_from_ljh_fname(ljh, filename=""):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, _ = path.split(basename)
-    if not path.isdir(ljhdir):
+    if not path.isdir(ljhdir or path.curdir):
         raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass")
     if not path.isdir(outputdir):
-- 
2.43.0


From 869a25899d0d2e87cf7c477d57858a8be038c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:05 +0000
Subject: [PATCH 095/174] fix: getOffFileListFromOneFile listed files of other
 base names, and none in directories like run[1]

---
 mass/off/channels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 0a7c3de..010e8c2 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1,4 +1,5 @@
 # std lib imports
+import glob
 import os
 import logging
 import collections
@@ -1094,7 +1095,10 @@ class CalibrationPlan:
 
 def getOffFileListFromOneFile(filename, maxChans=None):
     basename, _ = mass.ljh_util.ljh_basename_channum(filename)
-    z = mass.ljh_util.filename_glob_expand(basename + "_chan*.off")
+    candidates = glob.glob(glob.escape(basename) + "_chan*.off")
+    # The pattern can also match the files of another, longer basename
+    z = mass.ljh_util.ljh_sort_filenames_numerically(
+        [f for f in candidates if mass.ljh_util.ljh_basename_channum(f)[0] == basename])
     if z is None:
         raise Exception("found no files while globbing {}".format(basename + "_chan*.off"))
     if maxChans is not None:
-- 
2.43.0


From ea913beb3a679aeb0e85a6a6058350760843b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 096/174] fix: PowerSpectrum.copy shared its sums with the
 original

---
 mass/mathstat/power_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b055573..5029b43 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -86,8 +86,9 @@ class PowerSpectrum:
 
         Handy when coding and you don't want to recompute everything, but
         you do want to update the method definitions."""
-        c = PowerSpectrum(self.m, dt=self.dt)
-        c.__dict__.update(self.__dict__)
+        c = type(self)(self.m, dt=self.dt)
+        for name, value in self.__dict__.items():
+            c.__dict__[name] = value.copy() if isinstance(value, np.ndarray) else value
         return c
 
     def addDataSegment(self, data, window=None):
-- 
2.43.0


From 14a826e5baeb42a0bc04d63314cdbf1114826a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 097/174] fix: rebinned power spectra had NaN in the last bin

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 5029b43..b6d71e0 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -137,7 +137,7 @@ class PowerSpectrum:
         if nbins > self.m:
             raise ValueError(f"Cannot rebin into more than m={self.m} bins")
 
-        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / (self.m + 1) * nbins, dtype=int)
+        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / self.m * nbins, dtype=int)
         result = np.zeros(nbins + 1, dtype=float)
         for i in range(nbins + 1):
             result[i] = self.specsum[newbin == i].mean()
-- 
2.43.0


From a3bba3a86d357039862b6983bd50ed6b9bf1fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 098/174] fix: PowerSpectrumOverlap truncated later segments to
 the type of the first

---
 mass/mathstat/power_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b6d71e0..6e5d749 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -190,8 +190,8 @@ class PowerSpectrumOverlap(PowerSpectrum):
         if self.first:
             self.first = False
             self.fullseg = np.concatenate((
-                np.zeros_like(data),
-                np.array(data)))
+                np.zeros(self.m, dtype=float),
+                np.array(data, dtype=float)))
         else:
             self.fullseg[0:self.m] = self.fullseg[self.m:]
             self.fullseg[self.m:] = data
-- 
2.43.0


From fa1c829f6cb316cf0c39119809a4b095033cf827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 099/174] fix: computeSpectrum ignored window arrays and the
 last half segment

---
 mass/mathstat/power_spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 6e5d749..10adf8d 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -283,10 +283,8 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
 
     N = len(data)
     M = N // (2 * segfactor)
-    try:
+    if callable(window):
         window = window(2 * M)  # precompute
-    except TypeError:
-        window = None
 
     if segfactor == 1:
         spec = PowerSpectrum(M, dt=dt)
@@ -294,7 +292,7 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
         spec.addDataSegment(data[:2 * (len(data) // 2)], window=window)
     else:
         spec = PowerSpectrumOverlap(M, dt=dt)
-        for i in range(2 * segfactor - 1):
+        for i in range(2 * segfactor):
             spec.addDataSegment(data[i * M:(i + 1) * M], window=window)
 
     if dt is None:
-- 
2.43.0


From 28fece1ae7c300ae9f1ed75e09f9b33062bd0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 100/174] fix: autocorrelation_broken_from_pulses changed its
 input

---
 mass/mathstat/power_spectrum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 10adf8d..d14a80f 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -253,8 +253,7 @@ def autocorrelation_broken_from_pulses(noise_pulses):
     ac = np.zeros(nsamples, dtype=float)
 
     for i in range(npulses):
-        pulse = noise_pulses[:, i]
-        pulse -= pulse.mean()
+        pulse = noise_pulses[:, i] - noise_pulses[:, i].mean()
         ac += np.correlate(pulse, pulse, 'full')[nsamples - 1:]
 
     ac /= npulses
-- 
2.43.0


From e255447e4d8069f2d9a573f4205ed4b33dc9c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 101/174] fix: noise autocorrelations failed unless exactly one
 record long

---
 mass/core/channel.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 117f576..1952e6a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -80,10 +80,14 @@ class NoiseRecords:
         self.datafile = None
         self.data = None
         self.saved_auto_cuts = None
+        self.hdf5_group = None
+        self.autocorrelation = None
 
         self.__open_file(filename, use_records=use_records)
         self.continuous = records_are_continuous
         self.noise_psd = None
+        for attr in ("nSamples", "nPresamples", "nPulses", "timebase"):
+            setattr(self, attr, getattr(self.datafile, attr))
 
     def set_hdf5_group(self, hdf5_group):
         if hdf5_group is None:
@@ -319,7 +323,7 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        data = self.datafile.alldata.ravel()[first:last]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
@@ -341,7 +345,7 @@ class NoiseRecords:
 
         ac /= entries
         ac /= (np.arange(chunksize, chunksize - n_lags + 0.5, -1.0, dtype=float))
-        self.autocorrelation[:] = ac
+        return ac
 
     def compute_autocorrelation(self, n_lags=None, data_samples=None, plot=True, max_excursion=1000):
         """Compute the autocorrelation averaged across all "pulses" in the file.
@@ -352,17 +356,25 @@ class NoiseRecords:
         """
 
         if self.continuous:
-            self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                     max_excursion=max_excursion)
+            ac = self._compute_continuous_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                          max_excursion=max_excursion)
 
         else:
-            self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
-                                                 max_excursion=max_excursion)
+            ac = self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
+                                                      max_excursion=max_excursion)
 
-        if self.hdf5_group is not None:
+        if self.hdf5_group is None:
+            self.autocorrelation = ac
+        else:
+            n_lags = len(ac)
             grp = self.hdf5_group.require_group(f"reclen{n_lags}")
             ds = grp.require_dataset("autocorrelation", shape=(n_lags,), dtype=np.float64)
-            ds[:] = self.autocorrelation[:]
+            ds[:] = ac
+            if n_lags == self.nSamples:
+                self.autocorrelation = self.hdf5_group["autocorrelation"]
+                self.autocorrelation[:] = ac
+            else:
+                self.autocorrelation = ds
 
         if plot:
             self.plot_autocorrelation()
@@ -400,7 +412,7 @@ class NoiseRecords:
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
             ac = ac[:n_lags]
-        self.autocorrelation[:] = ac
+        return ac
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
-- 
2.43.0


From 4b65983ae9a12855d7f65f7f35006140529b2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 102/174] fix: noise spectra of resegmented continuous data, of
 odd lengths and with window arrays

---
 mass/core/channel.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 1952e6a..579d486 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -188,27 +188,31 @@ class NoiseRecords:
 
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
-            window = np.ones(seg_length)
+            window = np.ones(spectrum.m2)
+        elif callable(window):
+            window = window(spectrum.m2)
         else:
-            window = window(seg_length)
+            window = np.asarray(window)[:spectrum.m2]
 
         data = self.datafile.alldata
-        if self.continuous and seg_length is not None:
+        if self.continuous:
             n = np.prod(data.shape)
             n -= n % seg_length
-            data = data[:n].reshape((n // seg_length, seg_length))
+            data = data.ravel()[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
+            # Ensure that the data segment has even length
+            d = d[:spectrum.m2]
             y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
+            if y.max() - y.min() < max_excursion:
                 spectrum.addDataSegment(y, window=window)
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
-        if self.hdf5_group is not None:
+        if self.hdf5_group is not None and len(psd) == len(self.noise_psd):
             self.noise_psd[:] = psd
             self.noise_psd.attrs["delta_f"] = freq[1] - freq[0]
-        else:
+        elif self.hdf5_group is None:
             self.noise_psd = psd
         return spectrum
 
@@ -219,7 +223,7 @@ class NoiseRecords:
         """
         assert self.continuous
 
-        n = np.prod(self.datafile.data.shape)
+        n = np.prod(self.datafile.alldata.shape)
         if seglength_choices is None:
             longest_seg = 1
             while longest_seg <= n // 16:
-- 
2.43.0


From dc11483f14e182ec30d230179f6a21937ccda89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 103/174] fix: compute_noise_nlags and compute_noise_spectra
 always failed

---
 mass/core/channel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 579d486..1527975 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1623,7 +1623,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 (default None).
             forceNew (bool): whether to recompute if it already exists (default False).
         """
-        self.noise_records_nlags = NoiseRecords(self.noise_records.filename)
+        self.noise_records_nlags = NoiseRecords(self.noise_records.filename, records_are_continuous=True)
         self.noise_records_nlags.compute_power_spectrum_reshape(
             max_excursion=max_excursion, seg_length=n_lags)
         self.noise_records_nlags.compute_autocorrelation(
@@ -1663,7 +1663,9 @@ class MicrocalDataSet:  # noqa: PLR0904
     @deprecated(deprecated_in="0.7.9", details="Use compute_noise(), which is equivalent but better named")
     def compute_noise_spectra(self, max_excursion=1000, n_lags=None, forceNew=False):
         """Replaced by the equivalent compute_noise(...)"""
-        return self.compute_noise(max_excursion=max_excursion, n_lags=n_lags, forceNew=forceNew)
+        if n_lags is not None and n_lags != self.noise_records.nSamples:
+            raise ValueError("Use compute_noise_nlags() to choose the number of lags")
+        return self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     @_add_group_loop()
     def apply_cuts(self, controls, clear=False, forceNew=True):
-- 
2.43.0


From f2a78c4b08ebe95f480123ba4610213575849d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 104/174] fix: filter_signal_lowpass failed for signals of odd
 length

---
 mass/core/analysis_algorithms.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index da39348..b4cba25 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -786,7 +786,8 @@ def filter_signal_lowpass(sig, fs, fcut):
     """
     N = sig.shape[0]
     SIG = np.fft.fft(sig)
-    freqs = (fs/N) * np.concatenate((np.arange(0, N/2+1), np.arange(N/2-1, 0, -1)))
+    k = np.arange(N)
+    freqs = (fs/N) * np.minimum(k, N - k)
     filt = np.zeros_like(SIG)
     filt[freqs < fcut] = 1.0
     sig_filt = np.fft.ifft(SIG * filt)
-- 
2.43.0


From a15c08f02cafaf96c90969b2534b0d0cd505add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 105/174] fix: find_local_maxima missed peaks whose top two
 bins are equal

---
 mass/calibration/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 8daab4e..4189643 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -57,7 +57,7 @@ def find_local_maxima(pulse_heights, gaussian_fwhm):
     x = (bins[1:] + bins[:-1]) / 2
     y = np.fft.irfft(np.fft.rfft(hist) * ty)
 
-    flag = (y[1:-1] > y[:-2]) & (y[1:-1] > y[2:])
+    flag = (y[1:-1] > y[:-2]) & (y[1:-1] >= y[2:])
     lm = np.arange(1, n - 1)[flag]
     lm = lm[np.argsort(-y[lm])]
 
-- 
2.43.0


From 7cdb6160db68f32f68392c1570f7557c98987201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:00 +0000
Subject: [PATCH 106/174] fix: find_local_maxima reported rounding noise as
 peaks

---
 mass/calibration/algorithms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 4189643..239dd77 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -58,6 +58,7 @@ def find_local_maxima(pulse_heights, gaussian_fwhm):
     y = np.fft.irfft(np.fft.rfft(hist) * ty)
 
     flag = (y[1:-1] > y[:-2]) & (y[1:-1] >= y[2:])
+    flag &= y[1:-1] > 1e-12 * y.max()  # rounding noise is not a peak
     lm = np.arange(1, n - 1)[flag]
     lm = lm[np.argsort(-y[lm])]
 
-- 
2.43.0


From 56158cc0a70623c40834b642dee0ce42a4f5cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 107/174] fix: saving an inverted pulse model flipped the model
 in memory

---
 mass/core/pulse_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 7049693..eaea1f4 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -51,7 +51,7 @@ class PulseModel:
         self.noise_autocorr = noise_autocorr
 
     def toHDF5(self, hdf5_group, save_inverted):
-        projectors, basis = self.projectors[()], self.basis[()]
+        projectors, basis = self.projectors.copy(), self.basis.copy()
         if save_inverted:
             # flip every component except the mean component if data is being inverted
             basis[:, 1:] *= -1
-- 
2.43.0


From 858aeef3926a3b4d317197d0b9c67e455ab5be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 108/174] fix: the first 5-lag component of a pulse model was
 labelled svd

---
 mass/core/pulse_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index eaea1f4..1eface8 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -137,9 +137,10 @@ class PulseModel:
 
     def labels(self):
         labels = ["const", "deriv", "pulse"]
+        n_svd = self.n_basis - 3 - self.extra_n_basis_5lag
         for i in range(self.n_basis - 3):
-            if i > self.n_basis - 3 - self.extra_n_basis_5lag:
-                labels += [f"5lag{i + 2 - self.extra_n_basis_5lag}"]
+            if i >= n_svd:
+                labels += [f"5lag{i - n_svd}"]
             else:
                 labels += [f"svd{i}"]
         return labels
-- 
2.43.0


From acc8b2ed2b7f4ff1891ae88419145e830f2aa6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 109/174] fix: ljh2off rounded time stamps through floating
 point

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..f79e85f 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -96,7 +96,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         records_written += records_this_seg
 
         data = ljhfile.alldata[idx_lo:idx_lo + rec_per_seg]
-        timestamps = ljhfile.datatimes_float[idx_lo:idx_hi]
+        timestamps_usec = ljhfile.datatimes_raw[idx_lo:idx_hi].astype(np.int64)
         subframecounts = ljhfile.subframecount[idx_lo:idx_hi]
         projector_record_length = projectors.shape[1]
         data_record_length = data.shape[1]
@@ -117,7 +117,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["recordSamples"] = ljhfile.nSamples
         offdata["recordPreSamples"] = ljhfile.nPresamples
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
-        offdata["unixnano"] = timestamps * 1e9
+        offdata["unixnano"] = timestamps_usec * 1000
         offdata["pretriggerMean"] = pretrig_mean
         offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
-- 
2.43.0


From 6f980c34ec1b8b49129b5a82aff49c03e131a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 110/174] fix: ljh2off failed for files without records

---
 mass/core/ljh2off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f79e85f..14ef973 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -87,7 +87,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
 
     # To keep linear algebra sizes manageable, loop over the file in segments
     seg_bytes = 2**21
-    rec_per_seg = max(seg_bytes // ljhfile.binary_size, 1)
+    rec_per_seg = max(seg_bytes // ljhfile.pulse_size_bytes, 1)
 
     records_written = 0
     for idx_lo in np.arange(0, ljhfile.nPulses, rec_per_seg):
-- 
2.43.0


From f6b840f8149ec3846ac7354af3b4989691f571d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 111/174] fix: ljh2off ignored the requested OFF version

---
 mass/core/ljh2off.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 14ef973..e664d85 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -20,9 +20,9 @@ LOG = logging.getLogger("mass")
 _OFF_VERSION = "0.3.0"
 
 
-def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
+def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version=_OFF_VERSION):
     d = collections.OrderedDict()
-    d["FileFormatVersion"] = "0.3.0"
+    d["FileFormatVersion"] = off_version
     d["FramePeriodSeconds"] = ljhfile.timebase
     d["NumberOfBases"] = projectors.shape[0]
     d["FileFormat"] = "OFF"
@@ -54,8 +54,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
     return d
 
 
-def off_header_string_from_ljhfile(ljhfile, projectors, basis, h5_path):
-    d = off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path)
+def off_header_string_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version=_OFF_VERSION):
+    d = off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_version)
     return json.dumps(d, indent=4) + "\n"
 
 
@@ -69,7 +69,7 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
     dtype = mass.off.off.recordDtype(off_version, nbasis, descriptive_coefs_names=False)
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
         f.write(off_header_string_from_ljhfile(
-            ljhfile0, projectors, basis, h5_path).encode('utf-8'))
+            ljhfile0, projectors, basis, h5_path, off_version).encode('utf-8'))
         projectors.tofile(f)
         basis.tofile(f)
         n = ljh_records_to_off(ljhfile0, f, projectors, basis, n_ignore_presamples, dtype)
@@ -119,7 +119,8 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
         offdata["unixnano"] = timestamps_usec * 1000
         offdata["pretriggerMean"] = pretrig_mean
-        offdata["pretriggerDelta"] = pt_delta
+        if "pretriggerDelta" in dtype.names:
+            offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
         offdata["coefs"] = mpc.T
         offdata.tofile(f)
-- 
2.43.0


From 0ca8061c10b6ba21a36741c917681c57eb48e802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 112/174] fix: ljh2off wrote unreadable files unless projectors
 are float64

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index e664d85..c36bb01 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -70,8 +70,8 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
         f.write(off_header_string_from_ljhfile(
             ljhfile0, projectors, basis, h5_path, off_version).encode('utf-8'))
-        projectors.tofile(f)
-        basis.tofile(f)
+        np.asarray(projectors, dtype=np.float64).tofile(f)
+        np.asarray(basis, dtype=np.float64).tofile(f)
         n = ljh_records_to_off(ljhfile0, f, projectors, basis, n_ignore_presamples, dtype)
         assert n == ljhfile0.nPulses, "wrong number of records written"
         for ljhpath in ljhpaths[1:]:
-- 
2.43.0


From c06f977a4d2c5564f98c1ac74168f0a359f60903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 113/174] fix: ljh2off lost the number of subframe divisions

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index c36bb01..38c4ef1 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -46,7 +46,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path, off_versio
         "ColumnsNum": ljhfile.column_number,
         "RowNum": ljhfile.row_number,
         "NumberOfColumns": ljhfile.number_of_columns,
-        "NumberOfRows": ljhfile.number_of_rows
+        "NumberOfRows": ljhfile.number_of_rows,
+        "SubframeDivisions": ljhfile.subframe_divisions
     }
     d["CreationInfo"] = {
         "SourceName": "ljh2off.py"
-- 
2.43.0


From 386181f74c7e962e69f066ded4dc2302650926d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 114/174] fix: multi_ljh2off_loop failed when one of several
 files of a channel is missing

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 38c4ef1..9dda86f 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -140,7 +140,8 @@ def multi_ljh2off_loop(ljhbases, h5_path, off_basename, max_channels, n_ignore_p
     for channum, pulse_model in pulse_model_dict.items():
         ljhpaths = [f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases]
         offpath = f'{off_basename}_chan{channum}.off'
-        if not any([os.path.isfile(ljhpath) for ljhpath in ljhpaths]):
+        ljhpaths = [ljhpath for ljhpath in ljhpaths if os.path.isfile(ljhpath)]
+        if not ljhpaths:
             continue  # make sure at least one of the desired files exists
         multi_ljh2off(ljhpaths, offpath, pulse_model.projectors,
                       pulse_model.basis, n_ignore_presamples, h5_path)
-- 
2.43.0


From ddd77b1c5ffa19ddda1550dd60ec14172865f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:03 +0000
Subject: [PATCH 115/174] fix: pulse_model_to_hdf5 failed for paths with
 another 'chan' in them

---
 mass/core/channel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index cc49571..25decb9 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -586,8 +586,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if category is None:
             category = {}
         if hdf5_file is None:
-            basename, _ = self.datasets[0].filename.split("chan")
-            hdf5_filename = basename + "model.hdf5"
+            basename, _ = mass.ljh_util.ljh_basename_channum(self.datasets[0].filename)
+            hdf5_filename = basename + "_model.hdf5"
             if os.path.isfile(hdf5_filename):
                 if not replace_output:
                     raise Exception(
-- 
2.43.0


From 06167b708bd84089a9b6a6858309790156a99200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 116/174] fix: a Film of several materials given one thickness
 left all but the first out

---
 mass/materials/efficiency_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index fb59163..d314cba 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -122,6 +122,9 @@ class Film(FilterStack):
                 thickness_cm = np.array(thickness_cm, ndmin=1)
         else:
             raise ValueError('must specify either areal density or thickness, not both')
+        if len(thickness_cm) == 1:
+            # One thickness is shared by all the materials in the film
+            thickness_cm = np.repeat(thickness_cm, len(self.material))
         self.thickness_cm = ensure_uncertain(thickness_cm)
         assert len(self.thickness_cm) >= 1
 
-- 
2.43.0


From aa2a4583f800d8a66c957ffa09db52e653a67d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 117/174] fix: an oxide or polymer density given as a number
 raised an exception

---
 mass/materials/efficiency_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index d314cba..c45a91d 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -185,7 +185,7 @@ class AlFilmWithOxide(Film):
 
         material = np.hstack(['Al', oxide_material])
         density_g_per_cm3 = np.hstack(
-            [Al_density_g_per_cm3, oxide_density_g_per_cm3 * oxide_mass_fractions])
+            [Al_density_g_per_cm3, oxide_density_g_per_cm3 * np.array(oxide_mass_fractions)])
         thickness_nm = np.hstack([Al_thickness_nm, oxide_thickness_nm])
         super().__init__(name=name, material=material,
                          density_g_per_cm3=density_g_per_cm3, thickness_nm=thickness_nm)
@@ -234,8 +234,8 @@ class AlFilmWithPolymer(Film):
         material = np.hstack(['Al', oxide_material, polymer_material])
         density_g_per_cm3 = np.hstack([
             Al_density_g_per_cm3,
-            oxide_density_g_per_cm3 * oxide_mass_fractions,
-            polymer_density_g_per_cm3 * polymer_mass_fractions])
+            oxide_density_g_per_cm3 * np.array(oxide_mass_fractions),
+            polymer_density_g_per_cm3 * np.array(polymer_mass_fractions)])
         thickness_nm = np.hstack([Al_thickness_nm, oxide_thickness_nm, polymer_thickness_nm])
 
         super().__init__(name=name, material=material,
-- 
2.43.0


From 7f90c89226be4caf85416d4c67a681a35a70eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 118/174] fix: AlFilmWithPolymer ignored polymer_fractions

---
 mass/materials/efficiency_models.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index c45a91d..df469c2 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -207,7 +207,7 @@ class AlFilmWithPolymer(Film):
             Al_density_g_per_cm3: Al film density, in g/cm3, defaults to xraydb value
             num_oxidized_surfaces: Number of film surfaces that contain a native oxide, default 2
             oxide_density_g_per_cm3: Al2O3 oxide density, in g/cm3, defaults to bulk xraydb value
-            polymer_fractions: elemental mass fractions of polymer used, defaults to Kapton
+            polymer_fractions: elemental mass fractions (of C, H, N, O) in the polymer used, defaults to Kapton
             polymer_density_g_per_cm3: Polymer density, in g/cm3, defaults to Kapton
         '''
         assert num_oxidized_surfaces in {1, 2}, 'only 1 or 2 oxidzed surfaces allowed'
@@ -225,9 +225,13 @@ class AlFilmWithPolymer(Film):
 
         polymer_dict = xraydb.material_mu_components('kapton', arbE)
         polymer_material = polymer_dict['elements']
-        polymer_thickness_nm *= np.ones(len(polymer_material))
-        polymer_mass_fractions = [polymer_dict[x][0] * polymer_dict[x][1]
-                                  / polymer_dict['mass'] for x in polymer_material]
+        polymer_thickness_nm = polymer_thickness_nm * np.ones(len(polymer_material))
+        if polymer_fractions is None:
+            polymer_mass_fractions = [polymer_dict[x][0] * polymer_dict[x][1]
+                                      / polymer_dict['mass'] for x in polymer_material]
+        else:
+            polymer_mass_fractions = polymer_fractions
+            assert len(polymer_mass_fractions) == len(polymer_material)
         if polymer_density_g_per_cm3 is None:
             polymer_density_g_per_cm3 = polymer_dict['density'] * np.ones(len(polymer_material))
 
-- 
2.43.0


From 7191f972b99b19a4578479df35470b2245978750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 119/174] fix: films with an integer fill fraction, or with
 both uncertain and plain thicknesses, failed

---
 mass/materials/uncertainties_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/materials/uncertainties_helpers.py b/mass/materials/uncertainties_helpers.py
index 6d879e1..2ac142b 100644
--- a/mass/materials/uncertainties_helpers.py
+++ b/mass/materials/uncertainties_helpers.py
@@ -1,3 +1,4 @@
+import numbers
 import uncertainties
 from uncertainties import unumpy as unp
 import numpy as np
@@ -15,11 +16,11 @@ def ensure_uncertain(x):
     put it in manually
     """
     if isinstance(x, np.ndarray):
-        if is_uncertain_scalar(x[0]):
+        if any(is_uncertain_scalar(xi) for xi in x):
             return x
         else:
             return unp.uarray(x, x)
-    elif isinstance(x, float):
+    elif isinstance(x, numbers.Real):
         return uncertainties.ufloat(x, x)
     elif is_uncertain_scalar(x):
         return x
-- 
2.43.0


From fda195026004217b5f43723fbf647a3ee2a92a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 120/174] fix: the energy axis of efficiency plots was labelled
 keV

---
 mass/materials/efficiency_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index df469c2..a92564d 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -61,7 +61,7 @@ class FilterStack:
             ax = fig.add_subplot(111)
 
         ax.plot(xray_energies_eV, efficiency * 100.0, label="total", lw=2)
-        ax.set_xlabel('Energy (keV)')
+        ax.set_xlabel('Energy (eV)')
         ax.set_ylabel('Efficiency (%)')
         ax.set_title(self.name)
         ax.set_title(f'{self.name} Efficiency')
-- 
2.43.0


From 967b6baf34b9e433e1029aad88774ef355996bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 121/174] fix: praseodymium K-alpha1 was 1887 eV wide, for want
 of a decimal point

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 675a48c..adcd3d5 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1280,7 +1280,7 @@ addline(
     reference_short="Zschornack",
     nominal_peak_energy=36026.71,
     energies=np.array([35550.59, 36026.71]),
-    lorentzian_fwhm=np.array([19.08, 1887]),
+    lorentzian_fwhm=np.array([19.08, 18.87]),
     reference_amplitude=np.array([4.15, 7.57]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
     ka12_energy_diff=36026.71 - 35550.59,
-- 
2.43.0


From c0f8e777608b4fa55540e99f378fb218f1768295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 122/174] fix: gadolinium K-beta1 was 1000 eV too high in the
 line shape

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index adcd3d5..eca2514 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1410,7 +1410,7 @@ addline(
     linetype="KBeta",
     reference_short="Zschornack",
     nominal_peak_energy=48696.9,
-    energies=np.array([48555.8, 49696.9]),
+    energies=np.array([48555.8, 48696.9]),
     lorentzian_fwhm=np.array([29.5, 30.0]),
     reference_amplitude=np.array([1.10, 2.13]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
-- 
2.43.0


From 7223703a83213f3eff9003b5d0e2b70a43601215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 123/174] fix: plot_all_spectra called lines as if they were
 classes

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index eca2514..484dc2a 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1510,5 +1510,5 @@ def plot_all_spectra(maxplots=10):
     Intended to replicate plots in the literature giving spectral lineshapes."""
     keys = list(spectra.keys())[:maxplots]
     for name in keys:
-        spectrum = spectra[name]()
+        spectrum = spectra[name]
         spectrum.plot_like_reference()
-- 
2.43.0


From 503cc9da9267385a3d7ca48aa6bf72e0a6733f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 124/174] fix: line models with tails scaled the integral and
 tail lengths wrongly unless dph_de is 1

---
 mass/calibration/line_models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 599ad88..6a9e885 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -263,12 +263,10 @@ class GenericLineModel(MLEModel):
 
                 def cleanspectrum_fn(x): return self.spect.pdf(x, instrument_gaussian_fwhm=fwhm)
 
-                # tail_tau* is in energy units but has to be converted to the same units as `bin_centers`
-                tail_arbs_lo = tail_tau * dph_de
-                tail_arbs_hi = tail_tau_hi * dph_de
+                # tail_tau* is in energy units, and so is `energy`
                 spectrum = _smear_exponential_tail(
-                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_arbs_lo, tail_share_hi, tail_arbs_hi)
-                scale_factor = integral * bin_width * dph_de
+                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_tau, tail_share_hi, tail_tau_hi)
+                scale_factor = integral * bin_width / dph_de
                 r = _scale_add_bg(spectrum, scale_factor, background, bg_slope)
                 if any(np.isnan(r)) or any(r < 0):
                     raise ValueError("some entry in r is nan or negative")
-- 
2.43.0


From e14c37903be9534566cd1927edf8c0dbb339e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 125/174] fix: composite models' residuals were NaN where model
 and data agree

---
 mass/calibration/line_models.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 6a9e885..9ab0a9b 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -213,20 +213,6 @@ class CompositeMLEModel(MLEModel, lmfit.CompositeModel):
     "Maximum-Likelihood Fits to Histograms for Improved Parameter Estimation"
     """
 
-    def _residual(self, params, data, weights, **kwargs):
-        """Calculate the chi_MLE^2 value from Joe Fowler's Paper
-        doi:10.1007/s10909-014-1098-4 Maximum-Likelihood Fits to Histograms for Improved Parameter Estimation
-        """
-        y = self.eval(params, **kwargs)
-        if data is None:
-            return y
-        r2 = y - data
-        nonzero = data > 0
-        r2[nonzero] += data[nonzero] * np.log((data / y)[nonzero])
-        vals = (2 * r2) ** 0.5
-        vals[y < data] *= -1
-        return vals
-
     # def __repr__(self):
     #     """Return representation of Model."""
     #     return "<CompositeMLEModel: %s>" % (self.name)
-- 
2.43.0


From e595345338aba5d5896d2df70bfe83ec2937c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 126/174] fix: X-ray database lines could not be looked up by
 nickname

---
 mass/calibration/nist_xray_database.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index b7aae9b..94ff32d 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -82,7 +82,7 @@ class NISTXrayDBFile:
         'KB5': 'KM5',
         'LA1': 'L3M5',
         'LA2': 'L3M4',
-        'Ll': 'L3M1',
+        'LL': 'L3M1',
         'LB3': 'L1M3',
         'LB1': 'L2M4',
         'LB2': 'L3N5',
@@ -114,12 +114,11 @@ class NISTXrayDBFile:
         key = f'{element} {line}'
         if key in self.lines:
             return self.lines[key]
-        lcline = line.lower()
-        lcline = lcline.replace('alpha', 'a')
-        lcline = lcline.replace('beta', 'b')
-        lcline = lcline.replace('gamma', 'g')
-        if lcline in self.LINE_NICKNAMES:
-            key = f"{element} {self.LINE_NICKNAMES[lcline]}"
+        line = line.replace('ALPHA', 'A')
+        line = line.replace('BETA', 'B')
+        line = line.replace('GAMMA', 'G')
+        if line in self.LINE_NICKNAMES:
+            key = f"{element} {self.LINE_NICKNAMES[line]}"
             return self.lines[key]
         raise KeyError(f"{key} is not a known line or line nickname")
 
-- 
2.43.0


From 9762422e3a6aff1b094789c526493dabaff955aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 127/174] fix: X-ray database files without the expected header
 were read for ever

---
 mass/calibration/nist_xray_database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index 94ff32d..64b08c2 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -58,8 +58,7 @@ class NISTXrayDBFile:
                 print(f"'{filename}' is not a readable file with X-ray database info! Continuing...")
                 continue
 
-            while True:
-                line = fp.readline()
+            for line in fp:
                 if "Theory" in line and "Blend" in line and "Ref." in line:
                     break
 
-- 
2.43.0


From d5a7ff9827f3db4c50e53b3d4dc40722be7b7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:26 +0000
Subject: [PATCH 128/174] fix: the fit report (and so plotm) failed when a
 fitted value or its uncertainty is zero

---
 mass/calibration/line_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 9ab0a9b..7a36a4f 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -332,8 +332,10 @@ class LineModelResult(lmfit.model.ModelResult):
                     sig_figs = 2
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±None\n"
                 else:
-                    sig_figs = int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1)
-                    sig_figs = max(1, sig_figs)
+                    sig_figs = 2
+                    if v.value != 0 and v.stderr > 0:
+                        sig_figs = int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1)
+                        sig_figs = max(1, sig_figs)
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±{v.stderr:.2g}\n"
             else:
                 sig_figs = 2
-- 
2.43.0


From af58af3140fbc85abca24145ea78fbe7a499162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 129/174] fix: flag_crosstalking_pulses always failed (h5py's
 removed .value), or ignored the neighbors of all categories but the last

---
 mass/core/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 1527975..0e02f76 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2382,13 +2382,13 @@ class MicrocalDataSet:  # noqa: PLR0904
                     # Loop through nearest neighbor categories
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][()]
                         # Remove duplicates, sort
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
-                    if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                    if np.sum(np.isin(list(self.tes_group.channel.keys()), combinedNearestNeighbors)) > 0:
                         h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
                     else:
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
@@ -2398,10 +2398,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][()]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
-                        if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                        if np.sum(np.isin(list(self.tes_group.channel.keys()), selectNeighbors)) > 0:
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
                             h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
                             h5grp[crosstalk_key][:] = np.logical_or(
-- 
2.43.0


From 3823c1dd79406499c33345b086a887f8c0e7414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 130/174] fix: crosstalk flags were wrong for pulses whose veto
 periods overlap

---
 mass/core/channel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 0e02f76..f163312 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2335,12 +2335,11 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-            # Create a histogram of the neighboring channel pulses using the bin edges from the channel you are flagging
-            hist, _bin_edges = np.histogram(compareChannelsPulsesList, bins=combinedEdges)
-            # Even corresponds to bins with a photon in channel 1 (crosstalk), odd are empty bins (no crosstalk)
-            badCountsHist = hist[::2]
-            # Even only histogram indices map directly to previously good flagged pulse indices for victim channel
-            crosstalking_pulses = badCountsHist > 0.0
+            # Count the neighboring channel pulses within each veto period (periods may overlap one another)
+            compareChannelsPulsesList.sort()
+            firstInside = np.searchsorted(compareChannelsPulsesList, startEdges, side="left")
+            firstAfter = np.searchsorted(compareChannelsPulsesList, stopEdges, side="right")
+            crosstalking_pulses = firstAfter > firstInside
             return crosstalking_pulses
 
         # Check to see if nearest neighbors list has already been set, otherwise skip
@@ -2367,13 +2366,11 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
-                # Create uneven histogram edges, with a specified amount of time before and after a photon event
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
                 startEdges = pulseTimes - priorTime
                 stopEdges = pulseTimes + postTime
-                combinedEdges = np.sort(np.append(startEdges, stopEdges))
 
                 if combineCategories:
                     LOG.info('Checking crosstalk between channel %d and combined neighbors...', self.channum)
-- 
2.43.0


From 816542c32db53c234ecbc517c8433360c3c5fce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 131/174] fix: recomputed crosstalk flags kept those found
 before

---
 mass/core/channel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f163312..7297bf1 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2366,6 +2366,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
+                # Forget flags from any earlier computation
+                h5grp[crosstalk_key][:] = False
+                if not combineCategories:
+                    for neighborCategory in self.hdf5_group[nn_channel_key]:
+                        h5grp[str(crosstalk_key + '_' + neighborCategory)][:] = False
+
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
-- 
2.43.0


From 2171d9b8fbc58dcfb46363f4257aabffe8ddff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 132/174] fix: a neighbor map could not be replaced by one of
 another size, nor have a single channel

---
 mass/core/channel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 7297bf1..5dcc577 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2502,7 +2502,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 return np.array([], dtype=int)
 
         # Load channel numbers and positions from map file, define number of dimensions
-        mapData = np.loadtxt(mapFilename, dtype=int)
+        mapData = np.loadtxt(mapFilename, dtype=int, ndmin=2)
         channelNumbers = np.array(mapData[:, 0], dtype=int)
         positionValues = mapData[:, 1:]
         nDims = positionValues.shape[1]
@@ -2510,6 +2510,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         # Set up hdf5 group and repopulate arrays, if already calculated earlier
         h5grp = self.hdf5_group.require_group('nearest_neighbors')
         h5grp.require_group(nearestNeighborCategory)
+        if forceNew:
+            # The new map might have another number of channels or dimensions
+            for name in ('position', 'neighbors_list'):
+                if name in h5grp[nearestNeighborCategory]:
+                    del h5grp[nearestNeighborCategory][name]
 
         # Victim channel position dataset
         self.__dict__[f'position_{nearestNeighborCategory}'] = \
-- 
2.43.0


From fa581852b07814358bf726d08fe2ae1c7778cab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:05 +0000
Subject: [PATCH 133/174] fix: CrosstalkVeto overflowed when more than 127
 pulses coincide, and its deep copies shared their counts

---
 mass/core/channel_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 25decb9..0ecbf0d 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -6,6 +6,7 @@ Part of the Microcalorimeter Analysis Software System (MASS).
 This module defines classes that handle one or more TES data streams together.
 """
 
+import copy
 import os
 import logging
 import re
@@ -1456,7 +1457,7 @@ class CrosstalkVeto:
 
         ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0]
         ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1]
-        self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int8)
+        self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int64)
         self.time0 = ms0
 
         for ds in datagroup.datasets:
@@ -1477,7 +1478,7 @@ class CrosstalkVeto:
     def copy(self):
         """Deep copy."""
         v = CrosstalkVeto()
-        v.__dict__ = self.__dict__.copy()
+        v.__dict__ = copy.deepcopy(self.__dict__)
         return v
 
     def veto(self, times_sec):
-- 
2.43.0


From e901b4c281c481f2591ae4369edacade4dcec7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 134/174] fix: subframe_timebase was unknown until
 summarize_data, also for reopened data

---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 5dcc577..b11f0f1 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -639,6 +639,8 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         for a in self.expected_attributes:
             setattr(self, a, pulserec_dict[a])
+        if self.subframe_divisions:
+            self.subframe_timebase = self.timebase / float(self.subframe_divisions)
         self.filename = pulserec_dict.get('filename', 'virtual data set')
         self.pretrigger_ignore_samples = 0  # Cut this long before trigger in computing pretrig values
         self.cut_pre = 0  # Number of presamples to ignore at start of pulse
-- 
2.43.0


From 967afd77d8193c55c088a14c0cfad6a6f7449aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:14 +0000
Subject: [PATCH 135/174] fix: phase_correct gave only NaNs when the pulses are
 all in one line

---
 mass/core/phase_correct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 0a6ad53..2a77bba 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -141,8 +141,10 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
             phase_uniformifier_x = crazy_spline._data[0]
             phase_uniformifier_y = crazy_spline._data[1]
         else:
-            phase_uniformifier_x = np.array([0, 0, 0, 0])
-            phase_uniformifier_y = np.array([0, 0, 0, 0])
+            # All pulses are in one bin, so use its median phase for all pulse heights. (The
+            # spline knots have to be distinct.)
+            phase_uniformifier_x = np.linspace(0, top, 4)
+            phase_uniformifier_y = np.zeros(4) + y[nonempty]
 
     return PhaseCorrector(phase_uniformifier_x, phase_uniformifier_y, corrections,
                           indicatorName, uncorrectedName)
-- 
2.43.0


From b116955e405f83b22ab47b4b4c171e7a678d0a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:14 +0000
Subject: [PATCH 136/174] fix: p_filt_phase_corr was computed from the phases
 as if they were pulse heights

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index b11f0f1..d8e5fce 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1849,7 +1849,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
                                                           indicatorName="p_filt_phase", uncorrectedName=attr)
 
-        self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
+        self.p_filt_phase_corr[:] = self.p_filt_phase[:] - self.phaseCorrector.phase_uniformifier(getattr(self, attr)[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
 
         if save_to_hdf5:
-- 
2.43.0


From f8050b869e260a6738b86c025619c96c3c3318b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:14 +0000
Subject: [PATCH 137/174] fix: MicrocalDataSet.time_drift_correct ignored the
 parameters for its polynomial degree

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index d8e5fce..96f6f76 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2114,7 +2114,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             g = np.logical_and(g, np.abs(attr[:] / pk - 1) < 0.5)
             w = max(pk / 3000., 1.0)
             info = time_drift_correct(self.p_timestamp[g], attr[g], w,
-                                      limit=[0.5 * pk, 2 * pk])
+                                      sec_per_degree=sec_per_degree, pulses_per_degree=pulses_per_degree,
+                                      max_degrees=max_degrees, limit=[0.5 * pk, 2 * pk])
             tnorm = info["normalize"](self.p_timestamp[:])
             corrected = attr[:] * (1 + info["model"](tnorm))
             self.p_filt_value_tdc[:] = corrected
-- 
2.43.0


From e10fda71795245175dd9c432ba03765d0a63f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 138/174] fix: linefit of an OFF channel's attribute that is
 not an energy failed

---
 mass/off/channels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 010e8c2..093f91f 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -158,7 +158,11 @@ class CorG:
             params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
             params["dph_de"].set(1.0, vary=False)
             unit_str = "eV"
-        if calibration is None:
+        else:
+            # In other units, use the average gain at the line; params_update can change or free it.
+            gain = bin_centers[np.argmax(counts)] / model.spect.peak_energy
+            params = model.guess(counts, bin_centers=bin_centers, dph_de=gain)
+            params["dph_de"].set(gain, vary=False)
             unit_str = "arbs"
         if calibration is not None:
             attr_str = f"{attr} with cal"
-- 
2.43.0


From 5141f834e1a57c12218cbf39e2f4ed6d67e4a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 139/174] fix: linefit and qualityCheckLinefit of OFF channels
 ignored the parameters to hold fixed

---
 mass/off/channels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 093f91f..1aa5ed7 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -129,6 +129,7 @@ class CorG:
         binEdges -- pass the binEdges you want as a numpy array
         label -- passed to model.plot
         plot -- passed to model.fit, determine if plot happens
+        params_fixed -- a dictionary of parameter names and values to hold fixed in the fit
         cutRecipeName -- a function a function taking a MicrocalDataSet and returning a vector like ds.good() would return
         calbration -- a calibration to be passed to hist - will error if used with an "energy..." attr
         require_errorbars -- throw an error if lmfit doesn't return errorbars
@@ -169,6 +170,9 @@ class CorG:
         else:
             attr_str = attr
         params.update(params_update)
+        if params_fixed is not None:
+            for name, value in params_fixed.items():
+                params[name].set(value=value, vary=False)
         # unit_str and attr_str are used by result.plotm to label the axes properly
         result = model.fit(counts, params, bin_centers=bin_centers, method=method,
                            minimum_bins_per_fwhm=minimum_bins_per_fwhm)
-- 
2.43.0


From d12124b68a137edbbafaed78a014ea958763481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:50 +0000
Subject: [PATCH 140/174] fix: aligned peaks could be one bin too low, even
 aligning a channel to itself

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 1aa5ed7..bfd9fee 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -917,7 +917,8 @@ def dtw_same_peaks(bin_edges, ph_a, ph_b, peak_inds_a, scale_by_median, normaliz
     i_b_median_scaled = [x[1] for x in path]
     peak_inds_b_median_scaled = np.array(
         [i_b_median_scaled[i_a.index(pia)] for pia in peak_inds_a])
-    peak_xs_b_median_scaled = bin_edges[peak_inds_b_median_scaled]
+    # Use bin centers: bin edges would be rounded to either of two bins, generally the lower.
+    peak_xs_b_median_scaled = 0.5 * (bin_edges[1:] + bin_edges[:-1])[peak_inds_b_median_scaled]
     peak_xs_b = peak_xs_b_median_scaled / median_ratio_a_over_b
     min_bin = bin_edges[0]
     bin_spacing = bin_edges[1] - bin_edges[0]
-- 
2.43.0


From 7c52d0ec72e842b2e6a3c48f22b2d12a31555799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 141/174] fix: learnResidualStdDevCut cut all pulses if its
 bins were empty, or less than one

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index bfd9fee..51dd369 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -273,19 +273,19 @@ class Channel(CorG):  # noqa: PLR0904
         filtValue, residualStdDev = self.getAttr(
             ["filtValue", "residualStdDev"], indsOrStates=states, cutRecipeName=cutRecipeName)
         # binEdges = np.percentile(filtValue, np.linspace(0, 100, N+1))
-        binEdges = np.arange(0, np.amax(filtValue), binSizeFv)
+        binEdges = np.arange(0, np.amax(filtValue) + binSizeFv, binSizeFv)
         N = len(binEdges) - 1
         sigmas, medians, fv_mids = [0], [0], [minFv]
         for i in range(N):
             lo, hi = binEdges[i], binEdges[i + 1]
             inds = np.logical_and(filtValue > lo, filtValue < hi)
-            if len(inds) <= 4:
+            if inds.sum() <= 4:
                 continue
             _mad, sigma_equiv, median = mass.off.util.median_absolute_deviation(residualStdDev[inds])
             sigmas.append(sigma_equiv)
             medians.append(median)
             fv_mids.append((lo + hi) / 2)
-        if len(sigmas) < 1:
+        if len(sigmas) <= 1:
             raise Exception(f"too few pulses, len(filtValue)={len(filtValue)}")
         sigmas = np.array(sigmas)
         medians = np.array(medians)
-- 
2.43.0


From 61f7fd786644e7ad1e48fc4e3afb6ba999543f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:25 +0000
Subject: [PATCH 142/174] fix: calibrateFollowingPlan used a fit without any
 pulse as a calibration point

---
 mass/off/channels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 51dd369..af8ef6e 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -659,6 +659,10 @@ class Channel(CorG):  # noqa: PLR0904
                                       cutRecipeName=cutRecipeName)
 
                 results.append(result)
+                if result.data.sum() == 0:
+                    self.markBad(f"calibrateFollowingPlan: no pulses near {line}, states {states}",
+                                 extraInfo=result)
+                    continue
                 if not result.success:
                     self.markBad(f"calibrateFollowingPlan: failed fit {line}, states {states}",
                                  extraInfo=result)
-- 
2.43.0


From 1639a8e54e5b7cce2727bab9a50952d80e1437a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 143/174] fix: cut_parameter used the previous range for a
 range without limits

---
 mass/core/cut.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 6823169..36a2c5e 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -450,18 +450,20 @@ class Cuts:
                 if np.size(element) == 2:
                     try:
                         a, b = element
-                        if a is not None and b is not None:
-                            index = np.logical_and(data[:] >= a, data[:] <= b)
-                        elif a is not None:
-                            index = data[:] >= a
-                        elif b is not None:
-                            index = data[:] <= b
+                        index = np.ones_like(data, dtype='bool')
+                        if a is not None:
+                            index &= data[:] >= a
+                        if b is not None:
+                            index &= data[:] <= b
                         cut_vec[index] = False
                     except Exception:
                         raise ValueError(
                             f'{str(element)} passed as a cut element, only two element lists or tuples are valid')
-                elif element == 'invert':
+                elif isstr(element) and element == 'invert':
                     doInvert = True
+                else:
+                    raise ValueError(
+                        f'{str(element)} passed as a cut element, only two element lists or tuples are valid')
             if doInvert:
                 self.cut(cut_id, ~cut_vec)
             else:
-- 
2.43.0


From bdde8cf6f815044be9bac83286393a2ca51e9f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 144/174] fix: cut_parameter kept pulses whose value is not a
 number

---
 mass/core/cut.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 36a2c5e..ee1e99f 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -471,13 +471,10 @@ class Cuts:
         else:
             try:
                 a, b = allowed
-                if a and b:
-                    self.cut(cut_id, (data[:] <= a) | (data[:] >= b))
-                else:
-                    if a is not None:
-                        self.cut(cut_id, data[:] <= a)
-                    if b is not None:
-                        self.cut(cut_id, data[:] >= b)
+                if a is not None:
+                    self.cut(cut_id, ~(data[:] > a))
+                if b is not None:
+                    self.cut(cut_id, ~(data[:] < b))
             except ValueError:
                 raise ValueError(f'{str(allowed)} was passed as a cut element, but only two-element sequences are valid.')
 
-- 
2.43.0


From d045614c8742a5a129adefa83b93dc93a893e94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 145/174] fix: apply_cuts(forceNew=False) reported that it
 skipped the cuts, but applied them

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 96f6f76..974742b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1684,6 +1684,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             if self.cuts.good().sum() != self.nPulses:
                 LOG.info("Chan %d skipped cuts: after %d are good, %d are bad of %d total pulses",
                          self.channum, self.cuts.good().sum(), self.cuts.bad().sum(), self.nPulses)
+                return
 
         if clear:
             self.clear_cuts()
-- 
2.43.0


From caedfd83c873070697811db888dfe84e67ea7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 146/174] fix: auto_cuts took the post-peak derivative limit
 from the last noise record only

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 974742b..4a74e65 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2220,10 +2220,11 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         # Step 2: analyze *noise* so we know how to cut on pretrig rms postpeak_deriv
         pretrigger_rms = np.zeros(self.noise_records.nPulses)
+        max_deriv = np.zeros(self.noise_records.nPulses)
         for i in range(self.noise_records.nPulses):
             data = self.noise_records.datafile.alldata[i]
             pretrigger_rms[i] = data[:self.nPresamples].std()
-        max_deriv = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
+            max_deriv[i] = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)[0]
 
         # Multiply MAD by 1.4826 to get into terms of sigma, if distribution were Gaussian.
         md_med = np.median(max_deriv)
-- 
2.43.0


From c919ae63980a0b2c4bad00d0c2c59a7b05daa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 147/174] fix: cut_summary printed its template instead of the
 number of pulses cut

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 4a74e65..a4d6438 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2168,7 +2168,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 print(f"{n_and:6d} (and) %{n_or:6d} (or) pulses cut by [{c1.upper()} and/or {c2.upper()}]")
         print()
         for cut_name in boolean_fields:
-            print("{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
+            print(f"{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
         print(f"{self.nPulses:6d} pulses total")
 
     @_add_group_loop()
-- 
2.43.0


From 9ada77944ddfd52c96017dc59963f7e84dfcd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 148/174] fix: get_pulse_model without auto cuts failed before
 saying that it needs them

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a4d6438..da7284a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1411,7 +1411,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         if pulses_for_svd is None:
             pulses_for_svd, _ = self.first_n_good_pulses(maximum_n_pulses, category=category)
             pulses_for_svd = pulses_for_svd.T
-        if hasattr(self, "saved_auto_cuts"):
+        if self.saved_auto_cuts is not None:
             pretrig_rms_median = self.saved_auto_cuts._pretrig_rms_median
             pretrig_rms_sigma = self.saved_auto_cuts._pretrig_rms_sigma
         else:
-- 
2.43.0


From f3162e0fe170cb8f97cb9305a1b804329c8885b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 149/174] fix: CrosstalkVeto failed or wrapped around at times
 before or after all pulses

---
 mass/core/channel_group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 0ecbf0d..d3cfed7 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1456,7 +1456,7 @@ class CrosstalkVeto:
         self.n_pulses = datagroup.nPulses
 
         ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0]
-        ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1]
+        ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1] + 8
         self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int64)
         self.time0 = ms0
 
@@ -1484,5 +1484,7 @@ class CrosstalkVeto:
     def veto(self, times_sec):
         """Return boolean vector for whether a given moment is vetoed.  Times are given in
         seconds.  Resolution is 1 ms for the veto."""
-        index = np.asarray(times_sec * 1e3 - self.time0 + 0.5, dtype=int)
-        return self.nhits[index] > 1
+        index = np.floor(np.asarray(times_sec) * 1e3 - self.time0 + 0.5).astype(int)
+        # Times too far before or after all pulses are not vetoed.
+        known = np.logical_and(index >= 0, index < len(self.nhits))
+        return np.logical_and(known, self.nhits[np.where(known, index, 0)] > 1)
-- 
2.43.0


From 696d516ff1e0cb00095f873cd57d08ba0ee7f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:36 +0000
Subject: [PATCH 150/174] fix: CrosstalkVeto lost the window of the first pulse
 when its time was rounded down

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index d3cfed7..0b399ec 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1455,7 +1455,7 @@ class CrosstalkVeto:
         self.n_channels = datagroup.n_channels
         self.n_pulses = datagroup.nPulses
 
-        ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0]
+        ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0] - 1
         ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1] + 8
         self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int64)
         self.time0 = ms0
-- 
2.43.0


From acf488eab6148d175894185a94d37ca78a84786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 151/174] fix: compute_average_pulse took masks of 0 and 1 for
 record numbers

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 0b399ec..3560bf5 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -942,7 +942,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for (mask, ds) in zip(masks, self.datasets):
             if ds.channum not in self.good_channels:
                 continue
-            ds.compute_average_pulse(mask, subtract_mean=subtract_mean, forceNew=forceNew)
+            ds.compute_average_pulse(mask.astype(bool), subtract_mean=subtract_mean, forceNew=forceNew)
 
     def plot_average_pulses(self, axis=None, channels=None, cmap=None, legend=True,
                             fcut=None, include_badchan=False):
-- 
2.43.0


From 1c51d8db07dc7c293b6eccb17f459c73abfa29e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:27 +0000
Subject: [PATCH 152/174] fix: count_rate used the width of the first bin for
 all bins

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index da7284a..0ff4ae3 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2149,8 +2149,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         else:
             bin_edge = bin_s
         counts, bin_edge = np.histogram(self.p_timestamp[g], bin_edge)
-        bin_centers = bin_edge[:-1] + 0.5 * (bin_edge[1] - bin_edge[0])
-        rate = counts / float(bin_edge[1] - bin_edge[0])
+        bin_centers = 0.5 * (bin_edge[:-1] + bin_edge[1:])
+        rate = counts / np.diff(bin_edge)
 
         return bin_centers, rate
 
-- 
2.43.0


From 67e9f74b1ce94e8919ebc48b301362403cb26e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:44 +0000
Subject: [PATCH 153/174] fix: linefit of LJH data ignored guess_params

---
 mass/core/channel.py       | 6 ++++--
 mass/core/channel_group.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 0ff4ae3..ba98bef 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2638,8 +2638,10 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         bin_centers, counts = self.hist(bin_edges, attr, t0, tlast, category, g_func)
 
-        params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
-        params["dph_de"].set(vary=False)
+        params = guess_params
+        if params is None:
+            params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
+            params["dph_de"].set(vary=False)
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 3560bf5..352bca2 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1432,8 +1432,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         bin_centers, counts = self.hist(bin_edges, attr, t0, tlast, category, g_func)
 
-        params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
-        params["dph_de"].set(vary=False)
+        params = guess_params
+        if params is None:
+            params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
+            params["dph_de"].set(vary=False)
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
-- 
2.43.0


From 6f2573314578ee2dce6d0047dc7c9d2ac1608839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:30 +0000
Subject: [PATCH 154/174] fix: energy2ph_exact failed for a calibration without
 points

---
 mass/calibration/energy_calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index b7c3578..83f5259 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -177,6 +177,10 @@ class EnergyCalibration:  # noqa: PLR0904
         if self._model_is_stale:
             self._update_converters()
 
+        if self.npts <= 0:
+            # Without any points, E = PH (and there is no pulse height scale for root finding).
+            return self.energy2ph(energy)
+
         def energy_residual(ph, etarget):
             return self._ph2e(ph) - etarget
 
-- 
2.43.0


From 513f93cf9c502a7218396c271e1d0eff6b8edc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:12 +0000
Subject: [PATCH 155/174] fix: summarize_data lost a sample of peak and ignored
 times that are whole samples

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ba98bef..c303caa 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -950,12 +950,12 @@ class MicrocalDataSet:  # noqa: PLR0904
         if peak_time_microsec is None:
             self.peak_samplenumber = None
         else:
-            self.peak_samplenumber = self.nPresamples + int(peak_time_microsec * 1e-6 / self.timebase)
+            self.peak_samplenumber = self.nPresamples + int(np.round(peak_time_microsec * 1e-6 / self.timebase, 6))
             self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
         if pretrigger_ignore_microsec is None:
             self.pretrigger_ignore_samples = 3
         else:
-            self.pretrigger_ignore_samples = int(pretrigger_ignore_microsec * 1e-6 / self.timebase)
+            self.pretrigger_ignore_samples = int(np.round(pretrigger_ignore_microsec * 1e-6 / self.timebase, 6))
 
         self.cut_pre = cut_pre
         self.cut_post = cut_post
-- 
2.43.0


From a18370204ffe81e6c80a157c97eddbbb82754326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:21 +0000
Subject: [PATCH 156/174] fix: qualityCheckLinefit of a group when no channel's
 fit succeeds

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index af8ef6e..2e22f33 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1355,7 +1355,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         if resolutionPlot:
             plt.figure()
             axis = plt.gca()
-            axis.hist(resolutions, bins=np.arange(0, np.amax(resolutions) + 0.25, 0.25))
+            axis.hist(resolutions, bins=np.arange(0, np.amax(resolutions, initial=0.25) + 0.25, 0.25))
             axis.set_xlabel("energy resoluiton fwhm (eV)")
             axis.set_ylabel("# of channels / 0.25 eV bin")
             plt.title(self.shortName + f" at {line}")
-- 
2.43.0


From 995185f5c0c691e2d8a53c8ef96175399dbb5daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:44 +0000
Subject: [PATCH 157/174] fix: GPRSpline failed for points at negative x

---
 mass/mathstat/interpolate.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 25c2209..d575a1c 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -281,6 +281,9 @@ class GPRSpline(CubicSpline):
         assert self.Nk == len(self.dx)
         assert self.Nk == len(self.err)
 
+        # The spline kernel requires non-negative arguments. The origin won't affect the results.
+        self._origin = min(0.0, self.x.min())
+
         if sigmaf is None:
             sigmaf = self.best_sigmaf()
         self.sigmaf = sigmaf
@@ -289,9 +292,9 @@ class GPRSpline(CubicSpline):
         K = np.zeros((self.Nk, self.Nk), dtype=float)
         sf2 = sigmaf**2
         for i in range(self.Nk):
-            K[i, i] = sf2 * k_spline(self.x[i], self.x[i])
+            K[i, i] = sf2 * self._kernel(self.x[i], self.x[i])
             for j in range(i + 1, self.Nk):
-                K[i, j] = K[j, i] = sf2 * k_spline(self.x[i], self.x[j])
+                K[i, j] = K[j, i] = sf2 * self._kernel(self.x[i], self.x[j])
         Ky = K + np.diag(self.err**2)
         L = np.linalg.cholesky(Ky)
         LH = np.linalg.solve(L, H.T)
@@ -309,6 +312,10 @@ class GPRSpline(CubicSpline):
         gbar = fbar + R.T.dot(beta)
         CubicSpline.__init__(self, self.x, gbar)
 
+    def _kernel(self, x, y):
+        "Return the kernel relative to the origin"
+        return k_spline(x - self._origin, y - self._origin)
+
     def best_sigmaf(self):
         """Return the sigmaf value that maximizes the marginal Bayesian likelihood."""
         guess = np.median(self.err / self.y)
@@ -324,9 +331,9 @@ class GPRSpline(CubicSpline):
         K = np.zeros((self.Nk, self.Nk), dtype=float)
         sf2 = sigmaf**2
         for i in range(self.Nk):
-            K[i, i] = sf2 * k_spline(self.x[i], self.x[i])
+            K[i, i] = sf2 * self._kernel(self.x[i], self.x[i])
             for j in range(i + 1, self.Nk):
-                K[i, j] = K[j, i] = sf2 * k_spline(self.x[i], self.x[j])
+                K[i, j] = K[j, i] = sf2 * self._kernel(self.x[i], self.x[j])
         Ky = K + np.diag(self.err**2)
         L = np.linalg.cholesky(Ky)
         LH = np.linalg.solve(L, H.T)
@@ -345,9 +352,9 @@ class GPRSpline(CubicSpline):
         this method computes only the diagonal and should therefore be faster."""
         v = []
         for x in np.atleast_1d(xtest):
-            Ktest = self.sigmaf**2 * k_spline(x, self.x)
+            Ktest = self.sigmaf**2 * self._kernel(x, self.x)
             LinvKtest = np.linalg.solve(self.L, Ktest)
-            cov_ftest = self.sigmaf**2 * k_spline(x, x) - (LinvKtest**2).sum()
+            cov_ftest = self.sigmaf**2 * self._kernel(x, x) - (LinvKtest**2).sum()
             R = np.array((1, x)) - self.KinvHT.T.dot(Ktest)
             v.append(cov_ftest + R.dot(np.linalg.solve(self.A, R)))
         if np.isscalar(xtest):
@@ -360,9 +367,9 @@ class GPRSpline(CubicSpline):
             return self.variance(xtest)
         xtest = np.asarray(xtest)
 
-        Ktest = self.sigmaf**2 * np.vstack([k_spline(x, self.x) for x in xtest]).T
+        Ktest = self.sigmaf**2 * np.vstack([self._kernel(x, self.x) for x in xtest]).T
         LinvKtest = np.linalg.solve(self.L, Ktest)
-        cov_ftest = self.sigmaf**2 * np.vstack([k_spline(x, xtest) for x in xtest])
+        cov_ftest = self.sigmaf**2 * np.vstack([self._kernel(x, xtest) for x in xtest])
         cov_ftest -= LinvKtest.T.dot(LinvKtest)
         R = np.vstack((np.ones(len(xtest)), xtest))
         R -= self.KinvHT.T.dot(Ktest)
-- 
2.43.0


From 7efb2ca6a8992a76dbcf5fc1f46657ddab7b1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:34 +0000
Subject: [PATCH 158/174] fix: SmoothingSpline failed, or missed its
 chi-squared, for data far from unit scale

---
 mass/mathstat/interpolate.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index d575a1c..c92cd2c 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -527,7 +527,8 @@ class SmoothingSpline:
         if chisq is None:
             chisq = self.Nk
 
-        Dinv = self.err**(-2)  # Vector but stands for diagonals of a diagonal matrix.
+        # Vector but stands for diagonals of a diagonal matrix. Relative to the typical error, so the scale of y won't matter.
+        Dinv = (self.err / np.mean(self.err))**(-2)
         NTDinv = self.N0.T * Dinv
         lhs = np.dot(NTDinv, self.N0)
         rhs = np.dot(self.N0.T, Dinv * self.y)
@@ -546,9 +547,15 @@ class SmoothingSpline:
             chisq = np.sum(((self.y - ys) / self.err)**2)
             return chisq - target_chisq
 
-        mincurvature = 1e-20
-        pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
-        beta = best_params(pbest)
+        line = np.polyval(np.polyfit(self.x, self.y, 1, w=1 / self.err), self.x)
+        mincurvature = 1e-12
+        if np.sum(((self.y - line) / self.err)**2) <= chisq:  # No curvature is needed
+            beta = np.linalg.solve(self.N0, line)
+        elif chisq_difference(mincurvature, chisq) <= 0:
+            beta = best_params(mincurvature)
+        else:
+            pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
+            beta = best_params(pbest)
         self.coeff = self.basis.expand_coeff(beta)
         ys = np.dot(self.N0, beta)
         self.actualchisq = np.sum(((self.y - ys) / self.err)**2)
-- 
2.43.0


From 0af9feda4789f1233709e427c05fe8a0f3f2c750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:15 +0000
Subject: [PATCH 159/174] fix: slope of a SmoothingSpline beyond its ends, when
 zero

---
 mass/mathstat/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index c92cd2c..75d1d54 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -579,14 +579,14 @@ class SmoothingSpline:
             if der == 0:
                 splresult[low] = self.lowline(x[low] - self.x[0])
             elif der == 1:
-                splresult[low] = self.lowline.coeffs[0]
+                splresult[low] = self.lowline[1]
             elif der >= 2:
                 splresult[low] = 0.0
         if np.any(high):
             if der == 0:
                 splresult[high] = self.highline(x[high] - self.x[-1])
             elif der == 1:
-                splresult[high] = self.highline.coeffs[0]
+                splresult[high] = self.highline[1]
             elif der >= 2:
                 splresult[high] = 0.0
         if der > 0:
-- 
2.43.0


From 94af87b6942547033622dd1a8f9fa72fd685f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:58 +0000
Subject: [PATCH 160/174] fix: a noise-only group finds its bad channels again
 when reopened

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 352bca2..d9a631a 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -358,6 +358,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
             dset = MicrocalDataSet(noise.__dict__, hdf5_group=hdf5_group)
             dset.noise_records = noise
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = [comment.decode() for comment in
+                                                    hdf5_group.attrs['why_bad']]
             noise_list.append(noise)
             dset_list.append(dset)
 
-- 
2.43.0


From c6d4f18673bb1fe71a153832e5a31cb61a410af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:58 +0000
Subject: [PATCH 161/174] fix: pulse_model_to_hdf5 obeys _rethrow and
 noise_weight_basis when given an open file

---
 mass/core/channel_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index d9a631a..570e168 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -607,7 +607,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             LOG.info("writing pulse_model to %s", hdf5_filename)
             self._pulse_model_to_hdf5(
                 hdf5_file, n_basis, maximum_n_pulses=maximum_n_pulses,
-                extra_n_basis_5lag=extra_n_basis_5lag, f_3db_5lag=f_3db_5lag, category=category)
+                extra_n_basis_5lag=extra_n_basis_5lag, f_3db_5lag=f_3db_5lag, category=category,
+                noise_weight_basis=noise_weight_basis, _rethrow=_rethrow)
         return hdf5_filename
 
     @property
-- 
2.43.0


From 8e7de6043df4ef4f106c8e50068ae1e3ae9840aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:10 +0000
Subject: [PATCH 162/174] fix: plotCompareDriftCorrect with includeBad

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2e22f33..c3195ee 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -590,6 +590,7 @@ class Channel(CorG):  # noqa: PLR0904
         self.recipes.add(correctedName, time_drift_correct, [indicatorName, uncorrectedName], overwrite=overwriteRecipe)
 
     def plotCompareDriftCorrect(self, axis=None, states=None, cutRecipeName=None, includeBad=False):
+        cutRecipeName = self._handleDefaultCut(cutRecipeName)
         if axis is None:
             plt.figure()
             axis = plt.gca()
@@ -607,7 +608,7 @@ class Channel(CorG):  # noqa: PLR0904
             axis.plot(A, C, ".", label=state + " DC")
             if includeBad:
                 A, B, C = self.getAttr([indicatorName, uncorrectedName,
-                                        "filtValueDC"], state, cutRecipeName=True)
+                                        "filtValueDC"], state, f"!{cutRecipeName}")
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
         plt.xlabel(indicatorName)
-- 
2.43.0


From f5868af5d80392309b5d0f60e0f1abd51469bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:14 +0000
Subject: [PATCH 163/174] fix: kink_model gave its model values and chi-squared
 in the wrong order for unsorted x

---
 mass/mathstat/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/fitting.py b/mass/mathstat/fitting.py
index 7ff24bc..11644e8 100644
--- a/mass/mathstat/fitting.py
+++ b/mass/mathstat/fitting.py
@@ -54,7 +54,7 @@ def kink_model(k, x, y):
                   [sj, 0, sj2]])
     v = np.array([y.sum(), (yi * dxi).sum(), (yj * dxj).sum()])
     abc = np.linalg.solve(A, v)
-    model = np.hstack([abc[0] + abc[1] * dxi, abc[0] + abc[2] * dxj])
+    model = abc[0] + np.where(x < k, abc[1], abc[2]) * (x - k)
     X2 = ((model - y)**2).sum()
     return model, abc, X2
 
-- 
2.43.0


From bef437542d316f4c823ccd569cb722bbf6d9d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:01 +0000
Subject: [PATCH 164/174] fix: savitzky_golay derivatives had the wrong sign
 (odd orders) or lacked the factor n!

---
 mass/mathstat/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/utilities.py b/mass/mathstat/utilities.py
index 4c6ee0f..93afc92 100644
--- a/mass/mathstat/utilities.py
+++ b/mass/mathstat/utilities.py
@@ -12,6 +12,7 @@ Joe Fowler, NIST
 Started March 24, 2011
 """
 
+import math
 import numpy as np
 
 __all__ = ['plot_as_stepped_hist', 'plot_stepped_hist_poisson_errors', 'savitzky_golay',
@@ -162,13 +163,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     half_window = (window_size - 1) // 2
     # precompute coefficients
     b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * math.factorial(deriv)
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def find_range_randomly(A, nl, q=1):
-- 
2.43.0


From f8a6a00a2c62f50b0f8419d8676f531cffbb8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 165/174] fix: plots of average pulses and filters ignored the
 axis given

---
 mass/core/channel_group.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 570e168..f973983 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -977,15 +977,15 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if fcut is not None:
                 avg_pulse = mass.core.analysis_algorithms.filter_signal_lowpass(
                     avg_pulse, 1. / self.timebase, fcut)
-            plt.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
+            axis.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
 
-        plt.title("Average pulse for each channel when it is hit")
+        axis.set_title("Average pulse for each channel when it is hit")
 
-        plt.xlabel("Time past trigger (ms)")
-        plt.ylabel("Raw counts")
-        plt.xlim([dt[0], dt[-1]])
+        axis.set_xlabel("Time past trigger (ms)")
+        axis.set_ylabel("Raw counts")
+        axis.set_xlim([dt[0], dt[-1]])
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1015,12 +1015,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             ds = self.channel[channum]
             if ds.filter is None:
                 continue
-            plt.plot(ds.filter.values, label=f"Chan {ds.channum}",
-                     color=cmap(float(ds_num) / len(channels)))
+            axis.plot(ds.filter.values, label=f"Chan {ds.channum}",
+                      color=cmap(float(ds_num) / len(channels)))
 
-        plt.xlabel("Sample number")
+        axis.set_xlabel("Sample number")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1079,9 +1079,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise = ds.noise_records
             noise.plot_autocorrelation(axis=axis, label=f'Chan {channum}',
                                        color=cmap(float(ds_num) / len(channels)))
-        plt.xlabel("Time lag (ms)")
+        axis.set_xlabel("Time lag (ms)")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
-- 
2.43.0


From abc1d33d9c4204eb19330ec908ee5b251738d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 166/174] fix: plot_noise set the frequency range from its last
 channel only

---
 mass/core/channel_group.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index f973983..2463803 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1141,14 +1141,13 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             units = "Scaled counts"
 
         axis.grid(True)
+        fmax = 0.0
+        fmin = 1e20
         for i, ds in enumerate(dsets):
             channum = ds.channum
             yvalue = ds.noise_psd[:] * scale_factor**2
-            fmax = 0.0
-            fmin = 1e20
             if sqrt_psd:
                 yvalue = np.sqrt(yvalue)
-                axis.set_ylabel(f"PSD$^{1 / 2}$ ({units}/Hz$^{1 / 2}$)")
             try:
                 df = ds.noise_psd.attrs['delta_f']
                 freq = np.arange(len(yvalue)) * df
@@ -1168,11 +1167,14 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if fmax == 0:
             raise ValueError("No datasets plotted successfully")
         axis.set_xlim((fmin, fmax))
-        axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
+        if sqrt_psd:
+            axis.set_ylabel(f"PSD$^{{1/2}}$ ({units}/Hz$^{{1/2}}$)")
+        else:
+            axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
         axis.set_xlabel("Frequency (Hz)")
         axis.loglog()
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
-- 
2.43.0


From a8de60ae1bd71c607539a2ee6cff47eb7085bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 167/174] fix: plot_summary_pages and plot_histogram_pages
 always raised exceptions

---
 mass/core/channel_group.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 2463803..7836ead 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1268,9 +1268,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if suffix is None:
             suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
 
-        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{y_attr}.vs.{x_attr}-{suffix}-[0-9][0-9][0-9].{fileformat}'
-        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf' % (y_attr, x_attr, suffix)
+        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf'
 
         def helper(ds, ax):
             ch = ds.channum
@@ -1290,8 +1290,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.plot(x_g, y_g, '.', markersize=2.5, color='blue')
 
             if lines is not None:
-                x_lo = min(np.amin(x_g), np.amin(x_b))
-                x_hi = max(np.amax(x_g), np.amax(x_b))
+                x_all = np.hstack((x_g, x_b))
+                x_lo = np.amin(x_all)
+                x_hi = np.amax(x_all)
                 for line in lines[ch]:
                     plt.plot([x_lo, x_hi], [line, line], '--k')
 
@@ -1309,7 +1310,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Chan {ch}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def plot_histogram_pages(self, attr, valrange, bins, y_range=None, subplot_shape=(3, 4),  # noqa: PLR0917
                              suffix=None, lines=None, fileformat='png', one_file=False):
@@ -1347,7 +1348,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if suffix is None:
             suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
 
-        filename_template_per_file = f'{attr}-hist-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{attr}-hist-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{attr}-hist-{suffix}-[0-9][0-9][0-9].{fileformat}'
         filename_one_file = f'{attr}-hist-{suffix}.pdf'
 
@@ -1358,7 +1359,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             # I generally prefer the "stepped" histtype, but that seems to interact
             # poorly with log scale - the automatic choice of axis limits gets
             # screwed up.
-            plt.hist(x_g, range=range, bins=bins, histtype='bar')
+            plt.hist(x_g, range=valrange, bins=bins, histtype='bar')
             plt.yscale('log')
 
             if lines is not None:
@@ -1376,7 +1377,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Ch{ds.channum}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def hists(self, bin_edges, attr="p_energy", t0=0, tlast=1e20, category={}, g_func=None):
         """return a tuple of (bin_centers, countsdict). automatically filters out nan values
-- 
2.43.0


From 679d0868aabb97b7e57e5b69b3bc2d867d4efeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 168/174] fix: plot_multipage called tight_layout with an
 argument that it refuses

---
 mass/core/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/utilities.py b/mass/core/utilities.py
index f4240b3..d88bc42 100644
--- a/mass/core/utilities.py
+++ b/mass/core/utilities.py
@@ -136,12 +136,13 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
 
     (m, n) = subplot_shape
     plt.clf()
+    k = -1
     for (k, ds) in enumerate(data.iter_channels()):
         ax = plt.subplot(m, n, k % (m * n) + 1)
         helper(ds, ax)
 
         if ((k + 1) % (m * n)) == 0:
-            plt.tight_layout(True)
+            plt.tight_layout()
             if format == 'pdf' and one_file:
                 pdf.savefig()
             else:
@@ -150,7 +151,7 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
 
     # If final page is not full of plots, it hasn't yet been saved, so need to save it.
     if ((k + 1) % (m * n) != 0):
-        plt.tight_layout(True)
+        plt.tight_layout()
         if format == 'pdf' and one_file:
             pdf.savefig()
         else:
-- 
2.43.0


From d41ce618cc3f67e5373a44f953b35cbb16f4437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 169/174] fix: plot_traces of a single record number of a numpy
 integer type

---
 mass/core/channel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c303caa..6a8d2ac 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2005,9 +2005,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             <fcut>  If not none, apply a lowpass filter with this cutoff frequency prior to plotting
         """
 
-        if isinstance(pulsenums, int):
-            pulsenums = (pulsenums,)
-        pulsenums = np.asarray(pulsenums)
+        pulsenums = np.atleast_1d(pulsenums)
         if pulse_summary:
             try:
                 if len(self.p_pretrig_mean) == 0:
-- 
2.43.0


From 753f8e62cdba40674503f8408fab3c1367562dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 170/174] fix: TESGroup.plot_summaries of all pulses
 (valid=None or 'all')

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 7836ead..01a7930 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -791,6 +791,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for i, (channum, ds) in enumerate(zip(channel_numbers, datasets)):
 
             # Convert "uncut" or "cut" to array of all good or all bad data
+            valid_mask = None
             if isstr(valid):
                 if "uncut" in valid.lower():
                     valid_mask = ds.cuts.good()
@@ -824,7 +825,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 limits = hist_limits
 
             # Vectors are being sampled and multiplied, so eval() is needed.
-            vect = eval(f"ds.{vect}")[valid_mask]
+            vect = eval(f"ds.{vect}")[:]
+            if valid_mask is not None:
+                vect = vect[valid_mask]
 
             # Scatter plots on left half of figure
             if i == 0:
-- 
2.43.0


From 8d9da54d9bc7be85bae6c47f179a5abe34df714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 171/174] fix: TESGroup.report raised if any channel had no
 good pulses

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 01a7930..9864822 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1049,6 +1049,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for ds in self.datasets:
             good = ds.cuts.good()
             ng = ds.cuts.good().sum()
+            if ng == 0:
+                print(f"chan {ds.channum:3d} {0:6d} pulses good")
+                continue
             dt = (ds.p_timestamp[good][-1] * 1.0 - ds.p_timestamp[good][0])  # seconds
             npulse = np.arange(len(good))[good][-1] - good.argmax() + 1
             rate = (npulse - 1.0) / dt
-- 
2.43.0


From 9ce43d0677d6ecb0820a79d1007fbec0ba89887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 172/174] fix: summarize_filters ignored the pulse height in
 the predicted resolution

---
 mass/core/channel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 9864822..4c20385 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1034,10 +1034,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for i, ds in enumerate(self):
             try:
                 if ds.filter is not None:
-                    rms = ds.filter.variance**0.5
+                    v_dv = ds.filter.predicted_v_over_dv
                 else:
                     rms = ds.hdf5_group[f'filters/filt_{filter_name}'].attrs['variance']**0.5
-                v_dv = (1 / rms) / rms_fwhm
+                    v_dv = (1 / rms) / rms_fwhm
                 LOG.info("Chan %3d filter %-15s Predicted V/dV %6.1f  Predicted res at %.1f eV: %6.1f eV",
                          ds.channum, filter_name, v_dv, std_energy, std_energy / v_dv)
             except Exception as e:
-- 
2.43.0


From 10111d3a05b6d791b810e9444886ec188c4ea4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 173/174] fix: EnergyCalibration.plot error bars on logarithmic
 plots

---
 mass/calibration/energy_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 83f5259..7c5b9ea 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -722,7 +722,9 @@ class EnergyCalibration:  # noqa: PLR0904
             axis.plot(xplot, yplot - dyplot, color=color, alpha=0.35)
 
         # Plot and label cal points
-        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5 * y
+        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5
+        if plottype not in {"loggain", "loglog"}:
+            dy = dy * y
         axis.errorbar(x, y - slope * x, yerr=dy, xerr=xerr, fmt='o',
                       mec='black', mfc=markercolor, capsize=0)
         axis.grid(True)
-- 
2.43.0


From e66565962e70aae3316d854ed1555ee463033d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 174/174] fix: OFF plots drew or labelled the current axes
 rather than the axis given

---
 mass/off/channels.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index c3195ee..5756a9c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -98,7 +98,7 @@ class CorG:
             states = self.stateLabels
         if coAddStates:
             # Passing a sequence as a label is deprecated in Matplotlib 3.9, so make it a string
-            label = ", ".join(states)
+            label = ", ".join(util.iterstates(states))
             x, y = self.hist(binEdges, attr, states=states, cutRecipeName=cutRecipeName)
             axis.plot(x, y, drawstyle="steps-mid", label=label)
         else:
@@ -107,7 +107,7 @@ class CorG:
                 axis.plot(x, y, drawstyle="steps-mid", label=state)
         axis.set_xlabel(attr)
         axis.set_ylabel("counts per %0.1f unit bin" % (binEdges[1] - binEdges[0]))
-        plt.legend(title="states")
+        axis.legend(title="states")
         axis.set_title(self.shortName)
         annotate_lines(axis, labelLines)
         return axis
@@ -476,10 +476,10 @@ class Channel(CorG):  # noqa: PLR0904
         counts, binEdgesA, binEdgesB = np.histogram2d(vA, vB, binEdgesAB)
         binCentersA = 0.5 * (binEdgesA[1:] + binEdgesA[:-1])
         binCentersB = 0.5 * (binEdgesB[1:] + binEdgesB[:-1])
-        plt.contourf(binCentersA, binCentersB, counts.T, norm=norm)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.contourf(binCentersA, binCentersB, counts.T, norm=norm)
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
         return axis
 
     def plotAvsB(self, nameA, nameB, axis=None, states=None, includeBad=False, cutRecipeName=None):
@@ -493,10 +493,10 @@ class Channel(CorG):  # noqa: PLR0904
             self._plotAvsB_list(nameA, nameB, axis, states, includeBad, cutRecipeName)
         else:
             self._plotAvsB_single(nameA, nameB, axis, states, includeBad, cutRecipeName)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
-        plt.legend(title="states")
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.legend(title="states")
         return axis
 
     def _plotAvsB_list(self, nameA, nameBlist, axis, states, includeBad, cutRecipeName):
@@ -611,10 +611,10 @@ class Channel(CorG):  # noqa: PLR0904
                                         "filtValueDC"], state, f"!{cutRecipeName}")
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
-        plt.xlabel(indicatorName)
-        plt.ylabel(uncorrectedName + ",filtValueDC")
-        plt.title(self.shortName + " drift correct comparison")
-        plt.legend(title="states")
+        axis.set_xlabel(indicatorName)
+        axis.set_ylabel(uncorrectedName + ",filtValueDC")
+        axis.set_title(self.shortName + " drift correct comparison")
+        axis.legend(title="states")
         return axis
 
     def calibrationPlanInit(self, attr):
-- 
2.43.0

