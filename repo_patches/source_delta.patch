From 69fd8f84d872baae9f940cd18e86507c5eb1c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 001/122] fix: OffFile header length counts bytes, not
 characters

The header of an OFF file is UTF-8 JSON, and the model matrices and records follow it.
With any non-ASCII character in the header, they were read from the wrong offset.
---
 mass/off/off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..f81c2b4 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,7 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            self.headerStringLength = len(self.headerString.encode("utf-8"))  # in bytes, not characters
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From f88b938fdefa629a128ffa3f48a54c73dae8242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 002/122] fix: a failed OffFile refresh leaves the record count
 as it was

---
 mass/off/off.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index f81c2b4..6296c36 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -108,11 +108,12 @@ class OffFile:
         fileSize = os.path.getsize(self.filename)
         recordSize = fileSize - self.afterHeaderPos
         if _nRecords is None:
-            self.nRecords = recordSize // self.dtype.itemsize
+            nRecords = recordSize // self.dtype.itemsize
         else:  # for testing only
-            self.nRecords = _nRecords
+            nRecords = _nRecords
         self._mmap = np.memmap(self.filename, self.dtype, mode="r",
-                               offset=self.afterHeaderPos, shape=(self.nRecords,))
+                               offset=self.afterHeaderPos, shape=(nRecords,))
+        self.nRecords = nRecords  # only once the records are mapped
         self.shape = self._mmap.shape
 
     def __getitem__(self, *args, **kwargs):
-- 
2.43.0


From 975cbe5d69be14bdb182cb0c4e2b52a2aa899620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 003/122] fix: keep experiment-state start times as exact
 integer nanoseconds

They became float64, which cannot represent a present-day unixnano to better than 256 ns.
---
 mass/off/experiment_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..675a222 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,7 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
-- 
2.43.0


From 16d478b17e77f265ecd210de77669da2c293fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:56 +0000
Subject: [PATCH 004/122] fix: ExperimentStateFile.parse leaves a partly
 written last line for the next call

A line caught while it was being written was either taken in with a cut label, and the
rest of it made every later parse fail, or it raised.
---
 mass/off/experiment_state.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 675a222..3990469 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -35,14 +35,19 @@ class ExperimentStateFile:
         return basename + "_experiment_state.txt"
 
     def parse(self):
-        with open(self.filename, "r", encoding="utf-8") as f:
+        with open(self.filename, "rb") as f:
             # if we call parse a second time, we want to add states rather than reparse the whole file
             f.seek(self.parse_start)
-            lines = f.readlines()
-            parse_end = f.tell()
+            data = f.read()
+        # A last line without a line end is still being written: leave it for the next call to parse
+        data = data[:data.rfind(b"\n") + 1]
+        lines = data.decode("utf-8").split("\n")[:-1]
+        parse_end = self.parse_start + len(data)
         if self.parse_start == 0:
+            if len(lines) == 0:
+                raise Exception("no complete header line in file")
             header_line = lines[0]
-            if header_line[0] != "#":
+            if not header_line.startswith("#"):
                 raise Exception(f"first line should start with #, was {header_line}")
             lines = lines[1:]
             if len(lines) == 0:
-- 
2.43.0


From 12cd1d386fa59380af4a6f91dc899924b3747024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 005/122] fix: refreshing a states dictionary extends the state
 that is active

calcStatesDict extended the state that was first seen last, which is another one if the
active label is a repeated or an excluded one, and failed if that state was a list of
slices. And "auto" excludes were decided at the first parse, so START kept its records
if the file was opened before the first non-trivial label was written.
---
 mass/off/experiment_state.py | 52 ++++++++++++++----------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 3990469..7b68c66 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -84,15 +84,16 @@ class ExperimentStateFile:
 
     def applyExcludesToLabels(self, allLabels):
         """
-        Recalculate self.excludeStates (possibly).
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
+        (if that is "auto", those that calculateAutoExcludes finds for the labels known so far).
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
-            self.excludeStates = self.calculateAutoExcludes()
+        excludeStates = self.excludeStates
+        if excludeStates == "auto":
+            excludeStates = self.calculateAutoExcludes()
         r = []
         for label in allLabels:
-            if label in self.excludeStates or label in r:
+            if label in excludeStates or label in r:
                 continue
             r.append(label)
         return r
@@ -111,40 +112,27 @@ class ExperimentStateFile:
 
         newLabels = self.allLabels[i0_allLabels:]
 
-        if statesDict is None:
-            statesDict = collections.OrderedDict()
-
-        # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
-        if len(statesDict.keys()) > 0 and len(newLabels) == 0:
-            assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
-            return statesDict
-
         # unixnanos = new record timestamps
         # self.unixnanos[i0_allLabels] is the state start times of the new states
         # i0_unixnanos is how many records were alraedy indexed
         # inds is an np.array of the indices where the new states fit
         #   in with the new records
         inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:]) + i0_unixnanos
-        # the state that was active last time calcStatesDict was called may need special handling
-        if len(statesDict.keys()) > 0 and len(newLabels) > 0:
-            assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+        # states that "auto" excludes only now that a non-trivial label has appeared
+        for label in set(statesDict.keys()).difference(self.labels):
+            del statesDict[label]
+        # the state that was active last time calcStatesDict was called (unless it was an excluded one) goes on
+        # until the first new label, or the last new record if there is none
+        if i0_allLabels > 0:
+            activeLabel = self.allLabels[i0_allLabels - 1]
+            activeState = self.labelAliasesDict.get(activeLabel, activeLabel)
+            if activeLabel in self.unaliasedLabels and activeState in statesDict:
+                stop = inds[0] if len(inds) > 0 else len(unixnanos) + i0_unixnanos
+                v = statesDict[activeState]
+                if isinstance(v, list):
+                    v[-1] = slice(v[-1].start, stop)
+                else:
+                    statesDict[activeState] = slice(v.start, stop)
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
-- 
2.43.0


From f2fc3d93b2f18761cc438550c864acd0ad2ce6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 006/122] fix: a state label that several labels are aliased to
 is listed once

It was listed once per label, so that plotHist counted its records that many times and
histsToHDF5 failed.
---
 mass/off/experiment_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 7b68c66..2ea7bbd 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -177,4 +177,5 @@ class ExperimentStateFile:
 
     @property
     def labels(self) -> list[str]:
-        return [self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels]
+        # unique, even if several labels have the same alias
+        return list(dict.fromkeys(self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels))
-- 
2.43.0


From ecd6c4222495380303f1b55476d9793f24997b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 007/122] fix: ChannelGroup.refreshFromFiles attributes all
 records to states anew

Records that reached the disk before their label stayed with the previous state for good,
a channel marked bad during one refresh was attributed wrongly from then on, and labels
that replaced START as the only state were not counted as new.
---
 mass/off/channels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..a227d37 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1195,16 +1195,16 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         to be called occasionally when running something that updates in real time
         """
         ds = self.firstGoodChannel()
-        i0_allLabels = len(self.experimentStateFile.allLabels)
-        n_old_labels = len(self.experimentStateFile.labels)
+        old_labels = set(self.experimentStateFile.labels)
         self.experimentStateFile.parse()
-        n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
+        n_new_labels = len(set(self.experimentStateFile.labels) - old_labels)
         n_new_pulses_dict = collections.OrderedDict()
         for ds in self.values():
             i0_unixnanos = len(ds)
             ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
+            # Index all records, not only the new ones: the label of a record can reach the disk after the record,
+            # and a channel marked bad for a while may have missed labels.
+            ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano)
             n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
         return n_new_labels, n_new_pulses_dict
 
-- 
2.43.0


From 4771080a3bcead3dbfb0f212fad4a65050fb942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:58 +0000
Subject: [PATCH 008/122] fix: nearest_arrivals is exact for no pulses and for
 a single trigger

---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..36f1567 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -693,7 +693,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
@@ -744,12 +744,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From 84f663fcbc947b1c528f808b8770fa492c502024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 009/122] fix: ChannelGroup closes the external trigger file it
 reads

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index a227d37..405e80b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1434,9 +1434,9 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
     def _externalTriggerSubframes(self, filename=None):
         if filename is None:
             filename = self._externalTriggerFilename()
-        f = open(filename, "rb")
-        f.readline()  # discard comment line
-        external_trigger_subframe_count = np.fromfile(f, "int64")
+        with open(filename, "rb") as f:
+            f.readline()  # discard comment line
+            external_trigger_subframe_count = np.fromfile(f, "int64")
         return external_trigger_subframe_count
 
     def calcExternalTriggerTiming(self, after_last=True, until_next=False, from_nearest=False):
-- 
2.43.0


From 9710ec7e0e2d4e531eaf368619e962c3f2b2a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 010/122] fix: OFF external trigger timing uses the header's
 SubframeDivisions

---
 mass/off/channels.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 405e80b..5863aee 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -862,7 +862,7 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        return hdr.get("SubframeDivisions", hdr["NumberOfRows"])
 
     @property
     def subframePeriodSeconds(self):
@@ -877,17 +877,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From 0d18aa8aa0a20178233e486909df689e81f499d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 011/122] fix: TESGroup.calc_external_trigger_timing reads the
 group's trigger counts

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..fcf4c48 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -623,8 +623,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From 99b01c151531ad243e637319d4a0f1320d634127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 012/122] fix: ljh_append_traces refuses unsuitable
 destinations and stays aligned after a torn record

---
 mass/core/ljh_modify.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..9d7d115 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -154,9 +154,18 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     """
 
     src = LJHFile.open(src_name)
+    dest = LJHFile.open(dest_name)
+    if os.path.samefile(src_name, dest_name):
+        raise ValueError(f"Source '{src_name}' and destination '{dest_name}' are the same file, which is not allowed.")
+    if Version(dest.version_str.decode()) < Version("2.2.0"):
+        raise ValueError(f"Don't know how to append to this LJH version [{dest.version_str}]")
+    if dest.nSamples != src.nSamples:
+        raise ValueError(f"Cannot append records of {src.nSamples} samples to a file with {dest.nSamples} samples per record")
     if pulses is None:
         pulses = range(src.nPulses)
     with open(dest_name, "ab") as dest_fp:
+        # If the destination ends with an incomplete record, append after its last complete one.
+        dest_fp.truncate(dest.header_size + dest.nPulses * dest.pulse_size_bytes)
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
 
-- 
2.43.0


From 5ef1fc895616b44cf7ecc6972d28ef186a4f76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 013/122] fix: LJH tools report a failed write of pulse data
 (ndarray.tofile can lose it silently)

---
 mass/core/ljh_modify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 9d7d115..06f627a 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -107,7 +107,7 @@ def helper_write_pulse(dest, src, i):
     dest.write(prefix)
     prefix = struct.pack('<Q', int(timestamp_usec))
     dest.write(prefix)
-    trace.tofile(dest, sep="")
+    dest.write(trace.tobytes())
 
 
 def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
@@ -224,4 +224,4 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
             prefix = struct.pack('<Q', np.uint64(infile.datatimes_raw[i]))
             outfile.write(prefix)
             trace = infile.alldata[i, :]
-            trace.tofile(outfile, sep="")
+            outfile.write(trace.tobytes())
-- 
2.43.0


From 08263a578020e9af339d8e0bc87298271cc8aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 014/122] fix: ljh_truncate writes the identical header, as
 documented

---
 mass/core/ljh_modify.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 06f627a..9533ffa 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -74,6 +74,12 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
         updater.update(1.0)
 
 
+def raw_header(ljhfile):
+    """The complete header of an open LJHFile, exactly as stored on disk."""
+    with open(ljhfile.filename, "rb") as fp:
+        return fp.read(ljhfile.header_size)
+
+
 # A callback that does nothing
 def dummy_callback(data):
     return data
@@ -208,10 +214,7 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
         raise Exception(f"Don't know how to truncate this LJH version [{infile.version_str}]")
 
     with open(output_filename, "wb") as outfile:
-        # write the header as a single string.
-        for (k, v) in infile.header_dict.items():
-            outfile.write(k + b": " + v + b"\r\n")
-        outfile.write(b"#End of Header\r\n")
+        outfile.write(raw_header(infile))
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
         if n_pulses is None:
-- 
2.43.0


From 0367355625a0b13f15342df3a334fdb21556e3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 015/122] fix: LJHModify works, and keeps every record's time
 and frame count

---
 mass/core/ljh_modify.py | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 9533ffa..70eb282 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -44,32 +44,19 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
     infile = LJHFile.open(input_filename)
     with open(output_filename, "wb") as outfile:
         # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        outfile.write(raw_header(infile))
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
 
         # Write the modified segdata (and the unmodified row count and timestamps).
         updater = InlineUpdater("LJHModify")
-        if Version(infile.version_str.decode()) >= Version("2.2.0"):
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
-                x["data"] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
-
-        else:
-            for i in range(infile.nPulses):
-                data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
-                x.tofile(outfile)
-                if i % 100 == 0:
-                    updater.update(float(i + 1) / infile.nPulses)
+        for i in range(infile.nPulses):
+            x = np.array(infile._mm[i:i + 1])
+            x["data"] = callback(infile.alldata[i])
+            outfile.write(x.tobytes())
+            if i % 100 == 0:
+                updater.update(float(i + 1) / infile.nPulses)
 
         updater.update(1.0)
 
-- 
2.43.0


From 4278bf4960bb367016fe0738edbef11d87154ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 016/122] fix: ljh_copy_traces keeps the source's header facts
 and never destroys its own source

---
 mass/core/ljh_modify.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 70eb282..4a9ad21 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -4,12 +4,12 @@ which can modify existing LJH files.
 """
 
 import os
+import re
 import struct
-import time
 import numpy as np
 from packaging.version import Version
 
-from mass.core.files import LJHFile, make_ljh_header
+from mass.core.files import LJHFile
 from mass.core.utilities import InlineUpdater
 
 
@@ -121,12 +121,15 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
     if os.path.exists(dest_name) and not overwrite:
         raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
 
+    if os.path.exists(dest_name) and os.path.samefile(src_name, dest_name):
+        raise ValueError(f"Source '{src_name}' and destination '{dest_name}' are the same file, which is not allowed.")
+
     src = LJHFile.open(src_name)
 
-    header_dict = src.__dict__.copy()
-    header_dict['asctime'] = time.asctime(time.gmtime())
-    header_dict['version_str'] = '2.2.0'
-    ljh_header = make_ljh_header(header_dict)
+    # Keep the header (number of presamples, timebase, subframe information...), except for the version number.
+    ljh_header = raw_header(src)
+    if Version(src.version_str.decode()) < Version("2.2.0"):
+        ljh_header = re.sub(rb"(?m)^(Save File Format Version:\s*)\S+", rb"\g<1>2.2.0", ljh_header)
 
     with open(dest_name, "wb") as dest_fp:
         dest_fp.write(ljh_header)
-- 
2.43.0


From f4d1d59c9443966b9fcae3d7f3b9316ae74782e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 017/122] fix: ljh_merge never overwrites one of the files it
 merges

---
 bin/ljh_merge | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bin/ljh_merge b/bin/ljh_merge
index c7e40ad..b4a18f4 100755
--- a/bin/ljh_merge
+++ b/bin/ljh_merge
@@ -22,6 +22,8 @@ from mass.core.ljh_modify import ljh_append_traces
 def merge(out_path, filenames, overwrite):
     if not overwrite and os.path.isfile(out_path):
         raise OSError(f"To overwrite destination {out_path}, use the --force flag")
+    if os.path.exists(out_path) and any(os.path.samefile(f, out_path) for f in filenames):
+        raise OSError(f"Destination {out_path} is one of the files to be merged")
     shutil.copy(filenames[0], out_path)
     f = mass.LJHFile.open(out_path)
     channum = f.channum
-- 
2.43.0


From 45fc10e6967c6756ba7f49d74d354038c1e7aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 018/122] fix: ljh2off converts a file with no complete records

---
 mass/core/ljh2off.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..5df5305 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -85,6 +85,9 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
 
     Returns how many records were written"""
 
+    if ljhfile.nPulses == 0:
+        return 0
+
     # To keep linear algebra sizes manageable, loop over the file in segments
     seg_bytes = 2**21
     rec_per_seg = max(seg_bytes // ljhfile.binary_size, 1)
-- 
2.43.0


From 44a82108b35e5c354826e4016734b262cdae9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 019/122] fix: ljh2off keeps exact integer timestamps

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 5df5305..3e3e96c 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -99,7 +99,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         records_written += records_this_seg
 
         data = ljhfile.alldata[idx_lo:idx_lo + rec_per_seg]
-        timestamps = ljhfile.datatimes_float[idx_lo:idx_hi]
+        timestamps_usec = ljhfile.datatimes_raw[idx_lo:idx_hi]
         subframecounts = ljhfile.subframecount[idx_lo:idx_hi]
         projector_record_length = projectors.shape[1]
         data_record_length = data.shape[1]
@@ -120,7 +120,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["recordSamples"] = ljhfile.nSamples
         offdata["recordPreSamples"] = ljhfile.nPresamples
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
-        offdata["unixnano"] = timestamps * 1e9
+        offdata["unixnano"] = np.asarray(timestamps_usec, dtype=np.int64) * 1000
         offdata["pretriggerMean"] = pretrig_mean
         offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
-- 
2.43.0


From 2a06453ca2a02d8c72238a1851df6d88de6bf4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 020/122] fix: ljh2off reports failed writes and always stores
 float64 matrices

---
 mass/core/ljh2off.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 3e3e96c..cad3855 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -70,8 +70,8 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
         f.write(off_header_string_from_ljhfile(
             ljhfile0, projectors, basis, h5_path).encode('utf-8'))
-        projectors.tofile(f)
-        basis.tofile(f)
+        f.write(np.asarray(projectors, dtype=np.float64).tobytes())
+        f.write(np.asarray(basis, dtype=np.float64).tobytes())
         n = ljh_records_to_off(ljhfile0, f, projectors, basis, n_ignore_presamples, dtype)
         assert n == ljhfile0.nPulses, "wrong number of records written"
         for ljhpath in ljhpaths[1:]:
@@ -83,8 +83,14 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
 def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype):
     """append to `f` off file formatted records based on the records in ljhfile.
 
+    `f` is a file opened for binary writing, or the name of a file to (over)write.
+
     Returns how many records were written"""
 
+    if not hasattr(f, "write"):
+        with open(f, "wb") as outfile:
+            return ljh_records_to_off(ljhfile, outfile, projectors, basis, n_ignore_presamples, dtype)
+
     if ljhfile.nPulses == 0:
         return 0
 
@@ -125,7 +131,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
         offdata["coefs"] = mpc.T
-        offdata.tofile(f)
+        f.write(offdata.tobytes())
     return records_written
 
 
-- 
2.43.0


From 5bf226a854ff522cc555cd206bf58b414acfaead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 021/122] fix: ljh2off_loop never empties the state file when
 it is both source and destination

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index cad3855..c11dca9 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -176,7 +176,8 @@ def ljh2off_loop(ljhpath, h5_path, output_dir, max_channels, n_ignore_presamples
     source_experiment_state_filename = f"{basename}_experiment_state.txt"
     sink_experiment_state_filename = f"{off_basename}_experiment_state.txt"
     if os.path.isfile(source_experiment_state_filename):
-        if source_experiment_state_filename != sink_experiment_state_filename:
+        if not (os.path.exists(sink_experiment_state_filename)
+                and os.path.samefile(source_experiment_state_filename, sink_experiment_state_filename)):
             with open(source_experiment_state_filename, "r", encoding="utf8") as f_source:
                 with open(sink_experiment_state_filename, "w", encoding="utf8") as f_sink:
                     for line in f_source:
-- 
2.43.0


From ebae9951565b6dcf35f8fdc0349d0500b0053502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 022/122] fix: compiled summary handles 65536 or more records
 in one segment

---
 mass/core/cython_channel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..a11827c 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,7 +46,7 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
+        Py_ssize_t nPulses, nSamples, seg_size
         unsigned short e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
-- 
2.43.0


From 879db42e2f23450f1e8a5bdaabd00f838f0ebae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:31 +0000
Subject: [PATCH 023/122] fix: arrival-time filtering with a transform uses the
 segment's own records

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..b777e92 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1447,7 +1447,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
-- 
2.43.0


From 3dd3769066092c8c67de16805757f903fddc1577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 024/122] fix: a torn last record does not create an empty
 segment

---
 mass/core/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..8b08f7b 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -302,7 +302,8 @@ class LJHFile(MicrocalFile):
                 f"segmentsize={segmentsize} is not permitted to be smaller than pulse record ({self.pulse_size_bytes} bytes)")
         self.segmentsize = maxitems * self.pulse_size_bytes
         self.pulses_per_seg = self.segmentsize // self.pulse_size_bytes
-        self.n_segments = 1 + (self.binary_size - 1) // self.segmentsize
+        # Count only the complete records: a partial record at the end of the file needs no segment.
+        self.n_segments = 1 + (self.nPulses - 1) // self.pulses_per_seg
 
     def _open_mm(self):
         self._mm = np.memmap(self.filename, offset=self.header_size, shape=(self.nPulses,),
-- 
2.43.0


From ed906672d8bbbd698c9c1450967b5da16778c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 025/122] fix: rise time of a pulse does not depend on the
 other pulses of its segment

---
 mass/core/analysis_algorithms.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 36f1567..0b37592 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -67,11 +67,11 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         baseline_value = pulse_data.min(axis=1)
         nPretrig = 0
     value_at_peak = pulse_data.max(axis=1) - baseline_value
-    idx_last_pk = pulse_data.argmax(axis=1).max()
+    peak_too_early = pulse_data.argmax(axis=1) < nPretrig
 
     npulses = pulse_data.shape[0]
     try:
-        rising_data = ((pulse_data[:, nPretrig:idx_last_pk+1] - baseline_value[:, np.newaxis]) /
+        rising_data = ((pulse_data[:, nPretrig:] - baseline_value[:, np.newaxis]) /
                        value_at_peak[:, np.newaxis])
         # Find the last and first indices at which the data are in (0.1, 0.9] times the
         # peak value. Then make sure last is at least 1 past first.
@@ -87,6 +87,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         time_diff = timebase*(last_idx-first_idx)
         rise_time = time_diff / y_diff
         rise_time[y_diff <= 0] = -9.9e-6
+        rise_time[peak_too_early] = -9.9e-6
         return rise_time
 
     except ValueError:
-- 
2.43.0


From 7c46afbdd461f82ef926ac5b525bb22d75e632ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 026/122] fix: post-peak derivative never reads beyond the end
 of the record

---
 mass/core/analysis_algorithms.pyx | 5 +++++
 mass/core/cython_channel.pyx      | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 0b37592..5542597 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -173,6 +173,11 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
         pulse_data.shape = (1, pulse_data.shape[0])
+    # The kernel (and the spike rejection) need this many samples, even if the peak is too close to the end.
+    min_samples = 7 if spike_reject else 5
+    if pulse_data.shape[1] < min_samples:
+        raise ValueError(f"compute_max_deriv needs at least {min_samples} samples per pulse")
+    ignore_leading = min(ignore_leading, pulse_data.shape[1] - min_samples)
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a11827c..7ce39ee 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -67,6 +67,12 @@ def summarize_data_cython(
 
     e_nPresamples = nPresamples - pretrigger_ignore
 
+    # The post-peak derivative needs 7 samples, even if the peak is too close to the end of the record.
+    if nSamples < 7:
+        raise ValueError("summarize_data_cython needs at least 7 samples per pulse")
+    if peak_samplenumber > nSamples - 7:
+        peak_samplenumber = nSamples - 7
+
     # Buffers for a single segment calculation.
     p_pretrig_mean_array = np.empty(seg_size, dtype=np.float32)
     p_pretrig_rms_array = np.empty(seg_size, dtype=np.float32)
-- 
2.43.0


From c51acc0ffaef1e79606f95e40548895a5db4ff59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:27 +0000
Subject: [PATCH 027/122] fix: a flat record does not make the compiled summary
 divide by zero

---
 mass/core/cython_channel.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index 7ce39ee..b34c07d 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -147,7 +147,7 @@ def summarize_data_cython(
 
         p_pretrig_mean_array[j] = <float>ptm
         p_pretrig_rms_array[j] = <float>ptrms
-        if ptm < peak_value:
+        if ptm + 0.5 < peak_value:  # so that the rounded peak height is at least 1
             peak_value -= <unsigned short>(ptm+0.5)
             p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
             p_peak_value_array[j] = <unsigned short>peak_value
-- 
2.43.0


From f735934c4ace261a6a546e6bc43f5754b5282929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 028/122] fix: LJH 2.1 frame counts do not truncate the frame
 period to whole nanoseconds

---
 mass/core/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 8b08f7b..314b0b7 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -379,9 +379,9 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        NS_PER_FRAME = round(self.timebase * 1e9, 6)  # need not be a whole number
         FOURPOINT = 3  # account for 4-point triggering algorithm
-        self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
+        self.frame_count = (1 + FOURPOINT) + np.asarray((datatime_ns - 1) // NS_PER_FRAME, dtype=np.int64)
 
     @property
     def subframecount(self):
-- 
2.43.0


From fd1765595722beb03d2ed7a91e8dcfdee1d56164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 029/122] fix: an LJH header is complete only with the end of
 its last line

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 314b0b7..1082bfe 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -145,7 +145,7 @@ def read_ljh_header(filename):
         while True:
             i += 1
             line = fp.readline()
-            if line.startswith(b"#End of Header"):
+            if line.startswith(b"#End of Header") and line.endswith(b"\n"):
                 break
             if line == b"":
                 raise Exception("reached EOF before #End of Header")
-- 
2.43.0


From a2e4c9eec5df17fb3b7dae3911b6b21cd99d98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 030/122] fix: an interrupted (un)registration of a cut field
 neither loses bits nor mixes up categories

The bits in use were kept in an attribute of their own, written after the field
descriptions. When the process was stopped between the two writes, a later field was
given the bits of an existing one (so cutting one cut the other), or the bits were
never available again. Take the bits in use from the descriptions themselves, and
drop category entries left by an unfinished registration of the same field.
---
 mass/core/cut.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..76182a2 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -182,6 +182,16 @@ class CutFieldMixin:
 
         raise ValueError("No available cut bit.")
 
+    def __registered_bits(self):
+        """The bits that belong to registered fields. The descriptions themselves are consulted, because
+        `cut_used_bit_flags` can be out of date if an earlier (un)registration was interrupted."""
+        bits = np.uint32(0)
+        for desc in ("cut_boolean_field_desc", "cut_categorical_field_desc"):
+            if desc in self.hdf5_file.attrs:
+                for mask in self.hdf5_file.attrs[desc]["mask"]:
+                    bits |= mask
+        return bits
+
     def register_boolean_cut_fields(self, *names):
         """Register one or more boolean cut field(s).
         If any of given boolean cut fields already exist, it silently ignore.
@@ -190,7 +200,7 @@ class CutFieldMixin:
              names (sequence of str): name(s) of one or more cut fields(s).
         """
         boolean_fields = self.boolean_cut_desc
-        cut_used_bit_flags = self.cut_used_bit_flags
+        cut_used_bit_flags = self.__registered_bits()
 
         new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
 
@@ -220,15 +230,12 @@ class CutFieldMixin:
             if not name or name not in boolean_fields['name']:
                 raise KeyError(f"{name.decode():s} is not a registered boolean field.")
 
-        clear_mask = np.uint32(0)
-
         for i in range(32):
             if boolean_fields[i][0] in enc_names:
-                clear_mask |= boolean_fields[i][1]
                 boolean_fields[i] = (b'', 0)
 
         self.boolean_cut_desc = boolean_fields
-        self.cut_used_bit_flags &= ~clear_mask
+        self.cut_used_bit_flags = self.__registered_bits()
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
         """Register one categorical cut field.
@@ -240,7 +247,7 @@ class CutFieldMixin:
             default (str): the name of default category.
         """
         categorical_fields = self.categorical_cut_desc
-        cut_used_bit_flags = self.cut_used_bit_flags
+        cut_used_bit_flags = self.__registered_bits()
 
         if name.encode() in categorical_fields["name"]:
             return
@@ -284,13 +291,16 @@ class CutFieldMixin:
             new_list.append((name.encode(), category.encode(), code >> lowest_bit_pos))
 
         new_list = np.array(new_list, dtype=self.CUT_CATEGORY_LIST_DTYPE)
-        self.cut_category_list = np.hstack([self.cut_category_list, new_list])
+        # (If an earlier registration of this field was interrupted, its entries are replaced.)
+        category_list = self.cut_category_list
+        other_fields = category_list[category_list["field"] != name.encode()]
+        self.cut_category_list = np.hstack([other_fields, new_list])
 
         # Needs to update the 'cut_categorical_field_desc' attribute.
         field_desc_item = np.array([(name.encode(), bit_mask)],
                                    dtype=self.CUT_CATEGORICAL_FIELD_DESC_DTYPE)
         self.categorical_cut_desc = np.hstack([categorical_fields, field_desc_item])
-        self.cut_used_bit_flags |= bit_mask
+        self.cut_used_bit_flags = self.__registered_bits()
 
     def unregister_categorical_cut_field(self, name):
         """Unregister one categorical cut field
@@ -309,11 +319,10 @@ class CutFieldMixin:
 
         new_categorical_fields = categorical_fields[categorical_fields['name'] != name.encode()]
         new_category_list = category_list[category_list['field'] != name.encode()]
-        clear_mask = categorical_fields['mask'][categorical_fields['name'] == name.encode()][0]
 
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
-        self.cut_used_bit_flags &= ~clear_mask
+        self.cut_used_bit_flags = self.__registered_bits()
 
 
 class Cuts:
-- 
2.43.0


From e314ab8ec6642ec3ea2e97afa81841e804eb53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:09 +0000
Subject: [PATCH 031/122] fix: a newly registered cut field starts clean

Unregistering a field left its bits set in the pulses' cut masks, so the next field
registered was given those bits and appeared to have been applied already.
---
 mass/core/cut.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 76182a2..27e27e7 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,6 +192,13 @@ class CutFieldMixin:
                     bits |= mask
         return bits
 
+    def __clear_unregistered_bits(self, bits):
+        """Clear `bits` in all cut masks: they may still be set on behalf of a field unregistered since."""
+        for key in self.hdf5_file:
+            mask = self.hdf5_file.get(f"{key}/cuts/mask")
+            if mask is not None and np.any(mask[...] & bits):
+                mask[...] &= ~np.asarray(bits, dtype=mask.dtype)
+
     def register_boolean_cut_fields(self, *names):
         """Register one or more boolean cut field(s).
         If any of given boolean cut fields already exist, it silently ignore.
@@ -210,6 +217,8 @@ class CutFieldMixin:
             boolean_fields[available_bit_pos] = (new_field, uint32_one << available_bit_pos)
             cut_used_bit_flags |= (uint32_one << available_bit_pos)
 
+        if new_fields:
+            self.__clear_unregistered_bits(cut_used_bit_flags & ~self.__registered_bits())
         self.boolean_cut_desc = boolean_fields
         self.cut_used_bit_flags = cut_used_bit_flags
 
@@ -283,6 +292,8 @@ class CutFieldMixin:
             bit_mask |= (uint32_one << bit_pos)
             individual_bit_masks.insert(0, uint32_one << bit_pos)
 
+        self.__clear_unregistered_bits(bit_mask)
+
         # Updates the 'cut_category_list' attribute
         new_list = []
         for i, category in enumerate(category_list):
-- 
2.43.0


From 5b0bda428e7589978f6eb4f0df65250c1d785f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:28 +0000
Subject: [PATCH 032/122] fix: refuse names too long for a cut field or
 category

Names are stored in 64-byte fields. A longer one was truncated silently, so that it
could never be found again: it could not be used or unregistered, and registering it
again used up another bit.
---
 mass/core/channel_group.py | 5 ++++-
 mass/core/cut.py           | 9 +++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index fcf4c48..a86d801 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -214,7 +214,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 self.experimentStateFile = mass.off.channels.ExperimentStateFile(
                     experimentStateFile, excludeStates=excludeStates)
             if self.experimentStateFile is not None:
-                valid_state_labels = self.experimentStateFile.labels
+                # A label too long to be stored cannot be selected: its pulses stay uncategorized.
+                maxlen = self.CUT_CATEGORY_LIST_DTYPE["category"].itemsize
+                valid_state_labels = [label for label in self.experimentStateFile.labels
+                                      if len(label.encode()) <= maxlen]
                 self.register_categorical_cut_field("state", valid_state_labels)
 
         # Set up other aspects of the object
diff --git a/mass/core/cut.py b/mass/core/cut.py
index 27e27e7..c08b1d2 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -182,6 +182,12 @@ class CutFieldMixin:
 
         raise ValueError("No available cut bit.")
 
+    def __check_length(self, *names):
+        """Names are stored in fixed-length fields; one that doesn't fit could never be found again."""
+        for name in names:
+            if len(name.encode()) > self.CUT_BOOLEAN_FIELD_DESC_DTYPE["name"].itemsize:
+                raise ValueError(f"the name '{name}' is too long for a cut field or category")
+
     def __registered_bits(self):
         """The bits that belong to registered fields. The descriptions themselves are consulted, because
         `cut_used_bit_flags` can be out of date if an earlier (un)registration was interrupted."""
@@ -209,6 +215,7 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.__registered_bits()
 
+        self.__check_length(*names)
         new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
 
         uint32_one = np.uint32(1)
@@ -271,6 +278,8 @@ class CutFieldMixin:
 
         default = str(default)
 
+        self.__check_length(name, default, *category_list)
+
         # if the default category is already included, it's temporarily removed from the category_list
         # and insert into at the head of the category_list.
         if default in category_list:
-- 
2.43.0


From 2cff1f260f72cc7eaf6728c62954172ea69c7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:28 +0000
Subject: [PATCH 033/122] fix: experiment states are stored under the codes
 their labels are registered with

The codes were assumed to be 1, 2, 3... in the order of the states found, which fails
when the field's bits are not adjacent (fields were unregistered before the state file
appeared) or when the labels were registered in another order.
---
 mass/core/channel.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index b777e92..c5da9cb 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1055,16 +1055,15 @@ class MicrocalDataSet:  # noqa: PLR0904
         slicedict = esf.calcStatesDict(nano)
 
         state_codes = np.zeros(self.nPulses, dtype=np.uint32)
-        for id, state in enumerate(slicedict.keys()):
-            slices = slicedict[state]
-
+        known_codes = self.tes_group.cut_field_categories("state")
+        for state, slices in slicedict.items():
             # Ensure `slices` is a list of slices, even if it's a single slice
             if not isinstance(slices, list):
                 slices = [slices]
 
             # Assign codes for each slice in the list
             for slice in slices:
-                state_codes[slice.start:slice.stop] = id + 1
+                state_codes[slice.start:slice.stop] = known_codes.get(state, 0)
 
         self.cuts.cut("state", state_codes)
 
-- 
2.43.0


From babdcbab4ccf0937fce49bee261e75e3fc6ef21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:57 +0000
Subject: [PATCH 034/122] fix: experiment states that appear after the first
 analysis session get a category

Opening a group registers the labels of the experiment-state file, but an existing
categorical field was left as it was, so that labels new since the previous session
could not be selected (and their pulses were stored under codes with no label).
---
 mass/core/cut.py | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index c08b1d2..ea014c6 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -260,12 +260,14 @@ class CutFieldMixin:
             name (str): the name of a new categorical cut field.
             categories (list[str]): the list of the names of categories of the cut field.
                 "uncategorized" category will be added if it doesn't have already.
+                If the field exists already, the categories that it lacks are added.
             default (str): the name of default category.
         """
         categorical_fields = self.categorical_cut_desc
         cut_used_bit_flags = self.__registered_bits()
 
         if name.encode() in categorical_fields["name"]:
+            self.__add_categories(name, categories)
             return
 
         # categories might be an immutable tuple.
@@ -322,6 +324,46 @@ class CutFieldMixin:
         self.categorical_cut_desc = np.hstack([categorical_fields, field_desc_item])
         self.cut_used_bit_flags = self.__registered_bits()
 
+    def __add_categories(self, name, categories):
+        """Add categories to the existing categorical cut field `name`, unless it has them already."""
+        category_list = self.cut_category_list
+        known = category_list[category_list["field"] == name.encode()]
+        new_categories = [c for c in dict.fromkeys(map(str, categories)) if c.encode() not in known["category"]]
+        if not new_categories:
+            return
+        self.__check_length(*new_categories)
+
+        categorical_fields = self.categorical_cut_desc
+        field = np.flatnonzero(categorical_fields["name"] == name.encode())[0]
+        bits = [i for i in range(32) if (int(categorical_fields["mask"][field]) >> i) & 1]
+        old_lowest = bits[0]
+        # More bits may be needed. Prefer higher ones, with which the existing codes remain the same.
+        used = int(self.__registered_bits())
+        available = [i for i in [*range(old_lowest + 1, 32), *range(old_lowest)] if not (used >> i) & 1]
+        n_more = max(0, (len(known) + len(new_categories) - 1).bit_length() - len(bits))
+        if n_more > len(available):
+            raise ValueError("No available cut bit.")
+        bits = sorted(bits + available[:n_more])
+        mask = np.uint32(sum(1 << i for i in bits))
+
+        values = {int(code) << old_lowest for code in known["code"]}
+        unused = []
+        for i in range(1 << len(bits)):
+            value = sum(1 << b for k, b in enumerate(bits) if (i >> k) & 1)
+            if value not in values:
+                unused.append(value)
+
+        new_list = [(field_name, category, (int(code) << old_lowest >> bits[0]) if field_name == name.encode() else code)
+                    for field_name, category, code in category_list]
+        new_list += [(name.encode(), category.encode(), value >> bits[0])
+                     for category, value in zip(new_categories, unused)]
+        if n_more > 0:
+            self.__clear_unregistered_bits(mask & ~self.__registered_bits())
+            categorical_fields["mask"][field] = mask
+            self.categorical_cut_desc = categorical_fields
+        self.cut_category_list = np.array(new_list, dtype=self.CUT_CATEGORY_LIST_DTYPE)
+        self.cut_used_bit_flags = self.__registered_bits()
+
     def unregister_categorical_cut_field(self, name):
         """Unregister one categorical cut field
 
-- 
2.43.0


From d8ba05bc8c10cae160a25a908c95a068ba771356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 035/122] fix: remember the choices made in summarize_data when
 an analysis is reopened

---
 mass/core/channel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c5da9cb..602aaeb 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -729,6 +729,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         if "peak_samplenumber" in self.p_peak_index.attrs:
             self.peak_samplenumber = self.p_peak_index.attrs["peak_samplenumber"]
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            if name in h5grp.attrs:
+                setattr(self, name, int(h5grp.attrs[name]))
 
         # Other vectors needed per-channel
         self.average_pulse = h5grp.require_dataset(
@@ -936,6 +939,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.peak_samplenumber = None
         else:
             self.peak_samplenumber = self.nPresamples + int(peak_time_microsec * 1e-6 / self.timebase)
+            self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
         if pretrigger_ignore_microsec is None:
             self.pretrigger_ignore_samples = 3
         else:
@@ -943,6 +947,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         self.cut_pre = cut_pre
         self.cut_post = cut_post
+        # Later steps use these choices, so they must outlast this session.
+        for name in ("pretrigger_ignore_samples", "cut_pre", "cut_post"):
+            self.hdf5_group.attrs[name] = getattr(self, name)
 
         if use_cython:
             if self.peak_samplenumber is None:
-- 
2.43.0


From e7439cc9804784bf04da35d193efc200775da76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:35 +0000
Subject: [PATCH 036/122] fix: channels know their readout geometry before
 summarize_data is run again

---
 mass/core/channel.py       | 12 ++++++++----
 mass/core/channel_group.py |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 602aaeb..c0b5c6f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -897,6 +897,13 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
         return self.peak_samplenumber
 
+    def _copy_readout_geometry(self):
+        """Copy the facts about how this channel was read out from its data file."""
+        for name in ("number_of_rows", "row_number", "number_of_columns", "column_number",
+                     "subframe_divisions", "subframe_offset"):
+            setattr(self, name, getattr(self.pulse_records.datafile, name, None))
+        self.subframe_timebase = self.timebase / float(self.subframe_divisions)
+
     @show_progress("channel.summarize_data")
     def summarize_data(self, peak_time_microsec=None, pretrigger_ignore_microsec=None,
                        cut_pre=0, cut_post=0,
@@ -921,10 +928,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         use_cython: whether to use cython for summarizing the data (default True).
         doPretrigFit: whether to do a linear fit of the pretrigger data
         """
-        for name in ("number_of_rows", "row_number", "number_of_columns", "column_number",
-                     "subframe_divisions", "subframe_offset"):
-            setattr(self, name, getattr(self.pulse_records.datafile, name))
-        self.subframe_timebase = self.timebase / float(self.subframe_divisions)
+        self._copy_readout_geometry()
 
         not_done = all(self.p_pretrig_mean[:] == 0)
         if not (not_done or forceNew):
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index a86d801..3a4f560 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -328,6 +328,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             ds.times = pr.datafile.datatimes_float
             ds.subframecount = pr.datafile.subframecount
             ds.index = index
+            ds._copy_readout_geometry()
 
         if len(pulse_list) > 0:
             self.pulses_per_seg = pulse_list[0].pulses_per_seg
-- 
2.43.0


From 6d6ad5718e9df51668d60ff53259126ce8fde929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:49 +0000
Subject: [PATCH 037/122] fix: a summary that was interrupted is not taken for
 finished

---
 mass/core/channel.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c0b5c6f..ada5275 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -939,6 +939,10 @@ class MicrocalDataSet:  # noqa: PLR0904
             # make sure vectors are setup correctly
             self.__setup_vectors(npulses=self.pulse_records.nPulses)
 
+        # p_pretrig_mean tells whether the summary exists, so it has to be the last to be stored.
+        self.p_pretrig_mean[:] = 0
+        pretrig_mean = np.zeros(self.nPulses, dtype=self.p_pretrig_mean.dtype)
+
         if peak_time_microsec is None:
             self.peak_samplenumber = None
         else:
@@ -969,7 +973,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
                                   self.pretrigger_ignore_samples, self.nPresamples,
                                   0, end - first)
-                self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
+                pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
                 self.p_pulse_average[idx_slice] = results["pulse_average"][:]
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
@@ -988,14 +992,18 @@ class MicrocalDataSet:  # noqa: PLR0904
                 end = first + self.pulse_records.pulses_per_seg
                 end = min(end, self.nPulses)
                 idx_slice = slice(first, end)
-                MicrocalDataSet._summarize_data_segment(self, idx_slice, doPretrigFit=doPretrigFit)
+                pretrig_mean[idx_slice] = MicrocalDataSet._summarize_data_segment(
+                    self, idx_slice, doPretrigFit=doPretrigFit)
                 yield (segnum + 1.0) / self.pulse_records.n_segments
 
-        self.hdf5_group.file.flush()
         self.__parse_expt_states()
+        self.p_pretrig_mean[:] = pretrig_mean
+        self.hdf5_group.file.flush()
 
     def _summarize_data_segment(self, idx_slice, doPretrigFit=False):
-        """Summarize one segment of the data file, loading it into cache."""
+        """Summarize one segment of the data file, loading it into cache.
+
+        Returns: the pretrigger mean of each pulse, which is for the caller to store."""
         if len(self.p_timestamp) <= 0:
             self.__setup_vectors(npulses=self.nPulses)
 
@@ -1021,7 +1029,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.p_pretrig_deriv[idx_slice] = 0.0
             self.p_pretrig_offset[idx_slice] = 0.0
 
-        self.p_pretrig_mean[idx_slice] = pretrig_data.mean(axis=1)
+        ptm = pretrig_data.mean(axis=1).astype(self.p_pretrig_mean.dtype)
         self.p_pretrig_rms[idx_slice] = pretrig_data.std(axis=1)
         self.p_peak_index[idx_slice] = posttrig_data.argmax(axis=1) + self.nPresamples
         self.p_peak_value[idx_slice] = posttrig_data.max(axis=1)
@@ -1029,7 +1037,6 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.p_pulse_average[idx_slice] = posttrig_data.mean(axis=1)
 
         # Remove the pretrigger mean from the peak value and the pulse average figures.
-        ptm = self.p_pretrig_mean[idx_slice]
         self.p_pulse_average[idx_slice] -= ptm
         self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
         self.p_pulse_rms[idx_slice] = np.sqrt(
@@ -1053,6 +1060,7 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         self.p_postpeak_deriv[idx_slice] = mass.core.analysis_algorithms.compute_max_deriv(
             all_data, ignore_leading=self.peak_samplenumber - self.cut_pre)
+        return ptm
 
     def __parse_expt_states(self):
         """
-- 
2.43.0


From 5f4aa74dacb5d69ce65ae2c3a22bff5701f96cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 038/122] fix: filtering that was interrupted is not taken for
 finished

---
 mass/core/channel.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ada5275..76ad272 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1339,13 +1339,19 @@ class MicrocalDataSet:  # noqa: PLR0904
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
-            self.p_filt_value[:] = fv[:]
-            self.p_filt_phase[:] = fp[:]
-            self.hdf5_group.file.flush()
+            self._store_filter_results(fv, fp)
             return
 
         self._filter_data_nocython(filter_values, transform=transform)
 
+    def _store_filter_results(self, filt_value, filt_phase):
+        """Store the results of filtering all pulses. p_filt_value tells whether they exist, so it is
+        cleared first and stored last."""
+        self.p_filt_value[:] = 0
+        self.p_filt_phase[:] = filt_phase
+        self.p_filt_value[:] = filt_value
+        self.hdf5_group.file.flush()
+
     @show_progress("channel.filter_data_tdm")
     def _filter_data_nocython(self, filter_values, transform=None):
         if self._filter_type == "ats":
@@ -1362,15 +1368,17 @@ class MicrocalDataSet:  # noqa: PLR0904
         else:
             raise ValueError(f"filter_type={self._filter_type}, must be `ats` or `5lag`")
 
+        filt_phase = np.zeros(self.nPulses, dtype=float)
+        filt_value = np.zeros(self.nPulses, dtype=float)
         for s in range(self.pulse_records.n_segments):
             first = s * self.pulse_records.pulses_per_seg
             end = min(self.nPulses, first + self.pulse_records.pulses_per_seg)
-            (self.p_filt_phase[first:end],
-             self.p_filt_value[first:end]) = \
+            (filt_phase[first:end],
+             filt_value[first:end]) = \
                 filterfunction(filter_values, filter_AT, first, end, transform)
             yield (end + 1) / float(self.nPulses)
 
-        self.hdf5_group.file.flush()
+        self._store_filter_results(filt_value, filt_phase)
 
     def get_pulse_model(self, f, f_5lag, n_basis, pulses_for_svd, extra_n_basis_5lag=0,
                         maximum_n_pulses=4000, noise_weight_basis=True, category={}):
-- 
2.43.0


From 965d835c7a4ed03f51708802f5ceada3f327c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 039/122] fix: noise analysis that was interrupted is not taken
 for finished

---
 mass/core/channel.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 76ad272..7c9b4c5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1601,10 +1601,19 @@ class MicrocalDataSet:  # noqa: PLR0904
                 been set (default False).
         """
         if forceNew or all(self.noise_autocorr[:] == 0):
-            self.noise_autocorr[1:] = 0.0
-            self.noise_autocorr[0] = noise_variance
+            autocorr = np.zeros(len(self.noise_autocorr), dtype=float)
+            autocorr[0] = noise_variance
             psd = 2.0 * noise_variance * self.timebase
-            self.noise_psd[:] = psd
+            self._store_noise(autocorr, psd)
+
+    def _store_noise(self, autocorr, psd, delta_f=None):
+        """Store the noise autocorrelation and spectrum. The autocorrelation tells whether they exist, so it
+        is cleared first and stored last."""
+        self.noise_autocorr[:] = 0
+        self.noise_psd[:] = psd
+        if delta_f is not None:
+            self.noise_psd.attrs['delta_f'] = delta_f
+        self.noise_autocorr[:] = autocorr
 
     @_add_group_loop()
     def compute_noise_nlags(self, n_lags, max_excursion=1000, plot=False):
@@ -1646,10 +1655,9 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.noise_records.compute_autocorrelation(
                 n_lags=n_lags, plot=False, max_excursion=max_excursion)
 
-            self.noise_autocorr[:] = self.noise_records.autocorrelation[:len(
-                self.noise_autocorr[:])]
-            self.noise_psd[:] = self.noise_records.noise_psd[:len(self.noise_psd[:])]
-            self.noise_psd.attrs['delta_f'] = self.noise_records.noise_psd.attrs['delta_f']
+            self._store_noise(self.noise_records.autocorrelation[:len(self.noise_autocorr[:])],
+                              self.noise_records.noise_psd[:len(self.noise_psd[:])],
+                              self.noise_records.noise_psd.attrs['delta_f'])
         else:
             LOG.info("chan %d skipping compute_noise because already done", self.channum)
 
-- 
2.43.0


From 935af129cb5422f2dbf8a4d03e9025c2c9a1f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 040/122] fix: a filter is stored in the HDF5 file completely
 or not at all

---
 mass/common.py       | 22 ++++++++++++++++++++++
 mass/core/channel.py | 32 ++++++++++++++------------------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/mass/common.py b/mass/common.py
index af5e8bf..166fc2a 100644
--- a/mass/common.py
+++ b/mass/common.py
@@ -4,6 +4,7 @@ common.py
 Stand-along functions that can be used throughout MASS.
 """
 
+import contextlib
 import six
 
 
@@ -17,3 +18,24 @@ def tostr(s):
     if isinstance(s, bytes):
         return s.decode()
     return str(s)
+
+
+@contextlib.contextmanager
+def h5_replacement_group(parent, name):
+    """Context manager to replace the HDF5 group `parent[name]`, if any, by a new one all at once.
+
+    Yields a new group to be filled. It is known as `parent[name]` only after the context ends without an error.
+    Otherwise, the new group is discarded.
+    """
+    temp_name = "_unfinished_" + name.replace("/", "_")
+    if temp_name in parent:
+        del parent[temp_name]
+    try:
+        yield parent.create_group(temp_name)
+        if name in parent:
+            del parent[name]
+        parent.move(temp_name, name)
+    except BaseException:
+        if temp_name in parent:
+            del parent[temp_name]
+        raise
diff --git a/mass/core/channel.py b/mass/core/channel.py
index 7c9b4c5..96e063e 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -26,6 +26,7 @@ import mass.core.analysis_algorithms
 from . import phase_correct
 from .pulse_model import PulseModel
 
+from mass.common import h5_replacement_group
 from mass.core.cut import Cuts
 from mass.core.files import VirtualFile, LJHFile
 from mass.core.optimal_filtering import FilterMaker
@@ -1139,24 +1140,19 @@ class MicrocalDataSet:  # noqa: PLR0904
 
     def _filter_to_hdf5(self):
         # Store any optimal filter to a new HDF5 group
-        if "filters" in self.hdf5_group:
-            del self.hdf5_group["filters"]
-        h5grp = self.hdf5_group.require_group('filters')
-        if self.filter.f_3db is not None:
-            h5grp.attrs['f_3db'] = self.filter.f_3db
-        if self.filter.fmax is not None:
-            h5grp.attrs['fmax'] = self.filter.fmax
-        h5grp.attrs['filter_type'] = self.filter._filter_type
-        h5grp.attrs["version"] = 2
-        for name in ("values", "dt_values"):
-            if name in h5grp:
-                del h5grp[name]
-        vec = h5grp.create_dataset("values", data=self.filter.values)
-        vec.attrs["nominal_peak"] = self.filter.nominal_peak
-        vec.attrs["variance"] = self.filter.variance
-        vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
-        if self.filter._filter_type == "ats":
-            h5grp.create_dataset("dt_values", data=self.filter.dt_values)
+        with h5_replacement_group(self.hdf5_group, 'filters') as h5grp:
+            if self.filter.f_3db is not None:
+                h5grp.attrs['f_3db'] = self.filter.f_3db
+            if self.filter.fmax is not None:
+                h5grp.attrs['fmax'] = self.filter.fmax
+            h5grp.attrs['filter_type'] = self.filter._filter_type
+            h5grp.attrs["version"] = 2
+            vec = h5grp.create_dataset("values", data=self.filter.values)
+            vec.attrs["nominal_peak"] = self.filter.nominal_peak
+            vec.attrs["variance"] = self.filter.variance
+            vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
+            if self.filter._filter_type == "ats":
+                h5grp.create_dataset("dt_values", data=self.filter.dt_values)
 
     @property
     def shortname(self):
-- 
2.43.0


From 0425f424243be90ddfcda5c3f7cc412821304c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 041/122] fix: load the stored filter when reopening an
 analysis, instead of computing another

---
 mass/core/channel.py | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 96e063e..f1c66b1 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -778,26 +778,19 @@ class MicrocalDataSet:  # noqa: PLR0904
                                     sample_time_sec=self.timebase, peak=modelpeak)
                 self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)
         if version == 2:
-            if filter_type == "ats":
-                values = filter_group["values"][:]
-                dt_values = filter_group["dt_values"][:]
-                variance = filter_group["values"].attrs.get("variance", 0.0)
-                vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
-                peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
-                self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
-                                          1, fmax=fmax, f_3db=f_3db, _filter_type="ats")
-
-            else:
-                modelpeak = np.max(self.average_pulse)
-                maker = FilterMaker(self.average_pulse[:], self.nPresamples - self.pretrigger_ignore_samples,
-                                    self.noise_autocorr, self.noise_psd,
-                                    sample_time_sec=self.timebase, peak=modelpeak)
-                if filter_type == "5lag":
-                    self.filter = maker.compute_5lag(fmax=fmax, f_3db=f_3db)
-                elif filter_type == "fourier":
-                    self.filter = maker.compute_fourier(fmax=fmax, f_3db=f_3db)
-                else:
-                    raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            if filter_type not in {"ats", "5lag", "fourier"}:
+                raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            # The average pulse and the noise may have been computed anew since this filter was made, so
+            # the filter cannot be computed from them here.
+            values = filter_group["values"]
+            vectors = {name: filter_group[name][:] if name in filter_group else None
+                       for name in ("dt_values", "const_values", "signal_model", "dt_model")}
+            convolution_lags = filter_group.attrs.get("convolution_lags", 1 if filter_type == "ats" else 5)
+            self.filter = mass.Filter(values[:], values.attrs.get("nominal_peak", 0.0),
+                                      values.attrs.get("variance", 0.0), values.attrs.get("predicted_v_over_dv", 0.0),
+                                      **vectors, convolution_lags=int(convolution_lags), fmax=fmax, f_3db=f_3db,
+                                      cut_pre=int(filter_group.attrs.get("cut_pre", 0)),
+                                      cut_post=int(filter_group.attrs.get("cut_post", 0)), _filter_type=filter_type)
 
         self._filter_type = filter_type
 
@@ -1147,12 +1140,16 @@ class MicrocalDataSet:  # noqa: PLR0904
                 h5grp.attrs['fmax'] = self.filter.fmax
             h5grp.attrs['filter_type'] = self.filter._filter_type
             h5grp.attrs["version"] = 2
+            for name in ("convolution_lags", "cut_pre", "cut_post"):
+                h5grp.attrs[name] = getattr(self.filter, name)
             vec = h5grp.create_dataset("values", data=self.filter.values)
             vec.attrs["nominal_peak"] = self.filter.nominal_peak
             vec.attrs["variance"] = self.filter.variance
             vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
-            if self.filter._filter_type == "ats":
-                h5grp.create_dataset("dt_values", data=self.filter.dt_values)
+            for name in ("dt_values", "const_values", "signal_model", "dt_model"):
+                vector = getattr(self.filter, name)
+                if vector is not None:
+                    h5grp.create_dataset(name, data=vector)
 
     @property
     def shortname(self):
-- 
2.43.0


From 4ff63372a7c529e0edd54db05a7f2818d8df6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 042/122] fix: an arrival-time-safe filter rejected for its NaN
 values is not used

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f1c66b1..3fd7779 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1297,11 +1297,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         maker = FilterMaker(model[:, 0], self.nPresamples, self.noise_autocorr,
                             dt_model=model[:, 1], sample_time_sec=self.timebase, peak=modelpeak)
         f = maker.compute_ats(fmax=fmax, f_3db=f_3db, cut_pre=cut_pre, cut_post=cut_post)
-        self.filter = f
         if np.any(np.isnan(f.values)) or np.any(np.isnan(f.dt_values)):
             raise Exception("{}. model {}, nPresamples {}, noise_autcorr {}, timebase {}, modelpeak {}".format(
                 "there are nan values in your filters!! BAD",
                 model, self.nPresamples, self.noise_autocorr, self.timebase, modelpeak))
+        self.filter = f
         self._filter_type = f._filter_type
         self._filter_to_hdf5()
         return f
-- 
2.43.0


From 00f553e2a45faee0bd6aaac2e3e7ecbba8ce35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 043/122] fix: phase correction is done only when all its
 results are stored

---
 mass/core/channel.py       | 26 +++++++++++++++++---------
 mass/core/phase_correct.py | 30 ++++++++++++------------------
 2 files changed, 29 insertions(+), 27 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 3fd7779..fb988ec 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1835,16 +1835,24 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
         good = self.cuts.good(**category)
 
-        self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
-                                                          getattr(self, attr)[good],
-                                                          ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
-
-        self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
-        self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
-
+        corrector = phase_correct.phase_correct(self.p_filt_phase[good],
+                                                getattr(self, attr)[good],
+                                                ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
+                                                indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
+        phase_corr = corrector.phase_uniformifier(self.p_filt_phase[:])
+        value_phc = corrector(self.p_filt_phase[:], getattr(self, attr)[:])
+
+        # The corrector tells whether this step is done: forget the old one before changing any result, and
+        # keep the new one when all results are stored.
+        if not doesnt_exist:
+            del self.phaseCorrector
+        if save_to_hdf5 and "phase_correction" in self.hdf5_group:
+            del self.hdf5_group["phase_correction"]
+        self.p_filt_phase_corr[:] = phase_corr
+        self.p_filt_value_phc[:] = value_phc
         if save_to_hdf5:
-            self.phaseCorrector.toHDF5(self.hdf5_group, overwrite=True)
+            corrector.toHDF5(self.hdf5_group, overwrite=True)
+        self.phaseCorrector = corrector
 
         LOG.info('Channel %3d phase corrected. Correction size: %.2f',
                  self.channum, mass.mathstat.robust.median_abs_dev(self.p_filt_value_phc[good]
diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index c6e3f40..2679dc3 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -4,7 +4,7 @@ import scipy.signal
 
 import mass.mathstat.entropy
 from mass.mathstat.interpolate import CubicSpline
-from mass.common import tostr
+from mass.common import tostr, h5_replacement_group
 import logging
 LOG = logging.getLogger("mass")
 
@@ -23,23 +23,17 @@ class PhaseCorrector:
 
     def toHDF5(self, hdf5_group, name="phase_correction", overwrite=False):
         """Write to the given HDF5 group for later recovery from disk (by fromHDF5 class method)."""
-        group = hdf5_group.require_group(name)
-
-        def h5group_update(name, vector):
-            if name in group:
-                if overwrite:
-                    del group[name]
-                else:
-                    raise AttributeError(f"Cannot overwrite phase correction dataset '{name}'")
-            group[name] = vector
-        h5group_update("phase_uniformifier_x", self.phase_uniformifier_x)
-        h5group_update("phase_uniformifier_y", self.phase_uniformifier_y)
-        h5group_update("uncorrected_name", self.uncorrectedName)
-        h5group_update("indicator_name", self.indicatorName)
-        h5group_update("version", self.version)
-        for (i, correction) in enumerate(self.corrections):
-            h5group_update(f"correction_{i}_x", correction._x)
-            h5group_update(f"correction_{i}_y", correction._y)
+        if name in hdf5_group and len(hdf5_group[name]) > 0 and not overwrite:
+            raise AttributeError(f"Cannot overwrite phase correction '{name}'")
+        with h5_replacement_group(hdf5_group, name) as group:
+            group["phase_uniformifier_x"] = self.phase_uniformifier_x
+            group["phase_uniformifier_y"] = self.phase_uniformifier_y
+            group["uncorrected_name"] = self.uncorrectedName
+            group["indicator_name"] = self.indicatorName
+            group["version"] = self.version
+            for (i, correction) in enumerate(self.corrections):
+                group[f"correction_{i}_x"] = correction._x
+                group[f"correction_{i}_y"] = correction._y
 
     def correct(self, phase, ph):
         # attempt to force phases to fall between X and X
-- 
2.43.0


From c8a9327aff2b1c3437780586d93b5240a94ea631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:28 +0000
Subject: [PATCH 044/122] fix: calibration is done only when all its results
 are stored

---
 mass/calibration/energy_calibration.py | 23 ++++++++++-------------
 mass/core/channel.py                   | 11 +++++++++--
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..ccb5459 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -9,7 +9,7 @@ from scipy.optimize import brentq
 from mass.mathstat.interpolate import CubicSplineFunction, SmoothingSplineFunction, GPRSplineFunction
 from mass.mathstat.derivative import ExponentialFunction, Identity, LogFunction
 from mass.calibration.nist_xray_database import NISTXrayDBFile
-from ..common import isstr
+from ..common import isstr, h5_replacement_group
 
 
 def LineEnergies():
@@ -738,18 +738,15 @@ class EnergyCalibration:  # noqa: PLR0904
         return self._energies[perm], drop_one_energy_diff[perm]
 
     def save_to_hdf5(self, hdf5_group, name):
-        if name in hdf5_group:
-            del hdf5_group[name]
-
-        cal_group = hdf5_group.create_group(name)
-        cal_group["name"] = [_name.encode() for _name in self._names]
-        cal_group["ph"] = self._ph
-        cal_group["energy"] = self._energies
-        cal_group["dph"] = self._dph
-        cal_group["de"] = self._de
-        cal_group.attrs['nonlinearity'] = self.nonlinearity
-        cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
-        cal_group.attrs['approximate'] = self._use_approximation
+        with h5_replacement_group(hdf5_group, name) as cal_group:
+            cal_group["name"] = [_name.encode() for _name in self._names]
+            cal_group["ph"] = self._ph
+            cal_group["energy"] = self._energies
+            cal_group["dph"] = self._dph
+            cal_group["de"] = self._de
+            cal_group.attrs['nonlinearity'] = self.nonlinearity
+            cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
+            cal_group.attrs['approximate'] = self._use_approximation
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
diff --git a/mass/core/channel.py b/mass/core/channel.py
index fb988ec..e5d5f91 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1967,13 +1967,20 @@ class MicrocalDataSet:  # noqa: PLR0904
                 "chan %d failed calibration because on of the fitter was a FailedFitter", self.channum)
             raise Exception()
 
-        self.calibration[calname] = cal
+        # Having the calibration tells that this step is done: forget the old one before changing any result,
+        # and keep the new one when all results are stored.
+        energy = cal.ph2energy(getattr(self, attr))
         hdf5_cal_group = self.hdf5_group.require_group('calibration')
+        self.calibration.pop(calname, None)
+        if calname in hdf5_cal_group:
+            del hdf5_cal_group[calname]
+        self.p_energy[:] = energy
         cal.save_to_hdf5(hdf5_cal_group, calname)
+        self.calibration[calname] = cal
+        self.last_used_calibration = cal
 
         if diagnose:
             auto_cal.diagnose()
-        self.convert_to_energy(attr, attr + name_ext)
 
     @_add_group_loop()
     def convert_to_energy(self, attr, calname=None):
-- 
2.43.0


From 6f8959af1c0f879368396108baec8fe4924d59c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 045/122] fix: auto-cuts are in effect only when all of them
 are applied and none is cleared

---
 mass/core/channel.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e5d5f91..8e337dd 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1716,8 +1716,8 @@ class MicrocalDataSet:  # noqa: PLR0904
     @_add_group_loop()
     def clear_cuts(self):
         """Clear all cuts."""
+        self.__forget_auto_cuts()
         self.cuts.clear_cut()
-        self.saved_auto_cuts = None
 
     def correct_flux_jumps(self, flux_quant):
         '''Remove 'flux' jumps' from pretrigger mean.
@@ -2255,17 +2255,24 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts._pretrig_rms_median = pt_med  # store these so we can acess them when writing projectors to hdf5
         cuts._pretrig_rms_sigma = pt_madn
 
+        self.__forget_auto_cuts()  # until the new ones are applied
         self.apply_cuts(cuts, forceNew=True, clear=False)
         self.__save_auto_cuts(cuts)
         return cuts
 
     def __save_auto_cuts(self, cuts):
         """Store the results of auto-cuts internally and in HDF5."""
+        with h5_replacement_group(self.hdf5_group["cuts"], "auto_cuts") as g:
+            for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
+                             "postpeak_deriv"):
+                g.attrs[attrname] = cuts.cuts_prm[attrname][1]
         self.saved_auto_cuts = cuts
-        g = self.hdf5_group["cuts"].require_group("auto_cuts")
-        for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
-                         "postpeak_deriv"):
-            g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+
+    def __forget_auto_cuts(self):
+        """Remove the record that auto-cuts are in effect."""
+        self.saved_auto_cuts = None
+        if "auto_cuts" in self.hdf5_group["cuts"]:
+            del self.hdf5_group["cuts"]["auto_cuts"]
 
     def __load_auto_cuts(self):
         """Load the results of auto-cuts, if any, from HDF5."""
-- 
2.43.0


From e39ed9362cc25c30a4c5d37ef5f0db5fb7152e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 046/122] fix: restore auto-cuts in full when reopening an
 analysis

---
 mass/core/channel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8e337dd..6ed3f0c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2266,6 +2266,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                              "postpeak_deriv"):
                 g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+            for attrname in ("_pretrig_rms_median", "_pretrig_rms_sigma"):
+                g.attrs[attrname] = getattr(cuts, attrname)
         self.saved_auto_cuts = cuts
 
     def __forget_auto_cuts(self):
@@ -2284,7 +2286,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts = mass.AnalysisControl()
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
-            cuts.cuts_prm[attrname] = (None, g.attrs[attrname])
+            lower = 0 if attrname in {"peak_time_ms", "rise_time_ms"} else None
+            cuts.cuts_prm[attrname] = (lower, g.attrs[attrname])
+        for attrname in ("_pretrig_rms_median", "_pretrig_rms_sigma"):
+            if attrname in g.attrs:
+                setattr(cuts, attrname, g.attrs[attrname])
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 22c25e809a36d05c323c827c96d03b1642cfa8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:59 +0000
Subject: [PATCH 047/122] fix: drift correction and its parameters stay
 together, also when reopening an analysis

---
 mass/core/channel.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 6ed3f0c..2e90d9a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -807,7 +807,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.calibration[k] = EnergyCalibration.load_from_hdf5(hdf5_cal_group, k)
 
     def __load_corrections(self):
-        # drift correction should be loaded here, but I don't think it is loaded at all, here or anywhere!
+        if "slope" in self.p_filt_value_dc.attrs:
+            self.drift_correct_info = dict(self.p_filt_value_dc.attrs)
         if "phase_correction" in self.hdf5_group:
             self.phaseCorrector = phase_correct.PhaseCorrector.fromHDF5(
                 self.hdf5_group, name="phase_correction")
@@ -1749,19 +1750,21 @@ class MicrocalDataSet:  # noqa: PLR0904
                 "chan %d drift correction skipped, because p_filt_value_dc already populated", self.channum)
             return
         g = self.cuts.good(**category)
-        uncorrected = getattr(self, attr)[g]
+        uncorrected = getattr(self, attr)[:]
         indicator = self.p_pretrig_mean[g]
-        drift_corr_param, self.drift_correct_info = \
-            mass.core.analysis_algorithms.drift_correct(indicator, uncorrected)
-        self.p_filt_value_dc.attrs.update(self.drift_correct_info)  # Store in hdf5 file
+        drift_corr_param, info = \
+            mass.core.analysis_algorithms.drift_correct(indicator, uncorrected[g])
         LOG.info('chan %d best drift correction parameter: %.6fe6', self.channum, 1e6 * drift_corr_param)
-        self._apply_drift_correction(attr=attr)
+        # p_filt_value_dc tells whether this step is done: clear it before changing the parameters.
+        self.p_filt_value_dc[:] = 0
+        self.drift_correct_info = info
+        self.p_filt_value_dc.attrs.update(self.drift_correct_info)  # Store in hdf5 file
+        self._apply_drift_correction(uncorrected)
 
-    def _apply_drift_correction(self, attr):
+    def _apply_drift_correction(self, uncorrected):
         # Apply correction
         assert self.p_filt_value_dc.attrs["type"] == "ptmean_gain"
         ptm_offset = self.p_filt_value_dc.attrs["median_pretrig_mean"]
-        uncorrected = getattr(self, attr)[:]
         gain = 1 + (self.p_pretrig_mean[:] - ptm_offset) * self.p_filt_value_dc.attrs["slope"]
         self.p_filt_value_dc[:] = uncorrected * gain
         self.hdf5_group.file.flush()
-- 
2.43.0


From 0b1f12a2ad8b53aab0b33c688654b63479107e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 048/122] fix: bad-channel marks are stored whatever the
 comment, and before they take effect

---
 mass/core/channel_group.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 3a4f560..fb20aa2 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -25,7 +25,7 @@ from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, Group
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
-from ..common import isstr
+from ..common import isstr, tostr
 
 LOG = logging.getLogger("mass")
 
@@ -275,7 +275,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                         hdf5_cal_grp, cal_name)
 
             if 'why_bad' in hdf5_group.attrs:
-                self._bad_channums[dset.channum] = [comment.decode() for comment in
+                self._bad_channums[dset.channum] = [tostr(comment) for comment in
                                                     hdf5_group.attrs['why_bad']]
 
             # If appropriate, add to the MicrocalDataSet the NoiseRecords file interface
@@ -426,8 +426,11 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         for channum in added_to_list:
             if channum in self._bad_channums:
+                # Change the file first, so that neither can remember what the other has forgotten.
+                attrs = self.hdf5_file[f"chan{channum}"].attrs
+                if 'why_bad' in attrs:
+                    del attrs['why_bad']
                 comment = self._bad_channums.pop(channum)
-                del self.hdf5_file[f"chan{channum}"].attrs['why_bad']
                 LOG.info("chan %d set good, had previously been set bad for %s", channum, str(comment))
             else:
                 LOG.info("chan %d not set good because it was not set bad", channum)
@@ -447,14 +450,17 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         """
         added_to_list = set.union(*[set(x) if isinstance(x, Iterable)
                                     else {x} for x in args if not isstr(x)])
-        comment = reduce(lambda x, y: y, [x for x in args if isstr(x)], '')
+        comment = tostr(reduce(lambda x, y: y, [x for x in args if isstr(x)], ''))
 
         for channum in added_to_list:
             new_comment = self._bad_channums.get(channum, []) + [comment]
+            self._store_why_bad(channum, new_comment)
             self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
-            self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+
+    def _store_why_bad(self, channum, comments):
+        # Comments can be empty, contain any characters, and be too long for fixed-length strings in an attribute.
+        self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = np.array(comments, dtype=h5py.string_dtype())
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From 22ae6dd19d21bce8b24de6ba97f81de86b7d21a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 049/122] fix: TESGroupHDF5 knows which channels are bad

---
 mass/core/channel_group_hdf5_only.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group_hdf5_only.py b/mass/core/channel_group_hdf5_only.py
index 01b3fcd..909ddf4 100644
--- a/mass/core/channel_group_hdf5_only.py
+++ b/mass/core/channel_group_hdf5_only.py
@@ -7,6 +7,7 @@ import os
 import h5py
 from . import channel_group
 from . import channel
+from ..common import tostr
 
 
 def hdf5jl_name_from_ljh_name(ljh_name):
@@ -84,7 +85,8 @@ class TESGroupHDF5(channel_group.TESGroup):
 
         # Sort datasets by channel number
         self.datasets = tuple(sorted(dset_list, key=lambda ds: ds.channum))
-        self._bad_channums = {}
+        self._bad_channums = {ds.channum: [tostr(comment) for comment in ds.hdf5_group.attrs["why_bad"]]
+                              for ds in self.datasets if "why_bad" in ds.hdf5_group.attrs}
         self.fix_timestamps()
         self.n_channels = len(dset_list)
 
-- 
2.43.0


From 71e325e044bb4b9a8e708b9f5cb31d2fdee47851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 050/122] fix: complete the cut descriptions if the first
 opening was interrupted

---
 mass/core/cut.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index ea014c6..748bb63 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -105,22 +105,28 @@ class CutFieldMixin:
                 del self.hdf5_file.attrs['cut_num_used_bits']
 
             # here, we can assume that cut descriptions are empty or version 2
+            # The version is stored last: without it, an earlier initialization was not finished.
+            unfinished = "cut_format_ver" not in self.hdf5_file.attrs
             if "cut_used_bit_flags" not in self.hdf5_file.attrs:
                 self.hdf5_file.attrs['cut_used_bit_flags'] = np.uint32(0)
 
-            if "cut_boolean_field_desc" not in self.hdf5_file.attrs:
-                self.boolean_cut_desc = np.zeros(32, dtype=self.CUT_BOOLEAN_FIELD_DESC_DTYPE)
+            if unfinished or "cut_boolean_field_desc" not in self.hdf5_file.attrs:
+                if "cut_boolean_field_desc" not in self.hdf5_file.attrs:
+                    self.boolean_cut_desc = np.zeros(32, dtype=self.CUT_BOOLEAN_FIELD_DESC_DTYPE)
                 self.register_boolean_cut_fields(*self.BUILTIN_BOOLEAN_CUT_FIELDS)
 
-            if ("cut_categorical_field_desc" not in self.hdf5_file.attrs) and \
-                    ("cut_category_list" not in self.hdf5_file.attrs):
-                self.categorical_cut_desc = np.zeros(0, dtype=self.CUT_CATEGORICAL_FIELD_DESC_DTYPE)
-                self.cut_category_list = np.zeros(0, dtype=self.CUT_CATEGORY_LIST_DTYPE)
+            no_categorical = ("cut_categorical_field_desc" not in self.hdf5_file.attrs) and \
+                ("cut_category_list" not in self.hdf5_file.attrs)
+            if unfinished or no_categorical:
+                if "cut_categorical_field_desc" not in self.hdf5_file.attrs:
+                    self.categorical_cut_desc = np.zeros(0, dtype=self.CUT_CATEGORICAL_FIELD_DESC_DTYPE)
+                if "cut_category_list" not in self.hdf5_file.attrs:
+                    self.cut_category_list = np.zeros(0, dtype=self.CUT_CATEGORY_LIST_DTYPE)
 
                 for categorical_desc in self.BUILTIN_CATEGORICAL_CUT_FIELDS:
                     self.register_categorical_cut_field(*categorical_desc)
 
-            if "cut_format_ver" not in self.hdf5_file.attrs:  # to allow TESGroupHDF5 with in read only mode
+            if unfinished:  # to allow TESGroupHDF5 with in read only mode
                 self.hdf5_file.attrs['cut_format_ver'] = b'2'
 
     @property
-- 
2.43.0


From 994867fa3f994c516571a378ddafe379bd9c13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:58 +0000
Subject: [PATCH 051/122] fix: external trigger timing that was interrupted is
 not taken for finished

---
 mass/core/channel_group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index fb20aa2..a20eebf 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -646,12 +646,16 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                     mass.core.analysis_algorithms.nearest_arrivals(ds.p_subframecount[:],
                                                                    external_trigger_subframe_count)
                 nearest = np.fmin(subframes_after_last, subframes_until_next)
+                # Having all three tells that they are done, so the last one appears only when all are stored.
+                if "subframes_from_nearest_external_trigger" in ds.hdf5_group:
+                    del ds.hdf5_group["subframes_from_nearest_external_trigger"]
                 for name, values in zip(("subframes_after_last_external_trigger",
                                          "subframes_until_next_external_trigger",
-                                         "subframes_from_nearest_external_trigger"),
+                                         "_unfinished_external_trigger"),
                                         (subframes_after_last, subframes_until_next, nearest)):
                     h5dset = ds.hdf5_group.require_dataset(name, (ds.nPulses,), dtype=np.int64)
                     h5dset[:] = values
+                ds.hdf5_group.move("_unfinished_external_trigger", "subframes_from_nearest_external_trigger")
             except Exception:
                 self.set_chan_bad(ds.channum, "calc_external_trigger_timing")
 
-- 
2.43.0


From f1b098522cc857d0aa04882de19a1c2cc0d4b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:15 +0000
Subject: [PATCH 052/122] fix: a new filter is used only when it has been
 stored

---
 mass/core/channel.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2e90d9a..3d03620 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1132,23 +1132,25 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.compute_average_pulse(mask, subtract_mean=subtract_mean,
                                    forceNew=forceNew)
 
-    def _filter_to_hdf5(self):
-        # Store any optimal filter to a new HDF5 group
+    def _filter_to_hdf5(self, filter=None):
+        # Store the given optimal filter (by default, the current one) to a new HDF5 group
+        if filter is None:
+            filter = self.filter
         with h5_replacement_group(self.hdf5_group, 'filters') as h5grp:
-            if self.filter.f_3db is not None:
-                h5grp.attrs['f_3db'] = self.filter.f_3db
-            if self.filter.fmax is not None:
-                h5grp.attrs['fmax'] = self.filter.fmax
-            h5grp.attrs['filter_type'] = self.filter._filter_type
+            if filter.f_3db is not None:
+                h5grp.attrs['f_3db'] = filter.f_3db
+            if filter.fmax is not None:
+                h5grp.attrs['fmax'] = filter.fmax
+            h5grp.attrs['filter_type'] = filter._filter_type
             h5grp.attrs["version"] = 2
             for name in ("convolution_lags", "cut_pre", "cut_post"):
-                h5grp.attrs[name] = getattr(self.filter, name)
-            vec = h5grp.create_dataset("values", data=self.filter.values)
-            vec.attrs["nominal_peak"] = self.filter.nominal_peak
-            vec.attrs["variance"] = self.filter.variance
-            vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
+                h5grp.attrs[name] = getattr(filter, name)
+            vec = h5grp.create_dataset("values", data=filter.values)
+            vec.attrs["nominal_peak"] = filter.nominal_peak
+            vec.attrs["variance"] = filter.variance
+            vec.attrs["predicted_v_over_dv"] = filter.predicted_v_over_dv
             for name in ("dt_values", "const_values", "signal_model", "dt_model"):
-                vector = getattr(self.filter, name)
+                vector = getattr(filter, name)
                 if vector is not None:
                     h5grp.create_dataset(name, data=vector)
 
@@ -1164,7 +1166,7 @@ class MicrocalDataSet:  # noqa: PLR0904
     @_add_group_loop()
     def compute_5lag_filter(self, fmax=None, f_3db=None, cut_pre=0, cut_post=0, category={}, forceNew=False):
         """Requires that compute_noise has been run and that average pulse has been computed"""
-        if "filters" in self.hdf5_group and not forceNew:
+        if "filters" in self.hdf5_group and self.filter is not None and not forceNew:
             LOG.info(f"ch {self.channum} skipping compute 5-lag filter because it is already done")
             return
         if all(self.noise_autocorr[:] == 0):
@@ -1173,9 +1175,10 @@ class MicrocalDataSet:  # noqa: PLR0904
             raise Exception(
                 "category argument has no effect on compute_oldfilter, pass None or {}. compute_oldfilter uses self.average_pulse")
         f = self._compute_5lag_filter_no_mutation(fmax, f_3db, cut_pre, cut_post)
+        self.filter = None  # until the new one is stored
+        self._filter_to_hdf5(f)
         self.filter = f
         self._filter_type = "5lag"
-        self._filter_to_hdf5()
         return f
 
     def _compute_5lag_filter_no_mutation(self, fmax, f_3db, cut_pre, cut_post):
@@ -1223,7 +1226,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         is less noisy and in fact more robust to rely on the finite-difference of
         the pulse average to get the arrival-time dependence.
         """
-        if "filters" in self.hdf5_group and not forceNew:
+        if "filters" in self.hdf5_group and self.filter is not None and not forceNew:
             LOG.info(f"ch {self.channum} skipping compute_ats_filter because it is already done")
             return
         if all(self.noise_autocorr[:] == 0):
@@ -1302,9 +1305,10 @@ class MicrocalDataSet:  # noqa: PLR0904
             raise Exception("{}. model {}, nPresamples {}, noise_autcorr {}, timebase {}, modelpeak {}".format(
                 "there are nan values in your filters!! BAD",
                 model, self.nPresamples, self.noise_autocorr, self.timebase, modelpeak))
+        self.filter = None  # until the new one is stored
+        self._filter_to_hdf5(f)
         self.filter = f
         self._filter_type = f._filter_type
-        self._filter_to_hdf5()
         return f
 
     @_add_group_loop()
-- 
2.43.0


From 977878254c5d119689af2e3837aa4defb95f64be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:55 +0000
Subject: [PATCH 053/122] fix: the record of used cut bits is right after an
 interrupted registration

---
 mass/core/cut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 748bb63..cb5f328 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -274,6 +274,8 @@ class CutFieldMixin:
 
         if name.encode() in categorical_fields["name"]:
             self.__add_categories(name, categories)
+            if self.cut_used_bit_flags != cut_used_bit_flags:  # an earlier registration was interrupted
+                self.cut_used_bit_flags = self.__registered_bits()
             return
 
         # categories might be an immutable tuple.
-- 
2.43.0


From aa5f7ff41aebfe2a0fbf936c47076f52a1eeacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:55 +0000
Subject: [PATCH 054/122] fix: cut some pulses without filling the cuts of
 others with garbage

---
 mass/core/cut.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index cb5f328..4acdfe4 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -441,12 +441,12 @@ class Cuts:
             if boolean_field[cut_num]['name'] == b'':
                 raise ValueError(str(cut_num) + " is not a registered boolean cut.")
             _, bit_mask = boolean_field[cut_num]
-            self._mask[mask] |= bit_mask
+            self.__set_bits(mask, bit_mask)
         elif isstr(cut_num):
             boolean_g = (boolean_field["name"] == cut_num.encode())
             if np.any(boolean_g):
                 _, bit_mask = boolean_field[boolean_g][0]
-                self._mask[mask] |= bit_mask
+                self.__set_bits(mask, bit_mask)
             else:
                 categorical_g = (categorical_field["name"] == cut_num.encode())
                 if np.any(categorical_g):
@@ -465,6 +465,13 @@ class Cuts:
         else:
             raise ValueError(f"cut_num should be a number or a string but is '{type(cut_num)}'")
 
+    def __set_bits(self, mask, bits):
+        # Always write the complete data set. If it was never written before, a partial write could allocate its
+        # space where something else was deleted, and the values not written would be what is left there.
+        values = self._mask[...]
+        values[mask] |= bits
+        self._mask[...] = values
+
     def cut_categorical(self, field, booldict):
         """Set the value of one categorical cut.
 
-- 
2.43.0


From 951162dfb2f7b30c35ac808ba0e4021cad6fb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 055/122] fix: n_good_channels counts neither files without
 pulses nor channels not opened

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index a20eebf..1655c7f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -471,7 +471,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self.set_chan_good(channum)
 
     def n_good_channels(self):
-        return self.n_channels - len(self._bad_channums.keys())
+        return self.num_good_channels
 
     @property
     def timestamp_offset(self):
-- 
2.43.0


From 2ebf15fd10362820f7302713831818f9b77a99de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 056/122] fix: mark a channel bad whatever characters the error
 message has

---
 mass/core/channel_group.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 1655c7f..6e3454f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -451,6 +451,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         added_to_list = set.union(*[set(x) if isinstance(x, Iterable)
                                     else {x} for x in args if not isstr(x)])
         comment = tostr(reduce(lambda x, y: y, [x for x in args if isstr(x)], ''))
+        # An error message can hold characters that cannot be stored in HDF5.
+        comment = comment.encode("utf-8", "backslashreplace").decode("utf-8").replace("\0", "\\0")
 
         for channum in added_to_list:
             new_comment = self._bad_channums.get(channum, []) + [comment]
-- 
2.43.0


From 126ab73c403c58d65b643b3d8132d8f5ec57c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:21 +0000
Subject: [PATCH 057/122] fix: compute_noise_spectra goes on with the other
 channels when one fails

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 6e3454f..930767d 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -509,8 +509,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         """Replaced by the equivalent compute_noise(...)"""
         # This is needed because the @_add_group_loop decorator does not preserve warnings
         # and hand them up.
-        for ds in self:
-            ds.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
+        self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     def sample2segnum(self, samplenum):
         """Returns the segment number of sample number <samplenum>."""
-- 
2.43.0


From 3cdb38c6cba6539f2c302562c130df02372c14b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:44 +0000
Subject: [PATCH 058/122] fix: compute_average_pulse goes on with the other
 channels when one fails

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 930767d..e731d82 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -940,7 +940,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for (mask, ds) in zip(masks, self.datasets):
             if ds.channum not in self.good_channels:
                 continue
-            ds.compute_average_pulse(mask, subtract_mean=subtract_mean, forceNew=forceNew)
+            try:
+                ds.compute_average_pulse(mask, subtract_mean=subtract_mean, forceNew=forceNew)
+            except Exception as e:
+                self.set_chan_bad(ds.channum, f"failed compute_average_pulse with {e}")
 
     def plot_average_pulses(self, axis=None, channels=None, cmap=None, legend=True,
                             fcut=None, include_badchan=False):
-- 
2.43.0


From 013141d3cba11891c0805bb6ba7d9db23c586ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 059/122] fix: a noise-only analysis knows its bad channels
 when it is reopened

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index e731d82..03f7fa6 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -344,6 +344,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise.set_hdf5_group(hdf5_group)
 
             dset = MicrocalDataSet(noise.__dict__, hdf5_group=hdf5_group)
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = [tostr(comment) for comment in
+                                                    hdf5_group.attrs['why_bad']]
             dset.noise_records = noise
             noise_list.append(noise)
             dset_list.append(dset)
-- 
2.43.0


From 57128036341bc952f2644ec8c4d6954c54cddc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 060/122] fix: sanitize_p_filt_phase goes on with the other
 channels when one fails

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 03f7fa6..d6a0e56 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1200,7 +1200,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
     def sanitize_p_filt_phase(self):
         self.register_boolean_cut_fields("filt_phase")
         for ds in self:
-            ds.cuts.cut("filt_phase", np.abs(ds.p_filt_phase[:]) > 2)
+            try:
+                ds.cuts.cut("filt_phase", np.abs(ds.p_filt_phase[:]) > 2)
+            except Exception as e:
+                self.set_chan_bad(ds.channum, f"failed sanitize_p_filt_phase with {e}")
 
     def plot_count_rate(self, bin_s=60):
         bin_edge = np.arange(self.first_good_dataset.p_timestamp[0],
-- 
2.43.0


From 96903f04a8b634589c5789c32c99e2f4df0be8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 061/122] fix: including bad channels outlasts a look at
 whyChanBad, and may be nested

---
 mass/off/channels.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5863aee..5615a6f 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1,5 +1,6 @@
 # std lib imports
 import os
+import contextlib
 import logging
 import collections
 
@@ -1283,6 +1284,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
     def __len__(self):
         return len([k for k in self])
 
+    @contextlib.contextmanager
     def includeBad(self, x=True):
         """
         Use this to do iteration including bad channels temporarily, eg:
@@ -1291,15 +1293,12 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
             for (channum, ds) in data.items():
                 print(ds)
         """
-        self._includeBadDesired = x
-        return self
-
-    def __enter__(self):
-        self._includeBad = self._includeBadDesired
-
-    def __exit__(self, *args):
-        self._includeBad = False
-        self._includeBadDesired = False
+        previous = self._includeBad
+        self._includeBad = x
+        try:
+            yield self
+        finally:
+            self._includeBad = previous
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
         for (channum, ds) in self.items():
-- 
2.43.0


From 79837dad0a342b22ef0fde4ce78833497da23d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 062/122] fix: group operations work on groups made from arrays

---
 mass/off/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..7c3c065 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -241,7 +241,7 @@ def add_group_loop(method):
     is_running_tests = "pytest" in sys.modules
 
     def wrapper(self, *args, **kwargs):
-        bar = SilenceBar(method_name, max=len(self.offFileNames), silence=not self.verbose)
+        bar = SilenceBar(method_name, max=len(self), silence=not self.verbose)
         rethrow = kwargs.pop("_rethrow", is_running_tests)  # always rethrow during tests
         returnVals = collections.OrderedDict()
         for (channum, ds) in self.items():
-- 
2.43.0


From bf696c57809bc2883149d47a78f946c3a86beb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 063/122] fix: histsToHDF5 goes on with the other channels when
 one fails

---
 mass/off/channels.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5615a6f..3a01626 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1301,9 +1301,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
             self._includeBad = previous
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
-        for (channum, ds) in self.items():
-            usedCutRecipeName = self._handleDefaultCut(cutRecipeName)
-            ds.histsToHDF5(h5File, binEdges, attr, usedCutRecipeName)
+        usedCutRecipeName = self._handleDefaultCut(cutRecipeName)
+        self._histsToHDF5(h5File, binEdges, attr, usedCutRecipeName)
         grp = h5File.require_group("all_channels")
         for state in self.stateLabels:  # hist for each state
             binCenters, counts = self.hist(binEdges, attr, state, usedCutRecipeName)
-- 
2.43.0


From 75fc2bad3a39da7a493dd75fdeae008ffdbcc60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 064/122] fix: add5LagRecipes goes on with the other channels
 when one has no model

---
 mass/off/channels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 3a01626..fa3b48c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -850,6 +850,14 @@ class Channel(CorG):  # noqa: PLR0904
         self.recipes.add("filtValue5Lag", fivelag.filtValue5Lag, ingredients=["cba5Lag"])
         self.recipes.add("peakX5Lag", fivelag.peakX5Lag, ingredients=["cba5Lag"])
 
+    @add_group_loop
+    def _add5LagRecipesFromModels(self, models):
+        # define recipes for "filtValue5Lag", "peakX5Lag" and "cba5Lag"
+        # where cba refers to the coefficiencts of a polynomial fit to the 5 lags of the filter
+        self.model = models[self.channum]
+        filter_5lag = self.model.f_5lag
+        self.add5LagRecipes(filter_5lag)
+
     @property
     def rowPeriodSeconds(self):
         nRows = self.offFile.header["ReadoutInfo"]["NumberOfRows"]
@@ -1163,12 +1171,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
     def add5LagRecipes(self, model_hdf5_path):
         with h5py.File(model_hdf5_path, "r") as h5:
             models = {int(ch): mass.pulse_model.PulseModel.fromHDF5(h5[ch]) for ch in h5.keys()}
-        for channum, ds in self.items():
-            # define recipes for "filtValue5Lag", "peakX5Lag" and "cba5Lag"
-            # where cba refers to the coefficiencts of a polynomial fit to the 5 lags of the filter
-            ds.model = models[ds.channum]
-            filter_5lag = ds.model.f_5lag
-            ds.add5LagRecipes(filter_5lag)
+        self._add5LagRecipesFromModels(models)
         return models
 
     def loadChannels(self):
-- 
2.43.0


From ff8c174a122123ef230c282c93f0ef392217db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 065/122] fix: calcExternalTriggerTiming goes on with the other
 channels when one fails

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index fa3b48c..0e04f49 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1442,7 +1442,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def calcExternalTriggerTiming(self, after_last=True, until_next=False, from_nearest=False):
         external_trigger_subframe_count = self._externalTriggerSubframes()
-        self._calcExternalTriggerTiming(external_trigger_subframe_count, after_last, until_next, from_nearest, _rethrow=True)
+        self._calcExternalTriggerTiming(external_trigger_subframe_count, after_last, until_next, from_nearest)
 
 
 class ChannelFromNpArray(Channel):
-- 
2.43.0


From 33f9aec86f29142672ff2c9774e923358bde0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 066/122] fix: the default cut of a group can be set

---
 mass/off/channels.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 0e04f49..0684ab0 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1409,8 +1409,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def cutSetDefault(self, cutRecipeName):
         assert cutRecipeName.startswith("cut")
-        assert cutRecipeName in self.recipes.keys()
-        self._default_cut_recipe_name = cutRecipeName
+        self._default_cut_recipe_name = self._handleDefaultCut(cutRecipeName)
         for ds in self.values():
             ds.cutSetDefault(cutRecipeName)
 
-- 
2.43.0


From 5945383d749d679b78337778b80f3b6425bbb0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:33 +0000
Subject: [PATCH 067/122] fix: group fits and histogram exports take inverted
 cuts

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 0684ab0..1c6116b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1160,7 +1160,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         ds = self.firstGoodChannel()
         cutRecipeName = ds._handleDefaultCut(cutRecipeName)
         for ds in self.values():
-            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
+            assert cutRecipeName.lstrip("!") in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         return cutRecipeName
 
     @property
-- 
2.43.0


From 77037fdc4d97b21a0cae1ef1d9e579d51ccd52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:03 +0000
Subject: [PATCH 068/122] fix: qualityCheckLinefit when no channel has a
 successful fit

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 1c6116b..1890c3d 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1339,7 +1339,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
                                             _rethrow=_rethrow)
         resolutions = np.array([r.params["fwhm"].value
                                 for r in results.values() if r.success])
-        if resolutionPlot:
+        if resolutionPlot and len(resolutions) > 0:
             plt.figure()
             axis = plt.gca()
             axis.hist(resolutions, bins=np.arange(0, np.amax(resolutions) + 0.25, 0.25))
-- 
2.43.0


From 449d743b6050c8bca5714fe2ce394ea3d3cf22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:26 +0000
Subject: [PATCH 069/122] fix: qualityCheckLinefit stores the reason of a bad
 channel whatever characters it has

---
 mass/off/channels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 1890c3d..5e24977 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1351,7 +1351,9 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
                 for (channum, ds) in self.items():
                     grp = hdf5Group.require_group(f"{channum}/fits/{line}")
                     if ds.markedBadBool:
-                        grp["markedBadReason"] = ds.markedBadReason
+                        # An error message can hold characters that cannot be stored in HDF5.
+                        reason = str(ds.markedBadReason).encode("utf-8", "backslashreplace").decode("utf-8")
+                        grp["markedBadReason"] = reason.replace("\0", "\\0")
                     else:
                         result = results[channum]
                         for (k, v) in result.params.items():
-- 
2.43.0


From e721f4c267d3ca48107d8fdf01ec03997a180537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 070/122] fix: remove_cal_point_energy removes the points asked
 for

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index ccb5459..3eea35c 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -317,7 +317,7 @@ class EnergyCalibration:  # noqa: PLR0904
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        for idx in idxs[::-1]:  # last one first, so that the other indices stay valid
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From f728351da52b3d3b2004c3648b4c6a8074c67e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 071/122] fix: a calibration point that is refused is not added

---
 mass/calibration/energy_calibration.py | 31 ++++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 3eea35c..a9e4ead 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -379,26 +379,33 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
+            new_ph = np.hstack((self._ph, pht))
+            new_energies = np.hstack((self._energies, energy))
+        else:
+            new_ph = self._ph.copy()
+            new_energies = self._energies.copy()
+            new_ph[update_index] = pht
+            new_energies[update_index] = energy
+
+        # Validate: ph and energies must be monotone increasing
+        order_ph = new_ph.argsort()
+        order_en = new_energies.argsort()
+        if not np.all(order_ph == order_en):
+            a = f"PH:     {new_ph[order_ph]}"
+            b = f"Energy: {new_energies[order_ph]}"
+            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
+
+        self._ph = new_ph
+        self._energies = new_energies
+        if update_index is None:
             self._dph = np.hstack((self._dph, pht_error))
             self._de = np.hstack((self._de, e_error))
             self._names.append(name)
         else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
             self._dph[update_index] = pht_error
             self._de[update_index] = e_error
         self.npts = len(self._ph)
 
-        # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
-        if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
-            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
-
     @property
     def cal_point_phs(self):
         return self._ph
-- 
2.43.0


From f5c54aba69d4849c928575ce48c8536d0b43a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 072/122] fix: a calibration without points can be copied,
 printed, set and emptied

---
 mass/calibration/energy_calibration.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index a9e4ead..2a143ae 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -115,6 +115,7 @@ class EnergyCalibration:  # noqa: PLR0904
         self._de = np.zeros(0, dtype=float)
         self._names = []
         self.npts = 0
+        self._max_ph = 0.0
         self._use_approximation = approximate
         self._use_GPR = useGPR
         self._model_is_stale = False
@@ -428,6 +429,13 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def _update_converters(self):
         """There is now one (or more) new data points. All the math goes on in this method."""
+        if self.npts == 0:  # Just as in a new object
+            self._ph2e = self.__default_ph2e
+            self._e2ph = self.__default_ph2e
+            self._max_ph = 0.0
+            self._model_is_stale = False
+            return
+
         # Sort in ascending energy order
         sortkeys = np.argsort(self._ph)
         self._ph = self._ph[sortkeys]
-- 
2.43.0


From 0cb091ddc7472b5f44fabd30e1c7c662268768d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 073/122] fix: using an approximating calibration does not
 change the uncertainties of its points

---
 mass/calibration/energy_calibration.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 2a143ae..9f2efab 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -473,19 +473,15 @@ class EnergyCalibration:  # noqa: PLR0904
             PreferredSpline = SmoothingSplineFunction
 
         # Make sure the errors in both dimensions are reasonable (positive)
-        if (self._dph <= 0.0).any():
-            if (self._dph > 0).any():
-                self._dph[self._dph <= 0.0] = self._dph[self._dph > 0].min()
-            else:
-                self._dph = np.zeros_like(self._dph)
-        if (self._de <= 0.0).any():
-            if (self._de > 0).any():
-                self._de[self._de <= 0.0] = self._de[self._de > 0].min()
-            else:
-                self._de = np.zeros_like(self._de)
+        ph, dph, e, de = self._ph, self._dph.copy(), self._energies, self._de.copy()
+        for err in (dph, de):
+            if (err <= 0.0).any():
+                if (err > 0).any():
+                    err[err <= 0.0] = err[err > 0].min()
+                else:
+                    err[:] = 0.0
 
         # Find transformed data. For dy, assume that E and PH errors are uncorrelated.
-        ph, dph, e, de = self._ph, self._dph, self._energies, self._de
 
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
-- 
2.43.0


From a8731ea4f4dd89e713bf72cf78b748ad639d456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 074/122] fix: no calibration uncertainty left over from points
 that were removed

---
 mass/calibration/energy_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 9f2efab..f9b1396 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -221,6 +221,8 @@ class EnergyCalibration:  # noqa: PLR0904
                 "Cannot estimate uncertainty. First use cal.set_use_approximation(True)")
         if self._model_is_stale:
             self._update_converters()
+        if self.npts < 3:
+            raise ValueError("Cannot estimate uncertainty with fewer than 3 calibration points")
         return self._uncertainty(ph)
 
     def energy2uncertainty(self, energies):
-- 
2.43.0


From d75eaadecc464a1602991ac95d441076e216d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 075/122] fix: a calibration is loaded with all its points and
 its choice of spline

---
 mass/calibration/energy_calibration.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index f9b1396..72984f2 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -760,23 +760,25 @@ class EnergyCalibration:  # noqa: PLR0904
             cal_group.attrs['nonlinearity'] = self.nonlinearity
             cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
             cal_group.attrs['approximate'] = self._use_approximation
+            cal_group.attrs['useGPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
-
-        _names = cal_group["name"][:]
-        _ph = cal_group["ph"][:]
-        _energies = cal_group["energy"][:]
-        _dph = cal_group["dph"][:]
-        _de = cal_group["de"][:]
-
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
-
+                  cal_group.attrs['approximate'],
+                  useGPR=cal_group.attrs.get('useGPR', True))
+
+        # The points were valid when saved. Don't use `add_cal_point`, because it would merge points whose
+        # uncertainties make them overlap.
+        cal._names = [name.decode() for name in cal_group["name"][:]]
+        cal._ph = cal_group["ph"][:]
+        cal._energies = cal_group["energy"][:]
+        cal._dph = cal_group["dph"][:]
+        cal._de = cal_group["de"][:]
+        cal.npts = len(cal._ph)
+        cal._model_is_stale = True
         return cal
 
     def __repr__(self):
-- 
2.43.0


From 4c6ae0c593e6e193f44370d95f25d8a864d8f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 076/122] fix: phase correction of pulses of nearly equal
 height is not all NaN

---
 mass/core/phase_correct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 2679dc3..5563a84 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -129,8 +129,9 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
             phase_uniformifier_x = crazy_spline._data[0]
             phase_uniformifier_y = crazy_spline._data[1]
         else:
-            phase_uniformifier_x = np.array([0, 0, 0, 0])
-            phase_uniformifier_y = np.array([0, 0, 0, 0])
+            # All pulses in one bin: no dependence on pulse height can be known. (A spline needs distinct x values.)
+            phase_uniformifier_x = np.array([0, top])
+            phase_uniformifier_y = np.full(2, np.median(phase))
 
     return PhaseCorrector(phase_uniformifier_x, phase_uniformifier_y, corrections,
                           indicatorName, uncorrectedName)
-- 
2.43.0


From 36d273f9e002d48f39e7e248d4093280b91c34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:12 +0000
Subject: [PATCH 077/122] fix: phase_correct leaves the caller's list of peaks
 in its order

---
 mass/core/phase_correct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 5563a84..325dd15 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -80,8 +80,7 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
         ph_peaks = _find_peaks_heuristic(pheight)
     if len(ph_peaks) <= 0:
         raise ValueError("Could not phase_correct because no peaks found")
-    ph_peaks = np.asarray(ph_peaks)
-    ph_peaks.sort()
+    ph_peaks = np.sort(ph_peaks)
 
     # Compute a correction function at each line in ph_peaks
     corrections = []
-- 
2.43.0


From 067d7fe9735a414c41e88ba334bfcbe23ef0a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 078/122] fix: a drift correction can be saved again, and is
 saved completely or not at all

---
 mass/off/channels.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5e24977..b7283d7 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -10,7 +10,7 @@ import pylab as plt
 import fastdtw
 import lmfit
 import scipy.interpolate
-from mass.common import tostr
+from mass.common import tostr, h5_replacement_group
 import dill
 import gc
 from deprecation import deprecated
@@ -47,11 +47,12 @@ class DriftCorrection:
         return gain * uncorrected
 
     def toHDF5(self, hdf5_group, name="driftCorrection"):
-        hdf5_group[f"{name}/indicatorName"] = self.indicatorName
-        hdf5_group[f"{name}/uncorrectedName"] = self.uncorrectedName
-        hdf5_group[f"{name}/medianIndicator"] = self.medianIndicator
-        hdf5_group[f"{name}/slope"] = self.slope
-        hdf5_group[f"{name}/version"] = self.version
+        with h5_replacement_group(hdf5_group, name) as group:
+            group["indicatorName"] = self.indicatorName
+            group["uncorrectedName"] = self.uncorrectedName
+            group["medianIndicator"] = self.medianIndicator
+            group["slope"] = self.slope
+            group["version"] = self.version
 
     @classmethod
     def fromHDF5(cls, hdf5_group, name="driftCorrection"):
-- 
2.43.0


From ab46c91381a38bcb4f6a599ce346aecd6aa3ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 079/122] fix: saving a pulse model inverted does not invert
 the model itself

---
 mass/core/pulse_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 7049693..3bbee78 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -1,7 +1,7 @@
 import pylab as plt
 import numpy as np
 import mass.mathstat
-from mass.common import tostr
+from mass.common import tostr, h5_replacement_group
 
 
 class PulseModel:
@@ -51,7 +51,7 @@ class PulseModel:
         self.noise_autocorr = noise_autocorr
 
     def toHDF5(self, hdf5_group, save_inverted):
-        projectors, basis = self.projectors[()], self.basis[()]
+        projectors, basis = self.projectors.copy(), self.basis.copy()
         if save_inverted:
             # flip every component except the mean component if data is being inverted
             basis[:, 1:] *= -1
-- 
2.43.0


From 961a92c707fc712ea598f3d7350df6e8b0f4506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 080/122] fix: a pulse model can be saved again, and is saved
 completely or not at all

---
 mass/core/pulse_model.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 3bbee78..60ae079 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -59,21 +59,22 @@ class PulseModel:
 
         # projectors is MxN, where N is samples/record and M the number of basis elements
         # basis is NxM
-        hdf5_group["svdbasis/projectors"] = projectors
-        hdf5_group["svdbasis/basis"] = basis
-        hdf5_group["svdbasis/v_dv"] = self.v_dv
-        hdf5_group["svdbasis/training_pulses_for_plots"] = self.pulses_for_svd
-        hdf5_group["svdbasis/was_saved_inverted"] = save_inverted
-        hdf5_group["svdbasis/pretrig_rms_median"] = self.pretrig_rms_median
-        hdf5_group["svdbasis/pretrig_rms_sigma"] = self.pretrig_rms_sigma
-        hdf5_group["svdbasis/version"] = self.version
-        hdf5_group["svdbasis/file_name"] = self.file_name
-        hdf5_group["svdbasis/extra_n_basis_5lag"] = self.extra_n_basis_5lag
-        hdf5_group["svdbasis/5lag_filter"] = self.f_5lag
-        hdf5_group["svdbasis/average_pulse_for_5lag"] = self.average_pulse_for_5lag
-        hdf5_group["svdbasis/noise_psd"] = self.noise_psd
-        hdf5_group["svdbasis/noise_psd_delta_f"] = self.noise_psd_delta_f
-        hdf5_group["svdbasis/noise_autocorr"] = self.noise_autocorr
+        with h5_replacement_group(hdf5_group, "svdbasis") as group:
+            group["projectors"] = projectors
+            group["basis"] = basis
+            group["v_dv"] = self.v_dv
+            group["training_pulses_for_plots"] = self.pulses_for_svd
+            group["was_saved_inverted"] = save_inverted
+            group["pretrig_rms_median"] = self.pretrig_rms_median
+            group["pretrig_rms_sigma"] = self.pretrig_rms_sigma
+            group["version"] = self.version
+            group["file_name"] = self.file_name
+            group["extra_n_basis_5lag"] = self.extra_n_basis_5lag
+            group["5lag_filter"] = self.f_5lag
+            group["average_pulse_for_5lag"] = self.average_pulse_for_5lag
+            group["noise_psd"] = self.noise_psd
+            group["noise_psd_delta_f"] = self.noise_psd_delta_f
+            group["noise_autocorr"] = self.noise_autocorr
 
     @classmethod
     def fromHDF5(cls, hdf5_group):
-- 
2.43.0


From 24c95e89ee39ce5bc85838376b955791c0070c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:34 +0000
Subject: [PATCH 081/122] fix: a channel whose pulse model was not saved leaves
 no half-filled group in the model file

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 3d03620..3031b1b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1426,8 +1426,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.filter, f_5lag, n_basis, pulses_for_svd, extra_n_basis_5lag,
             maximum_n_pulses=maximum_n_pulses, noise_weight_basis=noise_weight_basis, category=category)
         save_inverted = self.invert_data
-        hdf5_group = hdf5_file.create_group(f"{self.channum}")
-        pulse_model.toHDF5(hdf5_group, save_inverted)
+        with h5_replacement_group(hdf5_file, f"{self.channum}") as hdf5_group:
+            pulse_model.toHDF5(hdf5_group, save_inverted)
 
     def _filter_data_segment_5lag(self, filter_values, _filter_AT, first, end, transform=None):
         """Traditional 5-lag filter used by default until 2015."""
-- 
2.43.0


From f970295fae3c0496d95b68baf869afb57376e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0000
Subject: [PATCH 082/122] fix: a calibration has the nonlinearity it was
 created or saved with

---
 mass/calibration/energy_calibration.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 72984f2..e22eaac 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -121,7 +121,6 @@ class EnergyCalibration:  # noqa: PLR0904
         self._model_is_stale = False
         self._e2phwarned = False
         self.nonlinearity = nonlinearity
-        self.set_nonlinearity()
 
     @staticmethod
     def __default_ph2e(x, der=0):
-- 
2.43.0


From 2a0a9a63b3432cf7362736c322e7e21d9ac43b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0000
Subject: [PATCH 083/122] fix: converting pulse heights to energy leaves the
 caller's array alone

---
 mass/calibration/energy_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index e22eaac..a33a3e9 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -148,12 +148,13 @@ class EnergyCalibration:  # noqa: PLR0904
                 return result
             return result.item()
 
-        # Change any inf or NaN results to 0.0 energy.
+        # Change any inf or NaN results to 0.0 energy (without touching the caller's array).
+        result = np.array(result)
         if any(np.isnan(result)):
             result[np.isnan(result)] = 0.0
         if any(np.isinf(result)):
             result[np.isinf(result)] = 0.0
-        return np.array(result)
+        return result
 
     def energy2ph(self, energy):
         """Convert energy (or array of energies) `energy` to pulse height in arbs.
-- 
2.43.0


From b5df3df364ab8bf91f7fe39168939b6d912a112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:48 +0000
Subject: [PATCH 084/122] fix: what is left of an interrupted save is not taken
 for a calibration or a pulse model

---
 mass/common.py             | 10 +++++++++-
 mass/core/channel.py       |  4 ++--
 mass/core/channel_group.py |  4 ++--
 mass/core/ljh2off.py       |  3 ++-
 mass/off/channels.py       |  4 ++--
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/mass/common.py b/mass/common.py
index 166fc2a..4c4f18f 100644
--- a/mass/common.py
+++ b/mass/common.py
@@ -20,6 +20,14 @@ def tostr(s):
     return str(s)
 
 
+_UNFINISHED = "_unfinished_"
+
+
+def h5_finished_names(parent):
+    """Names in HDF5 group `parent`, without any group that `h5_replacement_group` could not finish (nor discard)."""
+    return [name for name in parent if not name.startswith(_UNFINISHED)]
+
+
 @contextlib.contextmanager
 def h5_replacement_group(parent, name):
     """Context manager to replace the HDF5 group `parent[name]`, if any, by a new one all at once.
@@ -27,7 +35,7 @@ def h5_replacement_group(parent, name):
     Yields a new group to be filled. It is known as `parent[name]` only after the context ends without an error.
     Otherwise, the new group is discarded.
     """
-    temp_name = "_unfinished_" + name.replace("/", "_")
+    temp_name = _UNFINISHED + name.replace("/", "_")
     if temp_name in parent:
         del parent[temp_name]
     try:
diff --git a/mass/core/channel.py b/mass/core/channel.py
index 3031b1b..a0cd1aa 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -26,7 +26,7 @@ import mass.core.analysis_algorithms
 from . import phase_correct
 from .pulse_model import PulseModel
 
-from mass.common import h5_replacement_group
+from mass.common import h5_finished_names, h5_replacement_group
 from mass.core.cut import Cuts
 from mass.core.files import VirtualFile, LJHFile
 from mass.core.optimal_filtering import FilterMaker
@@ -799,7 +799,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.calibration.
         """
         hdf5_cal_group = self.hdf5_group.require_group('calibration')
-        for k in hdf5_cal_group.keys():
+        for k in h5_finished_names(hdf5_cal_group):
             if not overwrite:
                 if k in self.calibration.keys():
                     raise ValueError(
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index d6a0e56..5bbd08f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -25,7 +25,7 @@ from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, Group
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
-from ..common import isstr, tostr
+from ..common import isstr, tostr, h5_finished_names
 
 LOG = logging.getLogger("mass")
 
@@ -270,7 +270,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
             if 'calibration' in hdf5_group:
                 hdf5_cal_grp = hdf5_group['calibration']
-                for cal_name in hdf5_cal_grp:
+                for cal_name in h5_finished_names(hdf5_cal_grp):
                     dset.calibration[cal_name] = EnergyCalibration.load_from_hdf5(
                         hdf5_cal_grp, cal_name)
 
diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index c11dca9..81b9fa1 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -15,6 +15,7 @@ import h5py
 import progress.bar
 import mass
 import mass.off
+from mass.common import h5_finished_names
 LOG = logging.getLogger("mass")
 
 _OFF_VERSION = "0.3.0"
@@ -197,7 +198,7 @@ def ljh2off_loop(ljhpath, h5_path, output_dir, max_channels, n_ignore_presamples
 def load_pulse_models(h5_path):
     pulse_model_dict = collections.OrderedDict()
     with h5py.File(h5_path, "r") as h5:
-        channel_numbers = sorted(map(int, h5.keys()))
+        channel_numbers = sorted(map(int, h5_finished_names(h5)))
         for channum in channel_numbers:
             pulse_model = mass.PulseModel.fromHDF5(h5[f"{channum}"])
             pulse_model_dict[channum] = pulse_model
diff --git a/mass/off/channels.py b/mass/off/channels.py
index b7283d7..23ace43 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -10,7 +10,7 @@ import pylab as plt
 import fastdtw
 import lmfit
 import scipy.interpolate
-from mass.common import tostr, h5_replacement_group
+from mass.common import tostr, h5_finished_names, h5_replacement_group
 import dill
 import gc
 from deprecation import deprecated
@@ -1171,7 +1171,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def add5LagRecipes(self, model_hdf5_path):
         with h5py.File(model_hdf5_path, "r") as h5:
-            models = {int(ch): mass.pulse_model.PulseModel.fromHDF5(h5[ch]) for ch in h5.keys()}
+            models = {int(ch): mass.pulse_model.PulseModel.fromHDF5(h5[ch]) for ch in h5_finished_names(h5)}
         self._add5LagRecipesFromModels(models)
         return models
 
-- 
2.43.0


From 0c5e3b48538f3214b5a85872372d55dfb8c84f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 085/122] fix: a recipe with a repeated ingredient is refused
 when it is added, not broken when it is evaluated

---
 mass/off/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/off/util.py b/mass/off/util.py
index 7c3c065..f8d5f49 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -59,6 +59,8 @@ class RecipeBook:
         inspectedArgNames = list(inspect.signature(f).parameters)
         if "self" in inspectedArgNames:  # drop the self argument for class methods
             inspectedArgNames.remove("self")
+        # i2a has one entry per ingredient, so a repeated one would leave an argument without its value
+        assert ingredients is None or len(set(ingredients)) == len(ingredients), f"repeated ingredients in {ingredients}"
         i2a = collections.OrderedDict()
         if ingredients is None:
             # learn ingredient names from signature of f
-- 
2.43.0


From 5bbf81628df2e382fb12b75c80a8db3ce58ddb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 086/122] fix: cutAdd refuses a name that cannot be the default
 cut before it adds the recipe

---
 mass/off/channels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 23ace43..016e32a 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -218,6 +218,7 @@ class Channel(CorG):  # noqa: PLR0904
 
     @add_group_loop
     def cutAdd(self, cutRecipeName, f, ingredients=None, overwrite=False, setDefault=False):
+        assert not setDefault or cutRecipeName.startswith("cut")
         self.recipes.add(cutRecipeName, f, ingredients, overwrite=overwrite)
         if setDefault:
             self.cutSetDefault(cutRecipeName)
-- 
2.43.0


From a09a8cb8985cfb39bddeddbe7df198a83fceaf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 087/122] fix: lists of slices may be empty and may have open,
 negative or far ends

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 016e32a..4acca3f 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -398,7 +398,7 @@ class Channel(CorG):  # noqa: PLR0904
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum(len(range(*s.indices(len(self)))) for s in inds)
             output_dtype = self.offFile.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
@@ -431,7 +431,7 @@ class Channel(CorG):  # noqa: PLR0904
         # first
         # relies on short circuiting to not evaluate last clause unless indsOrStates is a list
         if indsOrStates is None or isinstance(indsOrStates, str) or \
-                (isinstance(indsOrStates, list) and isinstance(indsOrStates[0], str)):
+                (isinstance(indsOrStates, list) and len(indsOrStates) > 0 and isinstance(indsOrStates[0], str)):
             # looks like states
             try:
                 inds = self.getStatesIndicies(indsOrStates)
@@ -1508,7 +1508,7 @@ class ChannelFromNpArray(Channel):
             # and about 2x faster than temporary bool index, which can be found in commit 063bcce
             # make sure s.step is None so my simple length calculation will work
             assert all([isinstance(s, slice) and s.step is None for s in inds])
-            max_length = np.sum([s.stop - s.start for s in inds])
+            max_length = sum(len(range(*s.indices(len(self)))) for s in inds)
             output_dtype = self.a.dtype  # get the dtype to preallocate with
             output_prealloc = np.zeros(max_length, output_dtype)
             ilo, ihi = 0, 0
-- 
2.43.0


From bfa0af48b147536b85a3375d5e6616dc00e1952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 088/122] fix: saving recipe books that fails or is interrupted
 leaves the ones saved before

---
 mass/off/channels.py |  6 +-----
 mass/off/util.py     | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 4acca3f..84ca894 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1418,11 +1418,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
             ds.cutSetDefault(cutRecipeName)
 
     def saveRecipeBooks(self, filename):
-        with open(filename, "wb") as f:
-            d = {}
-            for ds in self.values():
-                d[ds.channum] = ds.recipes
-            dill.dump(d, f)
+        util.dill_to_file({ds.channum: ds.recipes for ds in self.values()}, filename)
 
     def loadRecipeBooks(self, filename):
         with open(filename, "rb") as f:
diff --git a/mass/off/util.py b/mass/off/util.py
index f8d5f49..5ea18c2 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -17,6 +17,19 @@ import os
 LOG = logging.getLogger("mass")
 
 
+def dill_to_file(obj, path):
+    """Save `obj` in the file `path`. A file saved there before is replaced only once all of the new one is written."""
+    temporary = f"{path}.tmp"
+    try:
+        with open(temporary, "wb") as f:
+            dill.dump(obj, f)
+        os.replace(temporary, path)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 class NoCutInds:
     pass
 
@@ -149,8 +162,7 @@ class RecipeBook:
         if not overwrite and os.path.isfile(path):
             raise Exception(
                 f"file {path} already exists, use overwrite=True if you want to clobber it")
-        with open(path, "wb") as f:
-            dill.dump(self, f)
+        dill_to_file(self, path)
 
     @classmethod
     def from_file(cls, path):
-- 
2.43.0


From fe97e643b766bf601da1ad3cca535a02f93a6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 089/122] fix: loading recipe books for channels not in the
 group changes none of its channels

---
 mass/off/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 84ca894..a338741 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1423,8 +1423,9 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
     def loadRecipeBooks(self, filename):
         with open(filename, "rb") as f:
             d = dill.load(f)
-        for channum, recipes in d.items():
-            self[channum].recipes = recipes
+        # find all channels before changing any, so that a book for one not in this group changes nothing
+        for ds, recipes in [(self[channum], recipes) for channum, recipes in d.items()]:
+            ds.recipes = recipes
 
     def _externalTriggerFilename(self):
         datasetFilename = self.offFileNames[0]
-- 
2.43.0


From 5070b3256707acd340634851ca05b687b2b7b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 090/122] fix: recipes loaded from a file can be used as
 attributes of a channel, like those added

---
 mass/off/channels.py |  1 +
 mass/off/util.py     | 21 ++++++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index a338741..2c3c698 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1426,6 +1426,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         # find all channels before changing any, so that a book for one not in this group changes nothing
         for ds, recipes in [(self[channum], recipes) for channum, recipes in d.items()]:
             ds.recipes = recipes
+            recipes.createProperties()
 
     def _externalTriggerFilename(self):
         datasetFilename = self.offFileNames[0]
diff --git a/mass/off/util.py b/mass/off/util.py
index 5ea18c2..156a49c 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -91,6 +91,7 @@ class RecipeBook:
                 i2a[ingredient] = inspectedArgName
 
         recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype)
+        recipe.createProperty = createProperty
         for ingredient in i2a:
             if ingredient in self.craftedIngredients:
                 recipe._setIngredientToRecipe(ingredient, self.craftedIngredients[ingredient])
@@ -100,13 +101,22 @@ class RecipeBook:
             f"recipeName={recipeName} already in self.craftedIngredients with keys={list(self.craftedIngredients.keys())}"
         assert not recipeName.startswith("!")
         self.craftedIngredients[recipeName] = recipe
-        # recipes are added to the class, so only do it once per recipeName
-        if self.propertyClass is not None:
-            if createProperty and not hasattr(self.propertyClass, recipeName):
-                setattr(self.propertyClass, recipeName, property(
-                    lambda argself: argself.getAttr(recipeName, NoCutInds())))
+        if createProperty:
+            self._createProperty(recipeName)
         return recipe
 
+    def _createProperty(self, recipeName):
+        # recipes are added to the class, so only do it once per recipeName
+        if self.propertyClass is not None and not hasattr(self.propertyClass, recipeName):
+            setattr(self.propertyClass, recipeName, property(
+                lambda argself: argself.getAttr(recipeName, NoCutInds())))
+
+    def createProperties(self):
+        """Create the properties of all recipes, as needed for a book that was loaded from a file."""
+        for recipeName, recipe in self.craftedIngredients.items():
+            if getattr(recipe, "createProperty", True):
+                self._createProperty(recipeName)
+
     def __len__(self):
         return len(self.craftedIngredients)
 
@@ -169,6 +179,7 @@ class RecipeBook:
         with open(path, "rb") as f:
             r = dill.load(f)
         assert isinstance(r, cls)
+        r.createProperties()
         return r
 
 
-- 
2.43.0


From f5bf5ad568d9f267c86d57e220b1daae25ef00e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:23 +0000
Subject: [PATCH 091/122] fix: an interrupted estimate of the peak sample is
 stored when it is redone

---
 mass/core/channel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a0cd1aa..ff719c5 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -885,11 +885,13 @@ class MicrocalDataSet:  # noqa: PLR0904
         peak_idx = self.data[:, self.cut_pre:self.nSamples
                              - self.cut_post].argmax(axis=1) + self.cut_pre
         if version.parse(sp.__version__) >= version.parse("1.9.0"):
-            self.peak_samplenumber = int(sp.stats.mode(peak_idx, keepdims=False).mode)
+            peak_samplenumber = int(sp.stats.mode(peak_idx, keepdims=False).mode)
         else:
             # The old way of using sp.stats.mode is deprecated in sp 1.9.0 and will be removed.
-            self.peak_samplenumber = int(sp.stats.mode(peak_idx)[0][0])
-        self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
+            peak_samplenumber = int(sp.stats.mode(peak_idx)[0][0])
+        # Known to this session means that it is also stored.
+        self.p_peak_index.attrs["peak_samplenumber"] = peak_samplenumber
+        self.peak_samplenumber = peak_samplenumber
         return self.peak_samplenumber
 
     def _copy_readout_geometry(self):
-- 
2.43.0


From 46b3ed0cfe6ddf05ddb7eaabde451e5604bd6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 092/122] fix: channel numbers and output paths are found in
 the file's name, not in that of its directory

---
 mass/core/channel_group.py | 11 ++++++-----
 mass/core/files.py         |  2 +-
 mass/core/ljh_util.py      |  3 ++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 5bbd08f..55eb501 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -24,7 +24,8 @@ from mass.calibration.energy_calibration import EnergyCalibration
 from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, GroupLooper
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
-from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames, \
+    ljh_basename_channum
 from ..common import isstr, tostr, h5_finished_names
 
 LOG = logging.getLogger("mass")
@@ -35,8 +36,8 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    fparts = re.split(r"_chan\d+", rawname)
-    prefix_path = fparts[0]
+    dirname, filename = os.path.split(rawname)
+    prefix_path = os.path.join(dirname, re.split(r"_chan\d+", filename)[0])
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
@@ -584,8 +585,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if category is None:
             category = {}
         if hdf5_file is None:
-            basename, _ = self.datasets[0].filename.split("chan")
-            hdf5_filename = basename + "model.hdf5"
+            basename, _ = ljh_basename_channum(self.datasets[0].filename)
+            hdf5_filename = basename + "_model.hdf5"
             if os.path.isfile(hdf5_filename):
                 if not replace_output:
                     raise Exception(
diff --git a/mass/core/files.py b/mass/core/files.py
index 1082bfe..93d1254 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -202,7 +202,7 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = int(os.path.basename(filename).split("_chan")[1].split(".")[0])
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..04f9e06 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -50,7 +50,8 @@ def ljh_basename_channum(fname):
             fname = fname[:-1]
         base_dir, ljh_dir = path.split(fname)
         fname = path.join(base_dir, ljh_dir, ljh_dir)
-    chanmatches = re.finditer(r"_chan\d+", fname)
+    file_start = len(fname) - len(path.basename(fname))
+    chanmatches = re.compile(r"_chan\d+").finditer(fname, file_start)
     last_chan_match = None
     for last_chan_match in chanmatches:
         pass
-- 
2.43.0


From 454962490eeddddb2783971ad8a69949c5ba84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 093/122] fix: converting LJH files to OFF refuses to write
 onto its own input

---
 mass/common.py       | 8 ++++++++
 mass/core/ljh2off.py | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/mass/common.py b/mass/common.py
index 4c4f18f..cd8f7ff 100644
--- a/mass/common.py
+++ b/mass/common.py
@@ -5,6 +5,7 @@ Stand-along functions that can be used throughout MASS.
 """
 
 import contextlib
+import os
 import six
 
 
@@ -20,6 +21,13 @@ def tostr(s):
     return str(s)
 
 
+def refuse_output_to_input(output, inputs):
+    """Raise a ValueError if the file named `output` is (also by a link) one of those named in `inputs`."""
+    for name in inputs:
+        if os.path.exists(output) and os.path.exists(name) and os.path.samefile(output, name):
+            raise ValueError(f"Input '{name}' and output '{output}' are the same file, which is not allowed.")
+
+
 _UNFINISHED = "_unfinished_"
 
 
diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 81b9fa1..f60633b 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -15,7 +15,7 @@ import h5py
 import progress.bar
 import mass
 import mass.off
-from mass.common import h5_finished_names
+from mass.common import h5_finished_names, refuse_output_to_input
 LOG = logging.getLogger("mass")
 
 _OFF_VERSION = "0.3.0"
@@ -65,6 +65,7 @@ def ljh2off(ljhpath, offpath, projectors, basis, n_ignore_presamples, h5_path, o
 
 
 def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_path, off_version=_OFF_VERSION):
+    refuse_output_to_input(offpath, ljhpaths)
     ljhfile0 = mass.LJHFile.open(ljhpaths[0])
     nbasis = projectors.shape[0]
     dtype = mass.off.off.recordDtype(off_version, nbasis, descriptive_coefs_names=False)
@@ -89,6 +90,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
     Returns how many records were written"""
 
     if not hasattr(f, "write"):
+        refuse_output_to_input(f, [ljhfile.filename])
         with open(f, "wb") as outfile:
             return ljh_records_to_off(ljhfile, outfile, projectors, basis, n_ignore_presamples, dtype)
 
-- 
2.43.0


From ef66f6296f662b1a08dae4a4296fcb26a210ebbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 094/122] fix: a group's results are never written onto raw
 data, nor onto a cache in use by another session

---
 mass/core/channel_group.py | 51 +++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 55eb501..375516c 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -26,7 +26,7 @@ from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames, \
     ljh_basename_channum
-from ..common import isstr, tostr, h5_finished_names
+from ..common import isstr, tostr, h5_finished_names, refuse_output_to_input
 
 LOG = logging.getLogger("mass")
 
@@ -43,6 +43,30 @@ def _generate_hdf5_filename(rawname):
     return prefix_path + "_mass.hdf5"
 
 
+def _open_hdf5_cache(filename, overwrite, replace_corrupted=False):
+    """Open the HDF5 file `filename` for the results of an analysis, creating it if needed.
+
+    Existing contents are given up only if `overwrite`, or if `replace_corrupted` and HDF5 finds the file corrupted,
+    and never if the file isn't an HDF5 file or is in use by another session.
+    """
+    if os.path.isfile(filename) and os.path.getsize(filename) > 0:
+        with open(filename, "rb") as f:
+            signature = f.read(8)
+        if signature != b"\x89HDF\r\n\x1a\n":
+            raise OSError(f"'{filename}' is not an HDF5 file, so it cannot be used to store results")
+    try:
+        hdf5_file = h5py.File(filename, "a")
+    except OSError as e:
+        # For a corrupted file, errno isn't set.
+        if e.errno is not None or not (overwrite or replace_corrupted):
+            raise
+        return h5py.File(filename, "w")
+    if overwrite:
+        hdf5_file.close()
+        hdf5_file = h5py.File(filename, "w")
+    return hdf5_file
+
+
 def RestoreTESGroup(hdf5filename, hdf5noisename=None):
     """Generate a TESGroup object from a data summary HDF5 file.
 
@@ -166,6 +190,17 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if hdf5_noisefilename is None and noise_filenames is not None:
             hdf5_noisefilename = _generate_hdf5_filename(noise_filenames[0])
 
+        # The results must not be written onto the data.
+        for input_filenames in (filenames, noise_filenames):
+            if input_filenames is None or len(input_filenames) == 0:
+                continue
+            if isstr(input_filenames):
+                input_filenames = (input_filenames,)
+            inputs = [*input_filenames, *ljh_get_extern_trig_fnames(input_filenames[0]).values()]
+            for output in (hdf5_filename, hdf5_noisefilename):
+                if output is not None:
+                    refuse_output_to_input(output, inputs)
+
         # Handle the pulse files.
         if noise_only:
             self.filenames = ()
@@ -176,10 +211,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 filenames = (filenames,)
             self.filenames = tuple(filenames)
             self.n_channels = len(self.filenames)
-            if overwrite_hdf5_file:
-                self.hdf5_file = h5py.File(hdf5_filename, 'w')
-            else:
-                self.hdf5_file = h5py.File(hdf5_filename, 'a')
+            self.hdf5_file = _open_hdf5_cache(hdf5_filename, overwrite_hdf5_file)
 
         # Cut parameter description need to initialized.
         self.cut_field_desc_init()
@@ -191,13 +223,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if isstr(noise_filenames):
                 noise_filenames = (noise_filenames,)
             self.noise_filenames = noise_filenames
-            try:
-                intent = "w" if overwrite_hdf5_file else "a"
-                self.hdf5_noisefile = h5py.File(hdf5_noisefilename, intent)
-            except OSError:
-                # if the noise file is corrupted, we will get an OSError
-                # open with write intent, which will clobber the existing file
-                self.hdf5_noisefile = h5py.File(hdf5_noisefilename, 'w')
+            # if the noise file is corrupted, it will be replaced by a new one
+            self.hdf5_noisefile = _open_hdf5_cache(hdf5_noisefilename, overwrite_hdf5_file, replace_corrupted=True)
             if noise_only:
                 self.n_channels = len(self.noise_filenames)
                 self.hdf5_file = self.hdf5_noisefile
-- 
2.43.0


From b383e05c3c19a216ec9ea82065794c9a3387fc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 095/122] fix: an OFF file can be closed more than once

---
 mass/off/off.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index 6296c36..69d98ed 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -88,9 +88,9 @@ class OffFile:
         self._updateMmap()
 
     def close(self):
-        del self._mmap
-        del self.projectors
-        del self.basis
+        self._mmap = None
+        self.projectors = None
+        self.basis = None
 
     def validateHeader(self):
         with open(self.filename, "rb") as f:
-- 
2.43.0


From 7b632cf4d381429e48dc8446cee076f3e6b02ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:55 +0000
Subject: [PATCH 096/122] fix: the external trigger file is closed after it was
 read

---
 mass/core/channel_group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 375516c..572da1f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -638,9 +638,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             self.subframe_divisions = self.first_good_dataset.subframe_divisions
             possible_files = ljh_get_extern_trig_fnames(self.first_good_dataset.filename)
             if os.path.isfile(possible_files["hdf5"]):
-                h5 = h5py.File(possible_files["hdf5"], "r")
-                ds_name = "trig_times_w_offsets" if "trig_times_w_offsets" in h5 else "trig_times"
-                self._external_trigger_subframe_count = h5[ds_name]
+                with h5py.File(possible_files["hdf5"], "r") as h5:
+                    ds_name = "trig_times_w_offsets" if "trig_times_w_offsets" in h5 else "trig_times"
+                    self._external_trigger_subframe_count = h5[ds_name][:]
             elif os.path.isfile(possible_files["binary"]):
                 with open(possible_files["binary"], "rb") as f:
                     header_text = f.readline().decode()
-- 
2.43.0


From 19ea7dce99435b8aceaedcec3e17c8ecf8e5d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 097/122] fix: crosstalk flags can be computed again, and with
 neighbors in any category

---
 mass/core/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ff719c5..97ce4eb 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2406,13 +2406,13 @@ class MicrocalDataSet:  # noqa: PLR0904
                     # Loop through nearest neighbor categories
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         # Remove duplicates, sort
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
-                    if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                    if np.sum(np.isin(list(self.tes_group.channel), combinedNearestNeighbors)) > 0:
                         h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
                     else:
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
@@ -2422,10 +2422,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
-                        if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                        if np.sum(np.isin(list(self.tes_group.channel), selectNeighbors)) > 0:
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
                             h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
                             h5grp[crosstalk_key][:] = np.logical_or(
-- 
2.43.0


From 2824343dca6c30058873a4f4665a71e75215b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 098/122] fix: crosstalk between pulses whose veto windows
 overlap is flagged

---
 mass/core/channel.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 97ce4eb..f393514 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2359,13 +2359,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-            # Create a histogram of the neighboring channel pulses using the bin edges from the channel you are flagging
-            hist, _bin_edges = np.histogram(compareChannelsPulsesList, bins=combinedEdges)
-            # Even corresponds to bins with a photon in channel 1 (crosstalk), odd are empty bins (no crosstalk)
-            badCountsHist = hist[::2]
-            # Even only histogram indices map directly to previously good flagged pulse indices for victim channel
-            crosstalking_pulses = badCountsHist > 0.0
-            return crosstalking_pulses
+            # Find how many neighboring channel pulses arrived before the start and by the end of each veto window.
+            # (The windows of pulses close to each other may overlap.)
+            compareChannelsPulsesList.sort()
+            before_start = np.searchsorted(compareChannelsPulsesList, startEdges, side='left')
+            by_end = np.searchsorted(compareChannelsPulsesList, stopEdges, side='right')
+            return by_end > before_start
 
         # Check to see if nearest neighbors list has already been set, otherwise skip
         nn_channel_key = 'nearest_neighbors'
@@ -2391,13 +2390,12 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
-                # Create uneven histogram edges, with a specified amount of time before and after a photon event
+                # Create veto windows, with a specified amount of time before and after a photon event
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
                 startEdges = pulseTimes - priorTime
                 stopEdges = pulseTimes + postTime
-                combinedEdges = np.sort(np.append(startEdges, stopEdges))
 
                 if combineCategories:
                     LOG.info('Checking crosstalk between channel %d and combined neighbors...', self.channum)
-- 
2.43.0


From 4210853f541eac74dfe11d2e3b1d550d28bda830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 099/122] fix: crosstalk flags computed again replace the old
 ones, and an interrupted computation is not taken for complete

---
 mass/core/channel.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f393514..a3942ab 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2374,17 +2374,22 @@ class MicrocalDataSet:  # noqa: PLR0904
             h5grp = self.hdf5_group.require_group('crosstalk_flags')
 
             crosstalk_array_dtype = bool
-            self.__dict__[f'p_{crosstalk_key}'] = h5grp.require_dataset(
-                crosstalk_key, shape=(self.nPulses,), dtype=crosstalk_array_dtype)
-
+            flag_fields = [crosstalk_key]
             if not combineCategories:
-                for neighborCategory in self.hdf5_group[nn_channel_key]:
-                    categoryField = str(crosstalk_key + '_' + neighborCategory)
-                    self.__dict__[f'p_{categoryField}'] = h5grp.require_dataset(
-                        categoryField, shape=(self.nPulses,), dtype=crosstalk_array_dtype)
+                flag_fields += [str(crosstalk_key + '_' + neighborCategory)
+                                for neighborCategory in self.hdf5_group[nn_channel_key]]
+
+            def store_flags(field, flags):
+                if field in h5grp:
+                    h5grp[field][:] = flags
+                else:
+                    h5grp.create_dataset(field, data=flags, dtype=crosstalk_array_dtype)
 
             # Check to see if crosstalk list has already been written and skip, unless forceNew
-            if (not np.any(h5grp[crosstalk_key][:]) or forceNew):
+            already_done = all(field in h5grp for field in flag_fields) and np.any(h5grp[crosstalk_key][:])
+            if (not already_done or forceNew):
+                # These are the flags if no neighbors match the criteria
+                no_flags = np.zeros(self.nPulses, dtype=crosstalk_array_dtype)
 
                 # Convert from ms input to s used in rest of MASS
                 priorTime /= 1000.0
@@ -2411,12 +2416,15 @@ class MicrocalDataSet:  # noqa: PLR0904
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
                     if np.sum(np.isin(list(self.tes_group.channel), combinedNearestNeighbors)) > 0:
-                        h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
+                        store_flags(crosstalk_key, crosstalk_flagging_loop(combinedNearestNeighbors))
                     else:
+                        store_flags(crosstalk_key, no_flags)
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
                         LOG.info(msg)
 
                 else:
+                    combinedFlags = no_flags.copy()
+                    store_flags(crosstalk_key, no_flags)  # until those of all categories are stored
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
@@ -2425,17 +2433,22 @@ class MicrocalDataSet:  # noqa: PLR0904
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         if np.sum(np.isin(list(self.tes_group.channel), selectNeighbors)) > 0:
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
-                            h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
-                            h5grp[crosstalk_key][:] = np.logical_or(
-                                h5grp[crosstalk_key], h5grp[categoryField])
+                            categoryFlags = crosstalk_flagging_loop(selectNeighbors)
+                            store_flags(categoryField, categoryFlags)
+                            combinedFlags |= categoryFlags
                         else:
+                            store_flags(categoryField, no_flags)
                             msg = f"channel {self.channum} skipping {neighborCategory} crosstalk cuts because"
                             msg += " no nearest neighbors matching criteria in category"
                             LOG.info(msg)
+                    store_flags(crosstalk_key, combinedFlags)
 
             else:
                 LOG.info("channel %d skipping crosstalk cuts because it was already done", self.channum)
 
+            for field in flag_fields:
+                self.__dict__[f'p_{field}'] = h5grp[field]
+
         else:
             LOG.info("channel %d skipping crosstalk cuts because nearest neighbors not set", self.channum)
 
-- 
2.43.0


From dffe0007f4a64e222b00521e5cf34f6a1bd3846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 100/122] fix: an interrupted list of nearest neighbors is not
 taken for complete; a map may have only one channel

---
 mass/core/channel.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a3942ab..088f940 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2504,15 +2504,16 @@ class MicrocalDataSet:  # noqa: PLR0904
 
             # Loop through channel map and save an hdf5 dataset including the
             # channum, cartesian squared distance, and nearest neighbor n
+            neighborsList = np.zeros((len(channelNumbers), 3), dtype=np.int64)
             for channelIndex, distant_channum in enumerate(channelNumbers):
                 distantPos = np.array(positionValues[distant_channum == channelNumbers][0], ndmin=1)
                 squaredDistance = 0.0
                 for iDim in range(nDims):
                     squaredDistance += (channelPos[iDim] - distantPos[iDim])**2.0
-                h5grp[nearestNeighborCategory]['neighbors_list'][channelIndex, 0] = distant_channum
-                h5grp[nearestNeighborCategory]['neighbors_list'][channelIndex, 1] = squaredDistance
-                h5grp[nearestNeighborCategory]['neighbors_list'][channelIndex, 2] = \
-                    squaredDistanceDictionary[squaredDistance]
+                neighborsList[channelIndex] = (distant_channum, squaredDistance,
+                                               squaredDistanceDictionary[squaredDistance])
+            # Write the whole list at once, so that an incomplete one is never taken for finished
+            h5grp[nearestNeighborCategory]['neighbors_list'][:] = neighborsList
 
         def calculate_manhattan_distances():
             raise Exception("not implemented")
@@ -2534,7 +2535,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 return np.array([], dtype=int)
 
         # Load channel numbers and positions from map file, define number of dimensions
-        mapData = np.loadtxt(mapFilename, dtype=int)
+        mapData = np.loadtxt(mapFilename, dtype=int, ndmin=2)
         channelNumbers = np.array(mapData[:, 0], dtype=int)
         positionValues = mapData[:, 1:]
         nDims = positionValues.shape[1]
-- 
2.43.0


From b910430eb335d6a7fa63cb32774973490d44d276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:32 +0000
Subject: [PATCH 101/122] fix: the entropy of data with gaps much wider than
 the kernel does not divide by zero

---
 mass/mathstat/entropy.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..783cfd0 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -90,14 +90,14 @@ cdef double laplace_entropy_array(np.ndarray[DTYPE_t, ndim=1] x, double w=1.0):
     for i in range(N-2, -1, -1):
         d[i] = e[i]*d[i+1] + stepsize
 
-    cdef double H, dp, r, r1, e2, A, B
+    cdef double H, dp, r1, e2, A, B
     H = w*d[0]*(1-log(d[0])) + w*c[N-1]*(1-log(c[N-1]))
     for i in range(N-1):
         dp = d[i+1]*e[i]
-        r = sqrt(c[i]/dp)
         r1 = c[i]/d[i+1]
         e2 = sqrt(e[i])
-        H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
+        if e2 > 0:  # for gaps so wide that the exponential vanishes, this term vanishes, too
+            H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
         H += w*(dp-c[i])*(log(c[i]+dp)-1)
         A, B = d[i+1], c[i]*e[i]
         H -= w*(A-B)*(log(A+B)-1)
-- 
2.43.0


From c9679efa9c9a809cfb162eec2b5c4ff5cd02a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:51 +0000
Subject: [PATCH 102/122] fix: the column number of an LJH file is read into
 column_number, which everything uses

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 93d1254..535e226 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -242,7 +242,7 @@ class LJHFile(MicrocalFile):
             self.row_number = int(header_dict[row_number_k[0]])
         col_number_k = [k for k in header_dict.keys() if k.startswith(b"Column number")]
         if len(col_number_k) > 0:
-            self.col_number = int(header_dict[col_number_k[0]])
+            self.col_number = self.column_number = int(header_dict[col_number_k[0]])
         self.client = header_dict.get(b"Software Version", b"UNKNOWN")
         self.number_of_columns = int(header_dict.get(b"Number of columns", 1))
         self.number_of_rows = int(header_dict.get(b"Number of rows", 1))
-- 
2.43.0


From 2b866ceb38452928642b5cfc8b2e37a6c1113ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:23 +0000
Subject: [PATCH 103/122] fix: external trigger times are exported for states
 with several periods, and with an inverted cut

---
 mass/off/channels.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2c3c698..fcc8cda 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -781,8 +781,9 @@ class Channel(CorG):  # noqa: PLR0904
                 energy, unixnano = self.getAttr(["energy", "unixnano"], state, usedCutRecipeName)
                 grp[f"{state}/energy"] = energy
                 grp[f"{state}/unixnano"] = unixnano
-                state_inds = tuple(self.getStatesIndicies(states=[state]))
-                cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
+                state_slices = self.getStatesIndicies(states=[state])
+                state_inds = np.concatenate([np.arange(0), *[np.arange(len(self))[s] for s in state_slices]])
+                cut_inds_in_state = self.recipes.craft(usedCutRecipeName, self._indexOffWithCuts(state_slices, "cutNone"))
                 if hasattr(self, "seconds_after_last_external_trigger"):
                     grp[f"{state}/seconds_after_last_external_trigger"] = \
                         self.seconds_after_last_external_trigger[state_inds][cut_inds_in_state]
-- 
2.43.0


From 4f639a7d5541624d0a91c2c467d81f1c8a679b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:23 +0000
Subject: [PATCH 104/122] fix: energies and times can be exported where there
 are no states

---
 mass/off/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index fcc8cda..6e20ecc 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -796,8 +796,8 @@ class Channel(CorG):  # noqa: PLR0904
         else:
             energy, unixnano = self.getAttr(
                 ["energy", "unixnano"], slice(None), usedCutRecipeName)
-            grp[f"{state}/energy"] = energy
-            grp[f"{state}/unixnano"] = unixnano
+            grp["energy"] = energy
+            grp["unixnano"] = unixnano
         grp["off_filename"] = self.offFile.filename
         grp["used_cut_recipe_name"] = usedCutRecipeName
 
-- 
2.43.0


From 671e1fd90dec42cef1ff55d8cfce68cfc816c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 105/122] fix: the channels of a file in the current directory
 can be listed, each once

---
 mass/core/ljh_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 04f9e06..76bdaea 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -21,13 +21,13 @@ def ljh_get_channels(fname):
     basename, chan = ljh_basename_channum(fname)
     filedir, ljhname = path.split(basename)
     chans = []
-    for f in os.listdir(filedir):
+    for f in os.listdir(filedir or os.curdir):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
         bname, chan = ljh_basename_channum(f)
         if bname == ljhname and isinstance(chan, int):
             chans.append(chan)
-    return sorted(chans)
+    return sorted(set(chans))
 
 
 def ljh_get_channels_both(fname, nfname):
-- 
2.43.0


From 395d7a639a3e634d4d37250075cee428a6d34f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 106/122] fix: output folders can be made for a file in the
 current directory

---
 mass/core/ljh_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 76bdaea..2c62544 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -85,8 +85,8 @@ def ljh_get_extern_trig_fnames(fname):
 def output_basename_from_ljh_fname(ljh):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, fname = path.split(basename)
-    if not path.isdir(ljhdir):
-        raise (f"ValueError {ljhdir} is not valid directory")
+    if not path.isdir(ljhdir or os.curdir):
+        raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass_output")
     if not path.isdir(outputdir):
         os.mkdir(outputdir)
@@ -97,7 +97,7 @@ def output_basename_from_ljh_fname(ljh):
 def mass_folder_from_ljh_fname(ljh, filename=""):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, _ = path.split(basename)
-    if not path.isdir(ljhdir):
+    if not path.isdir(ljhdir or os.curdir):
         raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass")
     if not path.isdir(outputdir):
-- 
2.43.0


From 3cddcd8eef69d631bca6fd9d0b906fca7e11a078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 107/122] fix: filenames can be sorted with an inclusion list,
 from any sequence, and without a channel number in some

---
 mass/core/ljh_util.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 2c62544..e54adc0 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -151,10 +151,8 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
         valid_cnum = valid_cnum.intersection(set(use_only))
 
     # Remove invalid channel numbers
-    for c in (cnum1 - valid_cnum):
-        filenames1.remove(names1[c])
-    for c in (cnum2 - valid_cnum):
-        filenames2.remove(names2[c])
+    filenames1[:] = [f for f in filenames1 if ljh_channum(f) in valid_cnum]
+    filenames2[:] = [f for f in filenames2 if ljh_channum(f) in valid_cnum]
 
 
 def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
@@ -176,13 +174,13 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
     # Because string sort and the builtin `sorted` are both stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    # (Names without a channel number come first.)
+    return sorted(sorted(fnames), key=lambda n: -1 if ljh_channum(n) is None else ljh_channum(n))
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 772f473a62948d079b2e6200a562e1f0cdd18ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 108/122] fix: pulse and noise files are paired by channel
 number, and channels selected in every kind of group

---
 mass/core/channel_group.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 572da1f..b3bedcc 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -25,7 +25,7 @@ from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, Group
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
 from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames, \
-    ljh_basename_channum
+    ljh_basename_channum, ljh_channum
 from ..common import isstr, tostr, h5_finished_names, refuse_output_to_input
 
 LOG = logging.getLogger("mass")
@@ -172,16 +172,34 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if noise_filenames is None or len(noise_filenames) == 0:
                 raise ValueError(f"Noise filename pattern {pattern} expanded to no files")
 
+        # The lists are changed below, and might be the caller's own.
+        filenames = [] if filenames is None else list(filenames)
+        if noise_filenames is not None:
+            noise_filenames = list(noise_filenames)
+
         # If using a glob pattern especially, we have to be careful to eliminate files that are
         # missing a partner, either noise without pulse or pulse without noise.
-        remove_unpaired_channel_files(filenames, noise_filenames,
-                                      never_use=never_use, use_only=use_only)
+        if len(filenames) > 0:
+            remove_unpaired_channel_files(filenames, noise_filenames,
+                                          never_use=never_use, use_only=use_only)
+        else:
+            remove_unpaired_channel_files(noise_filenames, None,
+                                          never_use=never_use, use_only=use_only)
+        for names in (filenames, noise_filenames):
+            if names is not None and len({ljh_channum(f) for f in names}) < len(names):
+                raise ValueError(f"Several files for one channel in {names}")
+        if noise_filenames is not None and len(filenames) > 0:
+            # The noise of a channel is that with the same channel number, wherever in the list it is.
+            noise_by_channum = {ljh_channum(f): f for f in noise_filenames}
+            noise_filenames = [noise_by_channum[ljh_channum(f)] for f in filenames]
 
         # enforce max_chans
         if max_chans is not None:
-            n = min(max_chans, len(filenames))
-            filenames = filenames[:n]
-            noise_filenames = noise_filenames[:n]
+            filenames = filenames[:max_chans]
+            if noise_filenames is not None:
+                noise_filenames = noise_filenames[:max_chans]
+        if len(noise_filenames if noise_only else filenames) == 0:
+            raise ValueError("No files are left of those selected")
 
         # Figure out where the 2 HDF5 files are to live, if the default argument
         # was given for their paths.
-- 
2.43.0


From de73706fc14ef0cb3b7aba5bf5b8382872f90b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 109/122] fix: runs whose names have _chan in them do not share
 a cache file

---
 mass/core/channel_group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index b3bedcc..2299a5b 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -36,8 +36,9 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    dirname, filename = os.path.split(rawname)
-    prefix_path = os.path.join(dirname, re.split(r"_chan\d+", filename)[0])
+    prefix_path, channum = ljh_basename_channum(rawname)
+    if channum is None:
+        prefix_path = rawname
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
-- 
2.43.0


From ee07997873733e61681bd71708b86b65063d2b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 110/122] fix: all OFF files of a run are found, and only
 those, whatever its name

---
 mass/off/channels.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 6e20ecc..99e7168 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -13,6 +13,8 @@ import scipy.interpolate
 from mass.common import tostr, h5_finished_names, h5_replacement_group
 import dill
 import gc
+import glob
+import re
 from deprecation import deprecated
 import h5py
 
@@ -1109,8 +1111,10 @@ class CalibrationPlan:
 
 def getOffFileListFromOneFile(filename, maxChans=None):
     basename, _ = mass.ljh_util.ljh_basename_channum(filename)
-    z = mass.ljh_util.filename_glob_expand(basename + "_chan*.off")
-    if z is None:
+    z = mass.ljh_util.filename_glob_expand(glob.escape(basename) + "_chan*.off")
+    # The pattern also matches files of runs whose names begin like this one's, and files that are no channel's.
+    z = [name for name in z or () if re.fullmatch(r"_chan\d+\.off", name[len(basename):])]
+    if len(z) == 0:
         raise Exception("found no files while globbing {}".format(basename + "_chan*.off"))
     if maxChans is not None:
         z = z[:min(maxChans, len(z))]
-- 
2.43.0


From def0a04e9b4d56192deb4f0a3745e002a0b2522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 111/122] fix: an experiment state file that cannot be read is
 not taken for absent

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 2299a5b..edd3709 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -255,7 +255,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 try:
                     self.experimentStateFile = mass.off.ExperimentStateFile(
                         datasetFilename=self.filenames[0], excludeStates=excludeStates)
-                except OSError as e:
+                except FileNotFoundError as e:
                     LOG.debug('Skipping loading of experiment state file because %s', e)
             else:
                 self.experimentStateFile = mass.off.channels.ExperimentStateFile(
-- 
2.43.0


From 652fad31ddf5560ebce4094295b7e054c3600336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 112/122] fix: files of another run are not taken for channels
 of this one

ljh_get_channels('a_chan1.ljh') counted channel 7 because of a file
a_chan7_two_experiment_state.txt, which belongs to the run a_chan7_two.
---
 mass/core/ljh_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index e54adc0..6dfdfeb 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -24,8 +24,10 @@ def ljh_get_channels(fname):
     for f in os.listdir(filedir or os.curdir):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
+        if re.search(r"_chan\d+$", path.splitext(f)[0]) is None:
+            continue
         bname, chan = ljh_basename_channum(f)
-        if bname == ljhname and isinstance(chan, int):
+        if bname == ljhname:
             chans.append(chan)
     return sorted(set(chans))
 
-- 
2.43.0


From 9d9ea262ee30bf37867e6a3c97fe8981a86b2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:57 +0000
Subject: [PATCH 113/122] fix: the channel number of an LJH file is that of the
 last _chan in its name

The file a_chan7_two_chan21.ljh (run a_chan7_two) could not be opened, and
other parts of the code (ljh_util) take its channel number to be 21.
---
 mass/core/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 535e226..8180166 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -28,6 +28,7 @@ import numpy as np
 
 from packaging.version import Version
 from mass import __version__
+from mass.core.ljh_util import ljh_channum
 LOG = logging.getLogger("mass")
 
 
@@ -202,7 +203,9 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(os.path.basename(filename).split("_chan")[1].split(".")[0])
+        self.channum = ljh_channum(filename)
+        if self.channum is None:
+            raise ValueError(f"no channel number ('_chan<number>') in the file name {filename}")
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From 9a45d4d5b89975b323c06f01b06e38bd0aad879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:08 +0000
Subject: [PATCH 114/122] fix: data are transformed before 5-lag filtering

The compiled 5-lag filter, used by default, ignored the transform argument.
---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 088f940..9d71ff2 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1327,7 +1327,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1337,6 +1337,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot transform the data before filtering in Cython yet")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self._store_filter_results(fv, fp)
-- 
2.43.0


From 7c258996757a6b357c5441a608974f7ecc89c44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 115/122] fix: noise records of odd length are not all left out
 of the spectrum

The spectrum was computed from no record at all, and was NaN.
---
 mass/core/channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 9d71ff2..dadca8c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -185,9 +185,9 @@ class NoiseRecords:
 
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
-            window = np.ones(seg_length)
+            window = np.ones(spectrum.m2)
         else:
-            window = window(seg_length)
+            window = window(spectrum.m2)
 
         data = self.datafile.alldata
         if self.continuous and seg_length is not None:
@@ -197,8 +197,8 @@ class NoiseRecords:
 
         for d in data:
             y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
-                spectrum.addDataSegment(y, window=window)
+            if y.max() - y.min() < max_excursion:
+                spectrum.addDataSegment(y[:spectrum.m2], window=window)
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
-- 
2.43.0


From e15f235f2a626fe3ac191b3ec67116ed1802f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 116/122] fix: noise analysis fails when no noise record is
 usable, instead of storing NaN

---
 mass/core/channel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index dadca8c..503555f 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -199,6 +199,8 @@ class NoiseRecords:
             y = d - d.mean()
             if y.max() - y.min() < max_excursion:
                 spectrum.addDataSegment(y[:spectrum.m2], window=window)
+        if spectrum.nsegments == 0:
+            raise ValueError("All noise records have excursions, so no spectrum was computed")
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
@@ -397,6 +399,8 @@ class NoiseRecords:
             samples_used += self.nSamples
             records_used += 1
 
+        if records_used == 0:
+            raise ValueError("All noise records have excursions, so no autocorrelation was computed")
         ac /= records_used
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
-- 
2.43.0


From f2bc44d02f6b1ec78d64ca5c9263841394f8bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 117/122] fix: the range of data_samples is one of samples in
 continuous noise, too

It was taken for one of records.
---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 503555f..91768ec 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -322,7 +322,7 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        data = self.datafile.alldata.ravel()[first:last]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
-- 
2.43.0


From ce66f0723a9389cd0cba994972c9d97ef6e96066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 118/122] fix: compute_noise_nlags can be used

It failed in every channel: its noise records were not continuous, and have no HDF5 group.
---
 mass/core/channel.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 91768ec..fd439c0 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -84,6 +84,8 @@ class NoiseRecords:
 
         self.__open_file(filename, use_records=use_records)
         self.continuous = records_are_continuous
+        self.hdf5_group = None
+        self.autocorrelation = None
         self.noise_psd = None
 
     def set_hdf5_group(self, hdf5_group):
@@ -344,7 +346,7 @@ class NoiseRecords:
 
         ac /= entries
         ac /= (np.arange(chunksize, chunksize - n_lags + 0.5, -1.0, dtype=float))
-        self.autocorrelation[:] = ac
+        self._store_autocorrelation(ac)
 
     def compute_autocorrelation(self, n_lags=None, data_samples=None, plot=True, max_excursion=1000):
         """Compute the autocorrelation averaged across all "pulses" in the file.
@@ -405,7 +407,13 @@ class NoiseRecords:
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
             ac = ac[:n_lags]
-        self.autocorrelation[:] = ac
+        self._store_autocorrelation(ac)
+
+    def _store_autocorrelation(self, ac):
+        if self.hdf5_group is None:
+            self.autocorrelation = ac
+        else:
+            self.autocorrelation[:] = ac
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
@@ -1634,7 +1642,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 (default None).
             forceNew (bool): whether to recompute if it already exists (default False).
         """
-        self.noise_records_nlags = NoiseRecords(self.noise_records.filename)
+        self.noise_records_nlags = NoiseRecords(self.noise_records.filename, records_are_continuous=True)
         self.noise_records_nlags.compute_power_spectrum_reshape(
             max_excursion=max_excursion, seg_length=n_lags)
         self.noise_records_nlags.compute_autocorrelation(
-- 
2.43.0


From 63c572fbfe1654ed3869fde3d10d41c15f84e9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:23 +0000
Subject: [PATCH 119/122] fix: the deprecated compute_noise_spectra of a
 channel can be used

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index fd439c0..7104571 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1681,7 +1681,7 @@ class MicrocalDataSet:  # noqa: PLR0904
     @deprecated(deprecated_in="0.7.9", details="Use compute_noise(), which is equivalent but better named")
     def compute_noise_spectra(self, max_excursion=1000, n_lags=None, forceNew=False):
         """Replaced by the equivalent compute_noise(...)"""
-        return self.compute_noise(max_excursion=max_excursion, n_lags=n_lags, forceNew=forceNew)
+        return self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     @_add_group_loop()
     def apply_cuts(self, controls, clear=False, forceNew=True):
-- 
2.43.0


From eb4da423ba2fb97e011267163c257d9b3103f8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:31 +0000
Subject: [PATCH 120/122] fix: pulse models can be made when white noise is
 assumed

The frequency step of the noise spectrum was missing.
---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 7104571..ac83b6a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1618,7 +1618,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             autocorr = np.zeros(len(self.noise_autocorr), dtype=float)
             autocorr[0] = noise_variance
             psd = 2.0 * noise_variance * self.timebase
-            self._store_noise(autocorr, psd)
+            self._store_noise(autocorr, psd, 1.0 / (2 * (self.nSamples // 2) * self.timebase))
 
     def _store_noise(self, autocorr, psd, delta_f=None):
         """Store the noise autocorrelation and spectrum. The autocorrelation tells whether they exist, so it
-- 
2.43.0


From 67cd7685de2fe56bffd6510c08aeb0d288580f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:21 +0000
Subject: [PATCH 121/122] fix: continuous noise can be divided into segments
 that do not fit a whole number of times

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ac83b6a..d0e8438 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -195,7 +195,7 @@ class NoiseRecords:
         if self.continuous and seg_length is not None:
             n = np.prod(data.shape)
             n -= n % seg_length
-            data = data[:n].reshape((n // seg_length, seg_length))
+            data = data.ravel()[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
             y = d - d.mean()
-- 
2.43.0


From 11d947f270033a1ce16c1f50d413a784e7395ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:01 +0000
Subject: [PATCH 122/122] fix: noise records know their length also without an
 HDF5 group

compute_noise_nlags failed, or used no data.
---
 mass/core/channel.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index d0e8438..18d190e 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -94,10 +94,8 @@ class NoiseRecords:
 
         self.hdf5_group = hdf5_group
 
-        # Copy up some of the most important attributes
         for attr in ("nSamples", "nPresamples", "nPulses", "timebase", "channum", "n_segments"):
-            setattr(self, attr, getattr(self.datafile, attr))
-            self.hdf5_group.attrs[attr] = getattr(self.datafile, attr)
+            self.hdf5_group.attrs[attr] = getattr(self, attr)
 
         self.autocorrelation = self.hdf5_group.require_dataset(
             "autocorrelation", shape=(self.nSamples,), dtype=np.float64)
@@ -136,6 +134,10 @@ class NoiseRecords:
                 self.datafile.nPulses = use_records
                 self.datafile.n_segments = use_records // self.records_per_segment
 
+        # Copy up some of the most important attributes
+        for attr in ("nSamples", "nPresamples", "nPulses", "timebase", "channum", "n_segments"):
+            setattr(self, attr, getattr(self.datafile, attr))
+
     def set_fake_data(self):
         """Use when this does not correspond to a real datafile."""
         self.datafile = VirtualFile(np.zeros((0, 0)))
-- 
2.43.0

