From 4d21729628c896122610d69b477b0c3d74c820aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 01/15] fix: reversed and empty slices of binary file arrays

A negative step made extract() fail on slice(None) and a slice with
stop < start was read with a negative count.
---
 src/razorback/io/binary_file_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..9b75efb 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -84,7 +84,7 @@ class BaseArrayProxy(object):
                 return slice(*index.indices(dim)), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
@@ -147,7 +147,7 @@ class BinaryFileArray_1D(FileArrayProxy):
 
         with open(filename, 'rb') as f:
             f.seek(offset + self.dtype.itemsize * idx.start)
-            length = idx.stop - idx.start
+            length = max(idx.stop - idx.start, 0)
             arr = np.fromfile(f, dtype=self.dtype, count=length)
             if len(arr) != length:
                 # warnings.warn(f"while reading file {str(self.source)!r} : get {len(arr)} values but header indicates {length}")
-- 
2.43.0


From 3bec4dcd13699dc97f1348ec714544f85a4270b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 02/15] fix: keep the channel count of a SignalSet without runs

The size of the given Tags was dropped when there was no run yet, so that
merge_consecutive_runs() and extract_t(exclude=True) raised KeyError as soon
as the last channel had no tag.
---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..c223817 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -404,8 +404,8 @@ class SignalSet(object):
 
     @tags.setter
     def tags(self, value):
-        n = self.nb_channels
         vidx = getattr(value, 'indices', None)
+        n = self.nb_channels or len(vidx or ())
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
-- 
2.43.0


From 7e5088b6a56f661336a1eaa5a958f12c12d94a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 03/15] fix: SignalSet(dict, signalset) raised TypeError

The documentation allows a dict for the tags and SignalSet objects for the
signals: convert the dict before matching the channels.
---
 src/razorback/signalset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index c223817..260b11b 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -337,6 +337,9 @@ class SignalSet(object):
         with reordered data.
 
         """
+        if not isinstance(tags, Tags):
+            tags = Tags(self.nb_channels, **tags)
+
         if self.tags == tags:
             return self
 
-- 
2.43.0


From 5abb2e64e45984a9463a40fc9dd91d1d6ed2d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 04/15] fix: merge() and extract_t(exclude=True) of a SignalSet
 without runs

min/max of an empty sequence of intervals raised ValueError.
---
 src/razorback/signalset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 260b11b..1feddb5 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -515,8 +515,7 @@ class SignalSet(object):
                 for res in rec(max(d, dh), min(f, fh), seq[1:]): yield res
         
         seq_intervals = [s.intervals for s in seqs]
-        start, stop = min(map(np.min, seq_intervals)), max(map(np.max, seq_intervals))
-        intervals = list(rec(start, stop, seq_intervals))
+        intervals = list(rec(-np.inf, np.inf, seq_intervals))
 
         signals = []
         for start, stop in intervals:
@@ -550,8 +549,8 @@ class SignalSet(object):
 
         """
         if exclude:
-            left = self.extract_t(self.starts.min(), start)
-            right = self.extract_t(stop, self.stops.max())
+            left = self.extract_t(-np.inf, start)
+            right = self.extract_t(stop, np.inf)
             return left.join(right)
 
         signals = [s.extract_t(start, stop) for s in self.signals]
-- 
2.43.0


From 3ad8c1ac6ec3195b0ec2d1202b71665667f86036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 05/15] fix: merge() failed on a common interval too short for
 a sampling rate

Runs of different sampling rates are skipped, but an AssertionError was raised
first when one of them had less than two samples in the common interval.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 1feddb5..72feaf0 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -520,6 +520,8 @@ class SignalSet(object):
         signals = []
         for start, stop in intervals:
             ss = [s.extract_t(start, stop) for s in seqs]
+            if not all(s.signals for s in ss):
+                continue  # a run has less than two samples here
             assert all(len(s.signals) == 1 for s in ss)
             ss = [s.signals[0] for s in ss]
             sr = {s.sampling_rate for s in ss}
-- 
2.43.0


From 9a8da02c0484dc48efb3dcf96a48f7c83be395eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 06/15] fix: rounding errors when converting times to sample
 indices

With a sampling rate that is not a power of two, the time of a sample could
fall just beside its index: extract_t() lost the boundary sample, merge()
failed with 'clock not synchronized' (eg: 10 Hz, starts at 0.1 and 0.4) and
consecutive runs with POSIX times were not merged (eg: 150 Hz).
---
 src/razorback/signalset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 72feaf0..3c92a2d 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -31,6 +31,11 @@ def _tupleit(value):
         return (value,)
 
 
+def _time_eps(*times):
+    " bound of the rounding errors on computed times (seconds) "
+    return 4 * np.spacing(max(abs(t) for t in times))
+
+
 class TagsBase(MutableMapping):
     " Base class for Tags "
     def __init__(self, indices, dct):
@@ -529,7 +534,7 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            assert all(abs(s.start - start) <= _time_eps(s.start, start) for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
@@ -620,7 +625,10 @@ class SignalSet(object):
         for sampling in np.unique(self.sampling_rates):
             mask = self.sampling_rates == sampling
             start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            is_consecutive = np.isclose(
+                1/sampling, start[1:] - stop[:-1],
+                atol=max(1e-8, _time_eps(*self.intervals.flat)),
+            )
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
@@ -785,6 +793,10 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        nearest = np.round(index)
+        # the time of a sample is only known up to rounding errors
+        if abs(index - nearest) <= _time_eps(time, self.start) * self.sampling_rate:
+            return int(nearest)
         return int(round_(index))
 
     def _index_to_time(self, index):
-- 
2.43.0


From 896baf2c036493a67586946d4194e74f8ca0f12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 07/15] fix: shape of the failed frequencies in impedance()

The impedance of a failed frequency was (Nb, Ne) instead of (Ne, Nb), so that
impedance() raised ValueError when Ne != Nb and only some frequencies failed.
---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..eced593 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From 1e8c487c1914515f3df1b4d8b29033410f9e5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 08/15] fix: invalid_idx given as a 1d-array

numpy integers have a __getitem__ attribute, so that a 1d-array of indices was
mistaken for a list of arrays.
---
 src/razorback/mestimator.py | 2 +-
 src/razorback/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9a07223..9473cff 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -90,7 +90,7 @@ def transfer_function(
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
 
     inputs = np.array(inputs, copy=False)
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index eced593..7514184 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -380,7 +380,7 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     """
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [np.empty(0, dtype=int)] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
     assert len(invalid_idx) == len(outputs)
 
-- 
2.43.0


From b3962fcaaa7b2ef496be1b757d7e9330396e7c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:12 +0000
Subject: [PATCH 09/15] fix: impedance(real_pb=True) always failed

transfer_function_real_prob() did not accept the positional weights given by
impedance(), and the invalid indices were those of the doubled real problem
instead of the indices of the Fourier coefficients.
---
 src/razorback/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 7514184..021e2f0 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -392,9 +392,15 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(outputs, inputs, weights=(None,), invalid_idx=None, **kwargs):
     q, n = np.shape(inputs)
 
+    # index i of the complex problem is the pair (2*i, 2*i+1) of the real one
+    invalid_idx = [
+        np.add.outer(2 * np.asarray(e, dtype=int), [0, 1]).ravel()
+        for e in apply_prefilter(outputs, inputs, None, invalid_idx)
+    ]
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -410,7 +416,10 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(
+        new_out, new_in, weights, invalid_idx=invalid_idx, **kwargs
+    )
+    ivid = [np.unique(e // 2) for e in ivid]
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
 
-- 
2.43.0


From 53877712d3c09c69feb18a559b3670deeff7b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 10/15] fix: prefilter kept blocks without any coherence

Rounding errors can make the residual slightly bigger than the output, then
the coefficient was nan and the block escaped the cod_min threshold.
---
 src/razorback/prefilters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/prefilters.py b/src/razorback/prefilters.py
index 364de36..bafdb60 100644
--- a/src/razorback/prefilters.py
+++ b/src/razorback/prefilters.py
@@ -43,7 +43,7 @@ class CoefficientOfDeterminationFilter(object):
         z = np.linalg.solve(A, b)
         residual = np.einsum("ijk,ik->ij", y, z) - x
         norm2 = lambda arr: np.sum(np.abs(arr) ** 2, axis=1)
-        res = np.sqrt(1 - norm2(residual) / norm2(x))
+        res = np.sqrt(np.maximum(1 - norm2(residual) / norm2(x), 0))
         return res
 
 
-- 
2.43.0


From 29ae742ddcabed4fa83e0064b6d4fa070697fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 11/15] fix: tags_from_path() accepted fields that only start
 like an identifier

Fields like '{a-b}' or '{a.b}' must be rejected with ValueError, as
documented; '{a.b}' raised KeyError or AttributeError.
---
 src/razorback/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 021e2f0..f8b7100 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -549,6 +549,6 @@ def _get_fields(pattern):
             continue
         if not field_name:
             raise ValueError("no empty field please")
-        if not re.match('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
+        if not re.fullmatch('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
             raise ValueError("'{%s}' is not valid" % field_name)
         yield field_name
-- 
2.43.0


From fde7ee3cecea8fe768ae7835fc82073440a64523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 12/15] fix: accept runs that touch up to the rounding of times

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 3c92a2d..384c024 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -248,7 +248,8 @@ class SignalSet(object):
         assert len(lengths) <= 1, "all signals must have the same length"
 
         l = sorted((s.interval for s in signals), key=lambda e: e[0])
-        assert all(l[i][1]<=l[i+1][0] for i in range(len(l)-1)), "signals must not overlap"
+        assert all(l[i][1]<=l[i+1][0] + _time_eps(*l[i], *l[i+1])
+                   for i in range(len(l)-1)), "signals must not overlap"
 
         self._signals = tuple(sorted(signals, key=lambda s: s.start))
         self._tags = None
-- 
2.43.0


From 08941f81c42372bf8a0c163c117486a69103987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 13/15] fix: order runs with the same start by their stop

---
 src/razorback/signalset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 384c024..b3da0ea 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -247,11 +247,11 @@ class SignalSet(object):
         lengths = set(len(s.data) for s in signals)
         assert len(lengths) <= 1, "all signals must have the same length"
 
-        l = sorted((s.interval for s in signals), key=lambda e: e[0])
+        l = sorted(s.interval for s in signals)
         assert all(l[i][1]<=l[i+1][0] + _time_eps(*l[i], *l[i+1])
                    for i in range(len(l)-1)), "signals must not overlap"
 
-        self._signals = tuple(sorted(signals, key=lambda s: s.start))
+        self._signals = tuple(sorted(signals, key=lambda s: s.interval))
         self._tags = None
         self.tags = tags
 
-- 
2.43.0


From 3c1160a377d3e2002ff1270c37d89e742eb10dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 14/15] fix: clock comparison of merge uses the rounding of the
 operand times

---
 src/razorback/signalset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index b3da0ea..04b1221 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -535,7 +535,8 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(abs(s.start - start) <= _time_eps(s.start, start) for s in ss), (
+            eps = _time_eps(*itertools.chain(*(s.intervals.flat for s in seqs)))
+            assert all(abs(s.start - start) <= eps for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
-- 
2.43.0


From 5057147e119466c26f0aeb1cec8742a445cf9220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 15/15] fix: a prefilter failure at one frequency does not stop
 impedance()

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f8b7100..5c7a067 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,8 +255,8 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
-- 
2.43.0

