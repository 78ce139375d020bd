From ca66b1c1097d8d8615b8fb0f0803c39a9eef1ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 01/28] fix: locate samples up to float rounding of times

With sampling rates that are not powers of two, the time of a sample
is rounded: extract_t() was losing boundary samples, merge() was refusing
synchronous signals and merge_consecutive_runs() was missing consecutive runs.
---
 src/razorback/signalset.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 399c45b..7a98882 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -31,6 +31,11 @@ def _tupleit(value):
         return (value,)
 
 
+def _time_precision(*times):
+    " float rounding that can be expected on the given times (seconds) "
+    return 8 * np.spacing(np.max(np.abs(times)))
+
+
 class TagsBase(MutableMapping):
     " Base class for Tags "
     def __init__(self, indices, dct):
@@ -525,7 +530,8 @@ class SignalSet(object):
             if len(sr) != 1:
                 continue
             # assert len(sr) == 1, "incompatible sampling rates"
-            assert all(s.start == start for s in ss), (
+            precision = _time_precision(start, stop)
+            assert all(abs(s.start - start) <= precision for s in ss), (
                 'same sampling and time overlap but clock not synchronized')
             sampling_rate = sr.pop()
             signals.append(SyncSignal(
@@ -616,7 +622,10 @@ class SignalSet(object):
         for sampling in np.unique(self.sampling_rates):
             mask = self.sampling_rates == sampling
             start, stop = np.where(mask[:, None], self.intervals, np.nan).T
-            is_consecutive = np.isclose(1/sampling, start[1:] - stop[:-1])
+            precision = max(1e-8, _time_precision(self.intervals))
+            is_consecutive = np.isclose(
+                1/sampling, start[1:] - stop[:-1], atol=precision
+            )
             for start, stop in _group_indices(is_consecutive):
                 group = self.select_runs(slice(start, stop))
                 data = [
@@ -781,6 +790,11 @@ class SyncSignal(object):
         assert round_to in ('left', 'right')
         round_ = dict(left=np.floor, right=np.ceil)[round_to]
         index = (time - self.start) * self.sampling_rate
+        # a time falling on a sample, up to float rounding, gives that sample
+        precision = _time_precision(time, self.start) * self.sampling_rate
+        nearest = np.round(index)
+        if abs(index - nearest) <= min(precision, 0.1):
+            return int(nearest)
         return int(round_(index))
 
     def _index_to_time(self, index):
-- 
2.43.0


From 45aad425ab1b8e8c84b837cc46b98e79423ad1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:48 +0000
Subject: [PATCH 02/28] fix: merge() skips common intervals shorter than one
 sampling period

They hold less than two common samples but were raising an AssertionError,
even for runs at different sampling rates, which merge() skips.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 7a98882..3b67585 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -523,6 +523,8 @@ class SignalSet(object):
         signals = []
         for start, stop in intervals:
             ss = [s.extract_t(start, stop) for s in seqs]
+            if not all(s.nb_runs for s in ss):
+                continue  # less than 2 samples in common
             assert all(len(s.signals) == 1 for s in ss)
             ss = [s.signals[0] for s in ss]
             sr = {s.sampling_rate for s in ss}
-- 
2.43.0


From 02137b316a49993f5683d968423d976d0abc09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 03/28] fix: a SignalSet without run keeps its number of
 channels

Untagged trailing channels were forgotten, then joining such a set with runs
failed: extract_t(exclude=True) and merge_consecutive_runs() were raising
KeyError on partially tagged sets.
---
 src/razorback/signalset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 3b67585..2c7c5e1 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -409,8 +409,10 @@ class SignalSet(object):
 
     @tags.setter
     def tags(self, value):
-        n = self.nb_channels
         vidx = getattr(value, 'indices', None)
+        n = self.nb_channels
+        if not n and vidx is not None:
+            n = len(vidx)  # no run: keep the number of channels
         if n and vidx is not None and not set(vidx).issubset(range(n)):
             msg = "incompatible tags"
             raise ValueError(msg)
-- 
2.43.0


From 3dd3b3fa6ca288cd7fb99d11ca72b0d7572e7a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 04/28] fix: SignalSet built from SignalSet accepts scalar
 indices in a tags dict

---
 src/razorback/signalset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 2c7c5e1..e315954 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -345,6 +345,7 @@ class SignalSet(object):
         if self.tags == tags:
             return self
 
+        tags = {t: _tupleit(v) for t, v in tags.items()}
         msg = 'incompatible tags: %s and %s' % (tags, self.tags)
 
         assert set(tags) == set(self.tags), msg
-- 
2.43.0


From d1516e70d04d33dd0257aa42a3c26c90879e6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 05/28] fix: SignalSet objects can be copied

Looking up special methods on the uninitialized copy was recursing forever.
---
 src/razorback/signalset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index e315954..2647920 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -296,6 +296,8 @@ class SignalSet(object):
         return res
 
     def __getattr__(self, name):
+        if name.startswith('_'):  # never a tag
+            raise AttributeError(name)
         try:
             return self.select_channels(name)
         except ValueError:
-- 
2.43.0


From 86d6e510319f81906a499a10d4943447115cf8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 06/28] fix: select_channels() accepts an array of identifiers

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 2647920..ca10e8f 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -432,7 +432,7 @@ class SignalSet(object):
         tagkeys = list(self.tags)  # a list to protect vs unhashable type
         msg = "unknown channel identifier: %r"
 
-        if channels in tagkeys:
+        if isinstance(channels, basestring) and channels in tagkeys:
             channels = tuple(self.tags[channels])
         elif isinstance(channels, slice):
             channels = tuple(range(self.nb_channels)[channels])
-- 
2.43.0


From 306a8facd4e89485baa8586ca5b0324c1ab6aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 07/28] fix: merging with a SignalSet without run gives no run

The bounds of the intervals were searched in an empty array.
---
 src/razorback/signalset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index ca10e8f..55dd30f 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -511,6 +511,9 @@ class SignalSet(object):
                                      for t, ii in s.tags.items()}
         tags = Tags(N, **tags)
 
+        if not all(s.nb_runs for s in seqs):
+            return type(self)(tags)
+
         def rec(d, f, seq):
             "recursively find common intervals"
             if not seq:
-- 
2.43.0


From 11dd937f24c21016fab9a8462a3a92fd7a036c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 08/28] fix: extract_t(exclude=True) works on a SignalSet
 without run

---
 src/razorback/signalset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 55dd30f..425272e 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -562,7 +562,7 @@ class SignalSet(object):
         If exclude=True, all times inside the given interval are skipped.
 
         """
-        if exclude:
+        if exclude and self.nb_runs:
             left = self.extract_t(self.starts.min(), start)
             right = self.extract_t(stop, self.stops.max())
             return left.join(right)
-- 
2.43.0


From 8741aa0eb2def515ecb00489c59818e158e9f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 09/28] fix: invalid_idx can be given as one 1d-array

numpy integers have a __getitem__ method, so an array of indices
was mistaken for a list of arrays.
---
 src/razorback/mestimator.py | 2 +-
 src/razorback/utils.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9a07223..9473cff 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -90,7 +90,7 @@ def transfer_function(
 
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [()] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
 
     inputs = np.array(inputs, copy=False)
diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f5e22ae..a6b9b97 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -380,7 +380,7 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     """
     if invalid_idx is None or not len(invalid_idx):
         invalid_idx = [np.empty(0, dtype=int)] * len(outputs)
-    if not hasattr(invalid_idx[0], '__getitem__'):
+    if np.ndim(invalid_idx[0]) == 0:
         invalid_idx = [invalid_idx] * len(outputs)
     assert len(invalid_idx) == len(outputs)
 
-- 
2.43.0


From 54ab5c50d07a27f033a075f5f951e1b9300d2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 10/28] fix: impedance() result at a failing frequency has the
 regular shape

It was transposed, so impedance() was raising ValueError with 2 electric and
3 magnetic channels as soon as one frequency could not be processed.
---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index a6b9b97..7514184 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -214,9 +214,9 @@ def _impedance(
     Nb = len(data.tags[tag_mag])
     Nr = len(data.tags[remote_name]) if remote else 0
     empty = ImpedanceResult(
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         (),
-        np.tile(np.nan,(Nb, Ne)),
+        np.tile(np.nan,(Ne, Nb)),
         np.tile(np.nan,(Nb, Nr)),
     )
 
-- 
2.43.0


From ea9528cdbc07e15e38cfc906590a7c4f1eefbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 11/28] fix: impedance(real_pb=True) was always failing

The weights were passed as an unexpected positional argument. Also, indices
of invalid samples are converted between the complex and the real problem.
---
 src/razorback/utils.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 7514184..42066de 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -392,9 +392,24 @@ def apply_prefilter(outputs, inputs, prefilter, invalid_idx):
     return [np.array(e, dtype=int, copy=False) for e in res]
 
 
-def transfer_function_real_prob(outputs, inputs, **kwargs):
+def transfer_function_real_prob(
+    outputs, inputs,
+    weights=(None,),
+    init=None, invalid_idx=None,
+    **options
+):
     q, n = np.shape(inputs)
 
+    # complex sample i <-> real samples 2*i and 2*i+1
+    if init is not None:
+        init = [np.stack([np.real(z), np.imag(z)], axis=-1).ravel() for z in init]
+    if invalid_idx is not None and len(invalid_idx):
+        if np.ndim(invalid_idx[0]) == 0:
+            invalid_idx = [invalid_idx] * len(outputs)
+        invalid_idx = [2 * np.repeat(np.array(ivid, dtype=int), 2) for ivid in invalid_idx]
+        for ivid in invalid_idx:
+            ivid[1::2] += 1
+
     new_in = np.empty((2*q, 2*n))
     r_in, i_in = np.real(inputs), np.imag(inputs)
     new_in[0::2, 0::2] = r_in
@@ -410,9 +425,13 @@ def transfer_function_real_prob(outputs, inputs, **kwargs):
         new_line[1::2] = i_out
         new_out.append(new_line)
 
-    new_z, ivid = transfer_function(new_out, new_in, **kwargs)
+    new_z, ivid = transfer_function(
+        new_out, new_in, weights,
+        init=init, invalid_idx=invalid_idx, **options
+    )
 
     z = new_z[..., 0::2] + 1j * new_z[..., 1::2]
+    ivid = [np.unique(e // 2) for e in ivid]
 
     return z, ivid
 
-- 
2.43.0


From 96b4b440ad76e2bfb2f5cb314ada2ffee653b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 12/28] fix: compute_prefilter() works with python 3 and
 SignalSet objects

---
 src/razorback/utils.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 42066de..f520faf 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -441,23 +441,21 @@ def compute_prefilter(data, freq, prefilter, remote=None, fourier_opts=None):
     """
     default_fourier_opts = dict(Nper=8, overlap=.71, window=slepian_window(4))
     fourier_opts = fourier_opts if fourier_opts else {}
-    fourier_opts = dict(default_fourier_opts.items() + fourier_opts.items())
+    fourier_opts = dict(itertools.chain(default_fourier_opts.items(), fourier_opts.items()))
 
     if remote:
-        inputs = data.select(*data.tags[remote])
-        outputs = data.select(*data.tags.B)
+        inputs, outputs = data.tags[remote], data.tags['B']
     else:
-        inputs = data.select(*data.tags.B)
-        outputs = data.select(*data.tags.E)
+        inputs, outputs = data.tags['B'], data.tags['E']
 
-    c_in, (Nw, Lw, shift) = inputs.fourier_coefficients(freq, **fourier_opts)
-    c_out, (Nw, Lw, shift) = outputs.fourier_coefficients(freq, **fourier_opts)
-    c_in = np.array(c_in, copy=False)
-    c_out = np.array(c_out, copy=False)
+    coeffs, (l_Nw, l_Lw, l_shift) = data.fourier_coefficients(freq, **fourier_opts)
+    c_in = np.array([coeffs[i] for i in inputs])
+    c_out = np.array([coeffs[i] for i in outputs])
 
     filter_value = np.array([prefilter.value(line, c_in.T) for line in c_out])
-    times = (shift * np.arange(Nw) + 0.5 * Lw) /data.sampling_rate + data.start
-    return times, filter_value
+    times = [ (shift * np.arange(Nw) + 0.5 * Lw) / s.sampling_rate + s.start
+              for s, Nw, Lw, shift in zip(data.signals, l_Nw, l_Lw, l_shift) ]
+    return np.concatenate(times), filter_value
 
 
 def tags_from_path(names, pattern, *tag_tpls):
-- 
2.43.0


From 521da3c2e992cf6ea14a3184b24c2ac30e53f9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 13/28] fix: tags_from_path() refuses fields that are not
 identifiers

---
 src/razorback/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f520faf..a4dcbf0 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -552,11 +552,11 @@ def _get_fields(pattern):
     F = string.Formatter()
     for (literal_text, field_name, format_spec, conversion) in F.parse(pattern):
         if format_spec or conversion:
-            raise ValueError("just '{%}' please" % field_name)
+            raise ValueError("just '{%s}' please" % field_name)
         if field_name is None:
             continue
         if not field_name:
             raise ValueError("no empty field please")
-        if not re.match('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
+        if not re.fullmatch('[_a-zA-Z][_a-zA-Z0-9]*', field_name):
             raise ValueError("'{%s}' is not valid" % field_name)
         yield field_name
-- 
2.43.0


From 13fac5977b2bb73f39f6370a62013358e6d1ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 14/28] fix: ats files with the same relative path are not
 mixed up

Relative paths resolved from different working directories were giving
the same dask names: when processed together, the data of one file
were silently replaced by the data of the other.
---
 src/razorback/io/ats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index c3b4370..ed9fee5 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,7 +64,8 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    arr = to_dask_array(bf_arr, name=filename)
+    # full path: the name identifies the array in the dask graphs
+    arr = to_dask_array(bf_arr, name=os.path.abspath(filename))
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 394695c88495dc8a8b667f5154429d3230247f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 15/28] fix: indexing a file array with negative step or empty
 slice

---
 src/razorback/io/binary_file_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/razorback/io/binary_file_array.py b/src/razorback/io/binary_file_array.py
index b6b5ada..d6b1680 100644
--- a/src/razorback/io/binary_file_array.py
+++ b/src/razorback/io/binary_file_array.py
@@ -81,10 +81,11 @@ class BaseArrayProxy(object):
         # case: slice
         if isinstance(index, slice):
             if index.step is None or index.step > 0:
-                return slice(*index.indices(dim)), slice(None)
+                start, stop, step = index.indices(dim)
+                return slice(start, max(start, stop), step), slice(None)
             else:
                 # TODO optimize  negative step
-                return slice(None), index
+                return slice(0, dim, 1), index
         # case: int
         elif int(index) == index:
             index = int(index)
@@ -115,7 +116,7 @@ class FileArrayProxy(BaseArrayProxy):
     def __init__(self, filename, offset, shape, dtype, **kwds):
         filename = os.path.abspath(filename)
         if not os.path.isfile(filename):
-            raise ValueError("no such file: {filename:r}")
+            raise ValueError(f"no such file: {filename!r}")
         source = FileSource(path=filename, offset=offset)
         super().__init__(source=source, shape=shape, dtype=dtype)
 
-- 
2.43.0


From 987d11cccfb4ea2b482972067c68ce18a9952b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 16/28] fix: error message of calibrations.phoenix() for a
 missing level

---
 src/razorback/calibrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index eac41cf..9fffbb7 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -139,7 +139,7 @@ def phoenix(cts_file, level):
     except Exception:
         data = np.loadtxt(cts_file, delimiter=',', skiprows=2, usecols=cols)
     data = data[data[:, 1] == level]
-    assert data.size, f"no level {level} in {cts_file:r}"
+    assert data.size, f"no level {level} in {cts_file!r}"
     freq = data[:, 0]
     values = data[:, 2::2] + 1j * data[:, 3::2]
     calibs = [
-- 
2.43.0


From 05965292f19262f6562b609078e62c30df538f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 17/28] fix: Inventory.pack(keep_multi_tags=False) with many
 tags for one channel

The channel was selected once for each of its tags, giving runs that overlap.
---
 src/razorback/signalset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 425272e..60d8d3d 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -1072,7 +1072,9 @@ class Inventory(object):
         if not keep_multi_tags:
             tags = {t for s in self for t in self.tags
                     if len(s.tags.get(t, ())) == 1}
-            content = itertools.chain(*map(self.select_channels, tags))
+            channels = (sorted({s.tags[t][0] for t in tags
+                                if len(s.tags.get(t, ())) == 1}) for s in self)
+            content = (s.select_channels(c) for s, cc in zip(self, channels) for c in cc)
             inventory = type(self)(content)
             return inventory.pack(True)
         freqs, tags = list(self.sampling_rates), self.tags
-- 
2.43.0


From ae181f3f53a853850152d9402e83d0db4d032335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:09 +0000
Subject: [PATCH 18/28] fix: coefficient of determination was nan if slightly
 negative by rounding

---
 src/razorback/prefilters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/prefilters.py b/src/razorback/prefilters.py
index 364de36..1178a52 100644
--- a/src/razorback/prefilters.py
+++ b/src/razorback/prefilters.py
@@ -43,7 +43,8 @@ class CoefficientOfDeterminationFilter(object):
         z = np.linalg.solve(A, b)
         residual = np.einsum("ijk,ik->ij", y, z) - x
         norm2 = lambda arr: np.sum(np.abs(arr) ** 2, axis=1)
-        res = np.sqrt(1 - norm2(residual) / norm2(x))
+        ratio = norm2(residual) / norm2(x)
+        res = np.sqrt(np.maximum(0, 1 - ratio))  # can be negative by rounding
         return res
 
 
-- 
2.43.0


From 434fcd0c5bafa5ed7395ee817f6f53b8302e747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 19/28] fix: rejected indices stay rejected when a weight
 function returns None

---
 src/razorback/mestimator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 9473cff..0216ae2 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -248,6 +248,8 @@ def m_estimate(
 def _eval_weight(it, residual, e, b, invalid_idx, weight_func, eps):
     residual[invalid_idx] = np.nan
     weight = weight_func(it, residual, e, b, invalid_idx)
+    if weight is None and len(invalid_idx):
+        weight = np.ones(len(e))  # identity but for the rejected indices
     if weight is not None:
         assert weight.ndim == 1
         weight[invalid_idx] = 0.
-- 
2.43.0


From 94d8b25af2503b30994b72f0b41b0bfd43704238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 20/28] fix: do not modify the arrays returned by weight
 functions

---
 src/razorback/mestimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/razorback/mestimator.py b/src/razorback/mestimator.py
index 0216ae2..128f049 100644
--- a/src/razorback/mestimator.py
+++ b/src/razorback/mestimator.py
@@ -252,6 +252,7 @@ def _eval_weight(it, residual, e, b, invalid_idx, weight_func, eps):
         weight = np.ones(len(e))  # identity but for the rejected indices
     if weight is not None:
         assert weight.ndim == 1
+        weight = np.array(weight)  # do not modify the array of weight_func
         weight[invalid_idx] = 0.
         (invalid_idx,) = np.nonzero(np.isclose(0, weight, 0, eps))
     return weight, invalid_idx
-- 
2.43.0


From 66c561d256589a96afe8c87c0eec304d12ffe3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 21/28] fix: failures of prefilters and of error estimation
 stay contained too

---
 src/razorback/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index a4dcbf0..f9b0c1f 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -231,8 +231,8 @@ def _impedance(
     ## First stage
     if remote:
         br = [coeffs[i] for i in data.tags[remote_name]]
-        remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
         try:
+            remote_ivid = apply_prefilter(b, br, remote_prefilter, None)
             T, ivT = _transfer_function(b, br, remote_weights,
                                         invalid_idx=remote_ivid, **mest_opts)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
@@ -255,10 +255,11 @@ def _impedance(
     if fail_at_first_stage:
         fail_at_second_stage = True
     else:
-        ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
         try:
+            ivid_2 = apply_prefilter(e, be, prefilter, ivid_1)
             z, ivid = _transfer_function(e, be, weights,
                                          invalid_idx=ivid_2, **mest_opts)
+            err = transfer_error(e, be, z, ivid)
         # TODO: catch only NonConvergence and (pas assez de poids ???)
         except Exception as ex:
             print(ex)
@@ -268,6 +269,7 @@ def _impedance(
     if fail_at_second_stage:
         nbr = len(br) if remote else 0
         z, ivid, ivt = np.array([[np.nan]*len(b)]*len(e)), None, ()
+        err = np.nan * z
         T = np.empty((len(b),nbr))
         T[:] = np.nan
     elif keep_invalid_times:
@@ -287,12 +289,6 @@ def _impedance(
     else:
         ivt = tuple(np.empty(0) for ivid_line in ivid)
 
-    ## error estimate
-    if fail_at_second_stage:
-        err = np.nan * z
-    else:
-        err = transfer_error(e, be, z, ivid)
-
     return ImpedanceResult(z, ivt, err, T)
 
 
-- 
2.43.0


From e6717cca0430ad760206a6e454fd9addbd34f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 22/28] fix: ats file loaded several times with different chunk
 sizes

The name given to the dask array did not depend on the chunks: two loadings of
the same file with distinct 'array.chunk-size' were mixed up when computed
together.
---
 src/razorback/io/ats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/razorback/io/ats.py b/src/razorback/io/ats.py
index ed9fee5..cda94c1 100644
--- a/src/razorback/io/ats.py
+++ b/src/razorback/io/ats.py
@@ -64,8 +64,8 @@ def read_ats_sample(filename):
         size=sample_length,
         dtype=np.int32,
     )
-    # full path: the name identifies the array in the dask graphs
-    arr = to_dask_array(bf_arr, name=os.path.abspath(filename))
+    # default name: it identifies the content and the chunks in the dask graphs
+    arr = to_dask_array(bf_arr)
     arr = lsbval * arr
     arr = arr.rechunk()
 
-- 
2.43.0


From 6ce87d3248c292cef9779090ef02046b5e9ec89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 23/28] fix: stars in [seq] and brackets before fields in
 tags_from_path() patterns

'[*]' did not match a star, and '[' before a star or a field matched nothing.
---
 src/razorback/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index f9b0c1f..63db33d 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -518,16 +518,18 @@ def tags_from_path(names, pattern, *tag_tpls):
 def _prepare_pattern(pattern):
     """ convert pattern from tags_from_path() to regex with groups
     """
-    flag = '[$@flag@$]'
-    singlestar = '[$@singlestar@$]'
-    doublestar = '[$@doublestar@$]'
+    flag, singlestar, doublestar = '\0', '\1', '\2'  # never in paths
     p0 = '([_0-9A-Za-z]+?)'
 
     pattern = os.path.normpath(pattern)
 
     rep = re.sub(r'{.*?}', flag, pattern)
-    rep = re.sub(r'\*\*', doublestar, rep)
-    rep = re.sub(r'\*', singlestar, rep)
+    # in [seq] and [!seq], a star is an ordinary character
+    stars = {'**': doublestar, '*': singlestar}
+    rep = re.sub(
+        r'\[!?\]?[^\]]*\]|\*\*|\*',
+        lambda m: stars.get(m.group(), m.group()), rep
+    )
     rep = fnmatch.translate(rep)
     rep = re.sub(re.escape(flag), p0, rep)
 
-- 
2.43.0


From c83ce1ed0d6adc2f5b99034c192769b779727922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 24/28] fix: repr() of a SignalSet with '%' in a tag

---
 src/razorback/signalset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/razorback/signalset.py b/src/razorback/signalset.py
index 60d8d3d..8e166d3 100644
--- a/src/razorback/signalset.py
+++ b/src/razorback/signalset.py
@@ -291,9 +291,8 @@ class SignalSet(object):
         return "%s\n%s\n%s" % (first_line, tags, sig)
 
     def __repr__(self):
-        res = '%s(%s, %%s)' % (type(self).__name__, self.tags)
-        res = res % ', '.join(map(repr, self.signals))
-        return res
+        signals = ', '.join(map(repr, self.signals))
+        return '%s(%s, %s)' % (type(self).__name__, self.tags, signals)
 
     def __getattr__(self, name):
         if name.startswith('_'):  # never a tag
-- 
2.43.0


From 225b4b8dd7251f3f90d861c8caf8cf558078d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 25/28] fix: prefilter_values_mass_proc does not alter the tags
 of the data it is given

---
 src/razorback/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/razorback/utils.py b/src/razorback/utils.py
index 63db33d..f904e0f 100644
--- a/src/razorback/utils.py
+++ b/src/razorback/utils.py
@@ -351,7 +351,6 @@ def prefilter_values_mass_proc(
         options = dict()
         if Bremote:
             options['remote'] = 'Bremote'
-            data.tags['Bremote'] = Bremote
 
         tl_values = []
         tl_times = []
@@ -359,6 +358,8 @@ def prefilter_values_mass_proc(
             n, m = map(len, [remote_combination, l_interval])
             print('%.1f%%' % ((100. * (k*m+i) / (n*m))))
             rdata = data.extract_t(*interval)
+            if Bremote:
+                rdata.tags['Bremote'] = Bremote
             l_values, l_times = prefilter_values(rdata, l_freq, prefilter, **options)
             tl_values.append(l_values)
             tl_times.append(l_times)
-- 
2.43.0


From 6586eba7d3f91d97f3106ba1f7c30489722dfb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 26/28] fix: metronix calibration of tables not sorted by
 frequency

Below the lowest tabulated frequency, not below the one of the first row.
---
 src/razorback/calibrations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/razorback/calibrations.py b/src/razorback/calibrations.py
index 9fffbb7..55af0f4 100644
--- a/src/razorback/calibrations.py
+++ b/src/razorback/calibrations.py
@@ -83,8 +83,9 @@ def metronix(filename, sampling_rate, chopper_on_limit=None, version_pattern=Non
             )
 
         alpha = alpha_map[vers]
-        freq_min = freq[0]
-        mod_min = table[0, 1]
+        i_min = freq.argmin()
+        freq_min = freq[i_min]
+        mod_min = table[i_min, 1]
 
         def calib_func(f):
             if f < freq_min and chopper:
-- 
2.43.0


From 78c1c8fd27e0587ead70c9fe7b74cea3c994fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 27/28] fix: state of weight functions mixed up by concurrent
 threads

Thomson and BoundedInfluenceStep keep the state of the estimation under way: keep one by thread (mest_weights is shared by everyone).
---
 src/razorback/weights.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index fa415bf..29db725 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -2,6 +2,8 @@
 """
 
 
+from threading import get_ident
+
 import numpy as np
 from scipy import linalg
 
@@ -74,10 +76,11 @@ class Thomson(object):
             xi = (2 * np.log(2 * len(residual))) ** .5
 
         x = vnorm(residual)
+        # one estimation by thread at a time
         if it == 0:
-            scale = self._data['scale'] = mad_scale(x, is_absolute=True)
+            scale = self._data[get_ident()] = mad_scale(x, is_absolute=True)
         else:
-            scale = self._data['scale']
+            scale = self._data[get_ident()]
         x /= scale
         return expexp(x, xi)
 
@@ -100,7 +103,7 @@ class BoundedInfluenceStep(object):
         )
 
     def __call__(self, it, residual, e, b, invalid_idx):
-        _prev = self._prev
+        _prev = self._prev.setdefault(get_ident(), {})  # one estimation by thread at a time
         if it == 0:
             _prev['it'] = -1
             _prev['bi_weight'] = 1.
-- 
2.43.0


From 945b60b51a9cad53e816889d0ebf7d70d2cefd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:00 +0000
Subject: [PATCH 28/28] fix: numpy error handling mixed up between threads by
 weight functions

The errstate objects shared by all calls store the previous state in
themselves: with two threads, one could restore that of the other.
---
 src/razorback/weights.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/razorback/weights.py b/src/razorback/weights.py
index 29db725..3bf1d07 100644
--- a/src/razorback/weights.py
+++ b/src/razorback/weights.py
@@ -2,6 +2,7 @@
 """
 
 
+from functools import partial
 from threading import get_ident
 
 import numpy as np
@@ -16,9 +17,9 @@ __all__ = [
 ]
 
 
-ignore_overflow = np.errstate(over='ignore')
-ignore_invalid = np.errstate(invalid='ignore')
-ignore_divide = np.errstate(divide='ignore')
+ignore_overflow = partial(np.errstate, over='ignore')
+ignore_invalid = partial(np.errstate, invalid='ignore')
+ignore_divide = partial(np.errstate, divide='ignore')
 
 
 class Weights(object):
@@ -54,7 +55,7 @@ class Huber(object):
     def __call__(self, it, residual, e, b, invalid_idx):
         x = vnorm(residual)
         scale = mad_scale(x, is_absolute=True)
-        with ignore_invalid:
+        with ignore_invalid():
             result = np.minimum(1, (self._alpha * scale) / x)
         return result
 
@@ -119,7 +120,7 @@ class BoundedInfluenceStep(object):
         A = H(b).dot(dotdiag(_prev['bi_weight'], b))
         h = _prev['bi_weight'] * np.sum(linalg.solve(A, H(b)) * b.T, axis=0).real
         y = _prev['trace_bi_weight'] * h / p
-        with ignore_divide:
+        with ignore_divide():
             hat_weight = _prev['hat_weight'] * expexp(y, self._khi) * expexp(np.log(y), np.log(self._lower))
 
         bi_weight = weight * hat_weight
@@ -160,21 +161,21 @@ def median_absolute_deviation(arr, is_absolute=False):
     if not is_absolute:
         arr = vnorm(arr)
     med = np.nanmedian(arr)
-    with ignore_invalid:
+    with ignore_invalid():
         abs_dev = vnorm(arr - med)
     return np.nanmedian(abs_dev)
 
 
 def expexp(x, a):
     C = np.exp(-a ** 2)
-    with ignore_overflow:
+    with ignore_overflow():
         result = np.exp(C - np.exp(a * (x - a)))
     return result
 
 
 def m_expexp(x, a):
     C = np.exp(-np.exp(-1./a))
-    with ignore_overflow:
+    with ignore_overflow():
         result = (1. - np.exp(-np.exp((x - a) / a))) / C
     return result
 
-- 
2.43.0

