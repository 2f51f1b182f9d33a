From 1b81cb57a32284f6d4548f7f99706d67dd446c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 01/38] fix: sliding window node emits the same windows however
 the stream is chunked

---
 zounds/spectral/sliding_window.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index c63776e..4d1372d 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -172,6 +172,7 @@ class SlidingWindow(Node):
         self._func = wfunc
         self._padwith = padwith
         self._cache = None
+        self._emitted = False
 
     def _first_chunk(self, data):
         if self._padwith:
@@ -191,6 +192,12 @@ class SlidingWindow(Node):
     def _dequeue(self):
         duration = TimeSlice(duration=self._scheme.duration)
         frequency = TimeSlice(duration=self._scheme.frequency)
+
+        if self._finalized and self._emitted:
+            ws, ss = self._cache._sliding_window_integer_slices(duration, frequency)
+            if len(self._cache) <= ws[0] - ss[0]:
+                raise NotEnoughData()
+
         leftover, arr = self._cache.sliding_window_with_leftovers(
             duration,
             frequency,
@@ -199,6 +206,7 @@ class SlidingWindow(Node):
         if not arr.size:
             raise NotEnoughData()
 
+        self._emitted = True
         self._cache = leftover
 
         # BUG: Order matters here (try arr * self._func instead)
-- 
2.43.0


From b4e27fa286dce464115fd09076dfcfc83311f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 02/38] fix: padded windowing keeps the samples after the last
 full window

---
 zounds/nputil/npx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index e6c18da..469c2be 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -99,7 +99,9 @@ def _wpad(l, windowsize, stepsize):
     nsteps = ((l // stepsize) * stepsize)
     overlap = (windowsize - stepsize)
     if overlap:
-        return nsteps + overlap
+        padded = nsteps + overlap
+        # samples past the last window need one more (padded) window
+        return padded if padded >= l else padded + stepsize
 
     diff = (l - nsteps)
     left = max(0, windowsize - diff)
-- 
2.43.0


From 7f2157b2b6a00e6a33758aa137ccf26855c61973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 03/38] fix: a range that stops at zero is reported and served
 as empty, not as the whole resource

---
 zounds/ui/contentrange.py | 2 +-
 zounds/ui/serializer.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/ui/contentrange.py b/zounds/ui/contentrange.py
index e87b448..9cb2b42 100644
--- a/zounds/ui/contentrange.py
+++ b/zounds/ui/contentrange.py
@@ -91,6 +91,6 @@ class ContentRange(object):
     def __str__(self):
         unit = self.unit
         start = self.start
-        stop = self.stop or self.total
+        stop = self.total if self.stop is None else self.stop
         total = self.total
         return '{unit} {start}-{stop}/{total}'.format(**locals())
diff --git a/zounds/ui/serializer.py b/zounds/ui/serializer.py
index 82f29fa..47b24cf 100644
--- a/zounds/ui/serializer.py
+++ b/zounds/ui/serializer.py
@@ -52,7 +52,7 @@ class DefaultSerializer(object):
         flo = feature(_id=document._id, decoder=Decoder(), persistence=document)
         if slce.start:
             flo.seek(slce.start)
-        if slce.stop:
+        if slce.stop is not None:
             value = flo.read(slce.stop - slce.start)
         else:
             value = flo.read()
-- 
2.43.0


From f1d4875f785894194df7ef0beb075afaba398767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 04/38] fix: the streaming buffer keeps positions in the stream
 after discarding consumed bytes

---
 zounds/soundfile/audiostream.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/soundfile/audiostream.py b/zounds/soundfile/audiostream.py
index 96b598f..3ae4ee3 100644
--- a/zounds/soundfile/audiostream.py
+++ b/zounds/soundfile/audiostream.py
@@ -1,5 +1,5 @@
 from io import BytesIO
-from os import SEEK_END
+from os import SEEK_END, SEEK_SET
 from soundfile import SoundFile
 from zounds.timeseries import audio_sample_rate, AudioSamples
 from .byte_depth import chunk_size_samples
@@ -128,6 +128,8 @@ class MemoryBuffer(object):
         super(MemoryBuffer, self).__init__()
         self._content_length = content_length
         self._buf = BytesIO()
+        # the number of consumed bytes that are no longer held in memory
+        self._discarded = 0
         self._max_size = max_size
         self.tell = self._tell
 
@@ -152,6 +154,7 @@ class MemoryBuffer(object):
             new_buf = BytesIO()
             new_buf.write(self._buf.read())
             self._buf = new_buf
+            self._discarded += read_pos
             read_pos = 0
         self._buf.seek(0, 2)
         self._buf.write(data)
@@ -159,7 +162,7 @@ class MemoryBuffer(object):
         return len(data)
 
     def _tell(self):
-        return self._buf.tell()
+        return self._discarded + self._buf.tell()
 
     def _tell_end(self):
         self.tell = self._tell
@@ -170,6 +173,9 @@ class MemoryBuffer(object):
             # KLUDGE: PySoundfile no longer supports __len__, which means that
             # this stateful garbage is required.
             self.tell = self._tell_end
+        elif whence == SEEK_SET:
+            # positions are relative to the beginning of the stream
+            offset -= self._discarded
         self._buf.seek(offset, whence)
 
     def flush(self):
-- 
2.43.0


From 7b77a452bf024e0df37d103277d8cd0cb67c1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 05/38] fix: silence_like returns silence instead of a constant
 signal of ones

---
 zounds/timeseries/audiosamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index e77be9f..2df075e 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -89,10 +89,8 @@ class AudioSamples(ArrayWithUnits):
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-        x = self.__class__.silence(
+        return self.__class__.silence(
             self.samplerate, duration, self.dtype, self.channels)
-        x[:] = 1
-        return x
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-- 
2.43.0


From d2ae807d1abdddc7c22a97ae5b6c61b7ac69ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 06/38] fix: silence of a single sample keeps its time axis and
 channels

---
 zounds/timeseries/audiosamples.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 2df075e..773160c 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -84,8 +84,9 @@ class AudioSamples(ArrayWithUnits):
 
     @classmethod
     def silence(cls, samplerate, duration, dtype=np.float32, channels=1):
-        shape = (int(duration / samplerate.frequency), channels)
-        silence = np.zeros(shape, dtype=dtype).squeeze()
+        n_samples = int(duration / samplerate.frequency)
+        shape = (n_samples,) if channels == 1 else (n_samples, channels)
+        silence = np.zeros(shape, dtype=dtype)
         return cls(silence, samplerate)
 
     def silence_like(self, duration):
-- 
2.43.0


From 00c88830c585acec5ac87c998a9107fb547faeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 07/38] fix: multi-channel audio can be padded with silence

---
 zounds/timeseries/audiosamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 773160c..248ad07 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -95,7 +95,7 @@ class AudioSamples(ArrayWithUnits):
 
     def pad_with_silence(self, silence_duration=Seconds(1)):
         silence = self.__class__.silence(
-            self.samplerate, silence_duration, self.dtype)
+            self.samplerate, silence_duration, self.dtype, self.channels)
         return AudioSamples(np.concatenate([self, silence]), self.samplerate)
 
     @property
-- 
2.43.0


From 594cc0510a054f7666ff52e8c6b2e722f9bb9ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 08/38] fix: mono audio is the average of both channels, not
 half of it

---
 zounds/timeseries/audiosamples.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zounds/timeseries/audiosamples.py b/zounds/timeseries/audiosamples.py
index 248ad07..836b567 100644
--- a/zounds/timeseries/audiosamples.py
+++ b/zounds/timeseries/audiosamples.py
@@ -153,8 +153,7 @@ class AudioSamples(ArrayWithUnits):
         if self.channels == 1:
             return self
         x = self.sum(axis=1) * 0.5
-        y = x * 0.5
-        return AudioSamples(y, self.samplerate)
+        return AudioSamples(x, self.samplerate)
 
     @property
     def stereo(self):
-- 
2.43.0


From e7ee224c0b6531154e834b7c7e7fd549409b47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 09/38] fix: unit scaling of constant data gives zeros instead
 of nan

---
 zounds/loudness/loudness.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/loudness/loudness.py b/zounds/loudness/loudness.py
index de167bf..32f5269 100644
--- a/zounds/loudness/loudness.py
+++ b/zounds/loudness/loudness.py
@@ -49,8 +49,8 @@ def instance_scale(x, axis=-1, epsilon=1e-8, return_maxes=False):
 def unit_scale(x, axis=None):
     scaled = x - x.min(axis=axis, keepdims=True)
     mx = scaled.max(axis=axis, keepdims=True)
-    scaled = np.divide(scaled, mx, where=max != 0)
-    return scaled
+    # the scaled values are all zero wherever their maximum is
+    return scaled / np.where(mx == 0, 1, mx)
 
 
 class MuLaw(Node):
-- 
2.43.0


From eb9ede991f48a121b28cb7748bbb82af299f17dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 10/38] fix: safe_unit_norm normalizes the vectors of arrays of
 more than two dimensions

---
 zounds/nputil/npx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/nputil/npx.py b/zounds/nputil/npx.py
index 469c2be..21eef68 100644
--- a/zounds/nputil/npx.py
+++ b/zounds/nputil/npx.py
@@ -60,7 +60,7 @@ def safe_unit_norm(a):
     # values to another number. It doesn't matter what, since we'll be dividing
     # a vector of zeros by the number, and 0 / N always equals 0.
     norm[norm == 0] = -1e12
-    return a / norm[:, np.newaxis]
+    return a / norm[..., np.newaxis]
 
 
 def pad(a, desiredlength):
-- 
2.43.0


From 3cd9148fbb1405d1556c24257d0700a8f1b0adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 11/38] fix: sliding windows over several time axes have one
 dimension per axis

---
 zounds/core/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8e510c3..f0ee6e8 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -185,6 +185,10 @@ class ArrayWithUnits(np.ndarray):
         except ValueError:
             new_dims = [IdentityDimension()] * result.ndim
 
+        if len(new_dims) != result.ndim:
+            # the positions along several axes were flattened into one
+            new_dims = [IdentityDimension()] * result.ndim
+
         return ArrayWithUnits(result, new_dims)
 
     def _sliding_window_integer_slices(self, windowsize, stepsize=None):
-- 
2.43.0


From e9052cde47864f821fc0df94b10dd8aea7896a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 12/38] fix: bands of a linear scale with one band

---
 zounds/spectral/frequencyscale.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index f775818..c6ac324 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -398,10 +398,13 @@ class LinearScale(FrequencyScale):
         return LinearScale(fb, n_bands, always_even=always_even)
 
     def _compute_bands(self):
-        freqs = np.linspace(
-            self.start_hz, self.stop_hz, self.n_bands, endpoint=False)
         # constant, non-overlapping bandwidth
-        bandwidth = freqs[1] - freqs[0]
+        freqs, bandwidth = np.linspace(
+            self.start_hz,
+            self.stop_hz,
+            self.n_bands,
+            endpoint=False,
+            retstep=True)
         return tuple(FrequencyBand(f, f + bandwidth) for f in freqs)
 
 
-- 
2.43.0


From 5bee1f6756be04946f1d3ec2177341ac721dcd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 13/38] fix: slices of Bark and Mel scales, and slices with a
 step, keep the selected bands

---
 zounds/spectral/frequencyscale.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/frequencyscale.py b/zounds/spectral/frequencyscale.py
index c6ac324..87e50ec 100644
--- a/zounds/spectral/frequencyscale.py
+++ b/zounds/spectral/frequencyscale.py
@@ -283,8 +283,7 @@ class FrequencyScale(object):
         return iter(self.bands)
 
     def _construct_scale_from_slice(self, bands):
-        freq_band = FrequencyBand(bands[0].start_hz, bands[-1].stop_hz)
-        return self.__class__(freq_band, len(bands))
+        return ExplicitScale(bands)
 
     def get_slice(self, frequency_band):
         """
@@ -340,6 +339,10 @@ class FrequencyScale(object):
         if isinstance(bands, FrequencyBand):
             return bands
 
+        if isinstance(index, slice) and index.step not in (None, 1):
+            # the selected bands aren't adjacent to one another
+            return ExplicitScale(bands)
+
         return self._construct_scale_from_slice(bands)
 
     def __str__(self):
@@ -397,6 +400,10 @@ class LinearScale(FrequencyScale):
         fb = FrequencyBand(0, sample_rate.nyquist)
         return LinearScale(fb, n_bands, always_even=always_even)
 
+    def _construct_scale_from_slice(self, bands):
+        freq_band = FrequencyBand(bands[0].start_hz, bands[-1].stop_hz)
+        return self.__class__(freq_band, len(bands))
+
     def _compute_bands(self):
         # constant, non-overlapping bandwidth
         freqs, bandwidth = np.linspace(
-- 
2.43.0


From 6568e38cb924461d81919138e5255c42281053fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:31 +0000
Subject: [PATCH 14/38] fix: a slice of a frequency-adaptive array can be
 indexed by band and weighted itself

---
 zounds/spectral/tfrepresentation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 555c926..5299553 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -110,24 +110,33 @@ class ExplicitFrequencyDimension(Dimension):
         w = np.zeros(self.slices[-1].stop - self.slices[0].start)
         for weight, sl in zip(weights, self.slices):
             w[sl] = weight
-        return w
+        shape = [1] * arr.ndim
+        shape[i] = w.size
+        return w.reshape(shape)
 
     def modified_dimension(self, size, windowsize, stepsize=None):
         raise NotImplementedError()
 
+    @staticmethod
+    def _rebase(slices):
+        # the positions of the slices in an array holding only these slices
+        offset = slices[0].start
+        return [slice(s.start - offset, s.stop - offset) for s in slices]
+
     def metaslice(self, index, size):
         if isinstance(index, frequencyscale.FrequencyBand):
             try:
                 slce = self._lookup[index]
                 return ExplicitFrequencyDimension(
-                    ExplicitScale([index]), [slce])
+                    ExplicitScale([index]), self._rebase([slce]))
             except KeyError:
                 slce = self.scale.get_slice(index)
         else:
             slce = index
 
         print(slce)
-        return ExplicitFrequencyDimension(self.scale[slce], self.slices[slce])
+        return ExplicitFrequencyDimension(
+            self.scale[slce], self._rebase(self.slices[slce]))
 
     def integer_based_slice(self, index):
         if not isinstance(index, frequencyscale.FrequencyBand):
-- 
2.43.0


From 72b8f49b282d01e7593a424ab45b3b727220639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 15/38] fix: custom slices after a new axis are translated by
 the dimension they address

---
 zounds/core/axis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index f0ee6e8..50dc883 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -250,15 +250,19 @@ class ArrayWithUnits(np.ndarray):
     def _compute_indices(self, index):
         dims_pos = 0
         for sl in index:
-            if sl is None \
-                    or isinstance(sl, int) \
+            if sl is None:
+                # a new axis doesn't correspond to any existing dimension
+                yield sl
+            elif isinstance(sl, int) \
                     or self._is_integer_based_slice(sl) \
                     or isinstance(sl, list):
                 # burn one
                 dims_pos += 1
                 yield sl
             elif sl is Ellipsis:
-                dims_pos += len(self.dimensions) - (len(index) - 1)
+                addressed = [
+                    x for x in index if x is not Ellipsis and x is not None]
+                dims_pos += len(self.dimensions) - len(addressed)
                 yield Ellipsis
             else:
                 dim = self.dimensions[dims_pos]
-- 
2.43.0


From e4103d4f4e89f0901095ff92f0460d0b84008d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 16/38] fix: numpy integers index an axis just like python
 integers

---
 zounds/core/axis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 50dc883..83948be 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -1,3 +1,4 @@
+import numbers
 import numpy as np
 from zounds.nputil import sliding_window, windowed
 from zounds.util import tuplify
@@ -253,7 +254,7 @@ class ArrayWithUnits(np.ndarray):
             if sl is None:
                 # a new axis doesn't correspond to any existing dimension
                 yield sl
-            elif isinstance(sl, int) \
+            elif isinstance(sl, numbers.Integral) \
                     or self._is_integer_based_slice(sl) \
                     or isinstance(sl, list):
                 # burn one
@@ -277,7 +278,7 @@ class ArrayWithUnits(np.ndarray):
             if sl is None:
                 # additional dimension via np.newaxis
                 yield IdentityDimension()
-            elif isinstance(sl, int):
+            elif isinstance(sl, numbers.Integral):
                 # burn a dimension
                 dims_pos += 1
             elif isinstance(sl, list):
@@ -334,7 +335,7 @@ class ArrayWithUnits(np.ndarray):
                 and index.dtype == np.bool:
             return np.asarray(self)[index]
 
-        if self.ndim == 1 and isinstance(index, int):
+        if self.ndim == 1 and isinstance(index, numbers.Integral):
             return np.asarray(self)[index]
 
         index = self._tuplify(index)
-- 
2.43.0


From 992c469d8d4328a809f102b313ee2a9966666a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 17/38] fix: the axis selected by several lists, or by a list
 apart from integers, gets the right place among the dimensions

---
 zounds/core/axis.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 83948be..6bc1735 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -274,20 +274,33 @@ class ArrayWithUnits(np.ndarray):
         dims_pos = 0
         shape_pos = 0
         not_ellipsis_or_none = len([x for x in index if x is not Ellipsis and x is not None])
-        for sl in index:
+
+        # numpy combines lists, and integers used along with lists, into a
+        # single axis.  It takes the place of the first of them if they're all
+        # next to each other, and is the first axis otherwise
+        list_axis = None
+        if any(isinstance(x, list) for x in index):
+            combined = [i for i, x in enumerate(index)
+                        if isinstance(x, (list, numbers.Integral))]
+            if combined[-1] - combined[0] == len(combined) - 1:
+                list_axis = combined[0]
+            else:
+                shape_pos += 1
+                yield IdentityDimension()
+
+        for i, sl in enumerate(index):
             if sl is None:
                 # additional dimension via np.newaxis
                 yield IdentityDimension()
-            elif isinstance(sl, numbers.Integral):
+            elif isinstance(sl, (list, numbers.Integral)):
                 # burn a dimension
                 dims_pos += 1
-            elif isinstance(sl, list):
-                dims_pos += 1
-                shape_pos += 1
-                yield IdentityDimension()
+                if i == list_axis:
+                    shape_pos += 1
+                    yield IdentityDimension()
             elif sl is Ellipsis:
                 ellipsis_size = len(self.dimensions) - not_ellipsis_or_none
-                for i in range(ellipsis_size):
+                for _ in range(ellipsis_size):
                     yield self.dimensions[dims_pos]
                     dims_pos += 1
                     shape_pos += 1
-- 
2.43.0


From 311e78a01a84a6f84baa47d46b2b148cc0eec491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 18/38] fix: indexing by an empty list of positions

---
 zounds/core/axis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 6bc1735..5ea5522 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -320,6 +320,8 @@ class ArrayWithUnits(np.ndarray):
 
     def _tuplify(self, a):
         if isinstance(a, list):
+            if not a:
+                return a,
             t = set([x.__class__ for x in a])
             if len(t) > 1:
                 raise ValueError('a must be homogeneous')
-- 
2.43.0


From f45562b40c9f766057ccbf682044a998f1bdb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 19/38] fix: slices with integer bounds of zero, or of numpy
 integers, keep their step and are never taken for durations

---
 zounds/core/axis.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 5ea5522..1499da2 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -241,12 +241,11 @@ class ArrayWithUnits(np.ndarray):
         if not isinstance(sl, slice):
             return False
 
-        try:
-            return \
-                (sl.start is None or sl.start.bit_length()) \
-                and (sl.stop is None or sl.stop.bit_length())
-        except AttributeError:
-            return False
+        # durations are integers too, as far as numpy is concerned
+        return all(
+            x is None or (isinstance(x, numbers.Integral)
+                          and not isinstance(x, np.timedelta64))
+            for x in (sl.start, sl.stop))
 
     def _compute_indices(self, index):
         dims_pos = 0
-- 
2.43.0


From 06520120644d67d04d6af8cbe0207357476970a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 20/38] fix: squeezing an array with an empty axis keeps that
 axis

---
 zounds/core/axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 1499da2..8211e61 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -100,7 +100,7 @@ class ArrayWithUnits(np.ndarray):
             [IdentityDimension() for _ in shape])
 
     def squeeze(self):
-        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] > 1]
+        zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
         return ArrayWithUnits(
             super().reshape([s for s, _ in zipped]),
             [d for _, d in zipped])
-- 
2.43.0


From 825ab487d2dc08bd5de7f367986b4c71a3941017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 21/38] fix: reshape keeps the dimensions of all other axes
 when only singleton axes come and go

---
 zounds/core/axis.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 8211e61..cbf3eec 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -78,26 +78,24 @@ class ArrayWithUnits(np.ndarray):
             raise ValueError('All dimensions must match to concatenate')
 
     def reshape(self, shape, order='C'):
-        non_one = lambda x: abs(x) != 1
-
-        if tuple(shape) == tuple(filter(non_one, self.shape)):
-            # the new shape is this array's shape will all ones removed
-            return self.squeeze()
-        elif tuple(self.shape) == tuple(filter(non_one, shape)):
-            # the new shape just adds some single dimension axes
-            dims = iter(self.dimensions)
+        raw = np.reshape(np.asarray(self), shape, order)
+        kept = [(size, dim) for size, dim in zip(self.shape, self.dimensions)
+                if size != 1]
+
+        if raw.shape == self.shape:
+            new_dims = self.dimensions
+        elif [size for size in raw.shape if size != 1] == [s for s, _ in kept]:
+            # the new shape just adds and removes some single dimension axes
+            dims = iter([dim for _, dim in kept])
             new_dims = [
-                IdentityDimension() if abs(size) == 1 else next(dims)
-                for size in shape
+                IdentityDimension() if size == 1 else next(dims)
+                for size in raw.shape
             ]
-            raw = np.asarray(self)
-            return ArrayWithUnits(raw.reshape(shape), new_dims)
+        else:
+            # treat every axis as an IdentityDimension
+            new_dims = [IdentityDimension() for _ in raw.shape]
 
-        # treat every axis as an IdentityDimension
-        raw = np.asarray(self)
-        return ArrayWithUnits(
-            np.reshape(raw, shape, order),
-            [IdentityDimension() for _ in shape])
+        return ArrayWithUnits(raw, new_dims)
 
     def squeeze(self):
         zipped = [x for x in zip(self.shape, self.dimensions) if x[0] != 1]
-- 
2.43.0


From 29be6a20b659072cc32ca35a4a8a6a06dc9db843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 22/38] fix: axes that are kept by a reduction of the whole
 array get identity dimensions

---
 zounds/core/axis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index cbf3eec..e55d704 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -127,10 +127,13 @@ class ArrayWithUnits(np.ndarray):
         return self.__class__.zeros(self)
 
     def _apply_reduction_to_dimensions(self, result, axis, keepdims):
+        ndims = len(self.dimensions)
+
         if axis is None:
-            return result
+            if not keepdims:
+                return result
+            axis = range(ndims)
 
-        ndims = len(self.dimensions)
         reduced_axes = set([ndims + a if a < 0 else a for a in tuplify(axis)])
         all_axes = set(range(ndims))
 
-- 
2.43.0


From 5951f64954a93c4fc330708ec55102eeba19099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 23/38] fix: transpose() moves the dimensions along with the
 axes

---
 zounds/core/axis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index e55d704..50bbe8b 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -68,6 +68,14 @@ class ArrayWithUnits(np.ndarray):
         arr = super(ArrayWithUnits, self).T
         return ArrayWithUnits(arr, self.dimensions[::-1])
 
+    def transpose(self, *axes):
+        arr = super(ArrayWithUnits, self).transpose(*axes)
+        if len(axes) == 1:
+            axes = axes[0]
+        if not isinstance(axes, numbers.Integral) and not axes:
+            return ArrayWithUnits(arr, self.dimensions[::-1])
+        return ArrayWithUnits(arr, [self.dimensions[a] for a in tuplify(axes)])
+
     def kwargs(self):
         return self.__dict__
 
-- 
2.43.0


From 00054e36c73ebb1bbfa174395f8afd80fcbd2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 24/38] fix: dimensions of different kinds are unequal, so
 arrays that have them are not concatenated

---
 zounds/spectral/tfrepresentation.py | 9 +++++++--
 zounds/timeseries/timeseries.py     | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 5299553..75e3ea3 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -69,7 +69,9 @@ class FrequencyDimension(Dimension):
             raise ValueError(msg.format(**locals()))
 
     def __eq__(self, other):
-        return self.scale == other.scale
+        return \
+            isinstance(other, FrequencyDimension) \
+            and self.scale == other.scale
 
     def __str__(self):
         return 'FrequencyDimension(scale={self.scale})'.format(**locals())
@@ -155,7 +157,10 @@ class ExplicitFrequencyDimension(Dimension):
         return size == self.slices[-1].stop
 
     def __eq__(self, other):
-        return self.scale == other.scale and self.slices == other.slices
+        return \
+            isinstance(other, ExplicitFrequencyDimension) \
+            and self.scale == other.scale \
+            and self.slices == other.slices
 
     def __str__(self):
         return \
diff --git a/zounds/timeseries/timeseries.py b/zounds/timeseries/timeseries.py
index b20938e..e1d75a5 100644
--- a/zounds/timeseries/timeseries.py
+++ b/zounds/timeseries/timeseries.py
@@ -276,5 +276,6 @@ class TimeDimension(Dimension):
 
     def __eq__(self, other):
         return \
-            self.frequency == other.frequency \
+            isinstance(other, TimeDimension) \
+            and self.frequency == other.frequency \
             and self.duration == other.duration
-- 
2.43.0


From 84524ce6b22a9ae0a0cac3cc7745bd17132c9f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:32 +0000
Subject: [PATCH 25/38] fix: reducing every axis of an array by naming them
 gives a number, as without naming them

---
 zounds/core/axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zounds/core/axis.py b/zounds/core/axis.py
index 50bbe8b..175c695 100644
--- a/zounds/core/axis.py
+++ b/zounds/core/axis.py
@@ -153,6 +153,10 @@ class ArrayWithUnits(np.ndarray):
             remaining_axes = sorted(all_axes - reduced_axes)
             new_dims = [self.dimensions[i] for i in remaining_axes]
 
+        if not new_dims:
+            # every axis was reduced, so the result is a scalar
+            return result
+
         return ArrayWithUnits(result, new_dims)
 
     def sum(self, axis=None, dtype=None, keepdims=False, **kwargs):
-- 
2.43.0


From 3e8fc8b88f1509168074701a290bdfd28cbb5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:47 +0000
Subject: [PATCH 26/38] fix: windowing functions are not truncated to integers
 when applied to integer samples

---
 zounds/spectral/sliding_window.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zounds/spectral/sliding_window.py b/zounds/spectral/sliding_window.py
index 4d1372d..ec51456 100644
--- a/zounds/spectral/sliding_window.py
+++ b/zounds/spectral/sliding_window.py
@@ -65,6 +65,12 @@ class WindowingFunc(object):
             self._cache[size] = window
             return window
 
+    @staticmethod
+    def _as_dtype(window, dtype):
+        # casting a window to integers would leave nothing but zeros and ones
+        return window.astype(dtype) \
+            if np.issubdtype(dtype, np.inexact) else window
+
     def __array_ufunc__(self, ufunc, method, *args, **kwargs):
 
         if args[0] is self:
@@ -74,7 +80,7 @@ class WindowingFunc(object):
             wdata = self._wdata(size)
             if wdata is None:
                 return second_arg
-            first_arg = wdata.astype(dtype)
+            first_arg = self._as_dtype(wdata, dtype)
         else:
             first_arg = args[0]
             size = first_arg.shape[-1]
@@ -82,7 +88,7 @@ class WindowingFunc(object):
             wdata = self._wdata(size)
             if wdata is None:
                 return first_arg
-            second_arg = wdata.astype(dtype)
+            second_arg = self._as_dtype(wdata, dtype)
 
         return getattr(ufunc, method)(first_arg, second_arg, **kwargs)
 
-- 
2.43.0


From d422db43797a6b206ce22da98f362c5ef4ac657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:48 +0000
Subject: [PATCH 27/38] fix: apply_scale works without a window

---
 zounds/spectral/functional.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zounds/spectral/functional.py b/zounds/spectral/functional.py
index e33d6a0..5670fba 100644
--- a/zounds/spectral/functional.py
+++ b/zounds/spectral/functional.py
@@ -238,6 +238,7 @@ def phase_shift(coeffs, samplerate, time_shift, axis=-1, frequency_band=None):
 
 
 def apply_scale(short_time_fft, scale, window=None):
+    window = IdentityWindowingFunc() if window is None else window
     magnitudes = np.abs(short_time_fft.real)
     spectrogram = scale.apply(magnitudes, window)
     dimensions = short_time_fft.dimensions[:-1] + (FrequencyDimension(scale),)
-- 
2.43.0


From cdce40c08c8e4e39af06e754113cd0e785e8d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 28/38] fix: preprocessing maps examples of zero norm,
 deviation or maximum to zero instead of leaving them uninitialised

---
 zounds/learn/functional.py | 3 ++-
 zounds/learn/preprocess.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/zounds/learn/functional.py b/zounds/learn/functional.py
index 9cda320..e92c2f7 100644
--- a/zounds/learn/functional.py
+++ b/zounds/learn/functional.py
@@ -27,7 +27,8 @@ def example_wise_unit_norm(x, return_norms=False):
     # other axes as features
     x = x.reshape((len(x), -1))
     norms = np.linalg.norm(x, axis=-1, keepdims=True)
-    normed = np.divide(x, norms, where=norms != 0)
+    # examples with a norm of zero are all zero, and stay that way
+    normed = np.divide(x, np.where(norms != 0, norms, 1))
     normed = normed.reshape(original_shape)
 
     if return_norms:
diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index 576bb75..f3dcef0 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -426,7 +426,9 @@ class MeanStdNormalization(Preprocessor):
     def _forward_func(self):
         def x(d, mean=None, std=None):
             import numpy as np
-            return np.divide(d - mean, std, where=std != 0)
+            centered = d - mean
+            return np.divide(
+                centered, std, out=np.zeros_like(centered), where=std != 0)
 
         return x
 
@@ -469,7 +471,7 @@ class InstanceScaling(Preprocessor):
             # TODO: it should be possible to hand this intermediate value off
             # to inversion data, and to ignore the extra
             m = np.max(np.abs(d), axis=axes, keepdims=True)
-            output = max_value * np.divide(d, m, where=m != 0)
+            output = max_value * np.divide(d, np.where(m != 0, m, 1))
             return ForwardResult(output, max=m, max_value=max_value)
 
         return x
-- 
2.43.0


From 73d4ed4dc16d3b6748076f191d564151f17d152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:37 +0000
Subject: [PATCH 29/38] fix: unit norm of one-dimensional data is undone
 example by example

---
 zounds/learn/preprocess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zounds/learn/preprocess.py b/zounds/learn/preprocess.py
index f3dcef0..bf1de1c 100644
--- a/zounds/learn/preprocess.py
+++ b/zounds/learn/preprocess.py
@@ -189,9 +189,7 @@ class UnitNorm(Preprocessor):
 
     def _backward_func(self):
         def x(d, norm=None):
-            dim_diff = d.ndim - norm.ndim
-            new_dims = (1,) * dim_diff
-            return d * norm.reshape(norm.shape + new_dims)
+            return d * norm.reshape(norm.shape[:1] + (1,) * (d.ndim - 1))
 
         return x
 
-- 
2.43.0


From 48431aeb7d79f2b443b7c27173b88db65a785b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 30/38] fix: negative durations survive encoding and decoding

---
 zounds/persistence/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/util.py b/zounds/persistence/util.py
index 43af291..9798e00 100644
--- a/zounds/persistence/util.py
+++ b/zounds/persistence/util.py
@@ -9,13 +9,13 @@ TIMEDELTA_DTYPE_RE = re.compile(r'\[(?P<dtype>[^\]]+)\]')
 def encode_timedelta(td):
     dtype = TIMEDELTA_DTYPE_RE.search(str(td.dtype)).groupdict()['dtype']
     # base64 encoded value, encoded as a utf-8
-    encoded = base64.b64encode(td.astype(np.uint64).tostring()).decode()
+    encoded = base64.b64encode(td.astype(np.int64).tostring()).decode()
     return encoded, dtype
 
 
 def decode_timedelta(t):
     try:
-        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.uint64)[0]
+        v = np.frombuffer(base64.b64decode(t[0]), dtype=np.int64)[0]
         s = t[1]
         return np.timedelta64(int(v), s)
     except IndexError:
-- 
2.43.0


From 1e52183689a7aaa4405cfb6e9ca90e8755623d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 31/38] fix: open-ended time slices can be encoded

---
 zounds/persistence/timeslice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/timeslice.py b/zounds/persistence/timeslice.py
index 49bb8c7..8a2a34b 100644
--- a/zounds/persistence/timeslice.py
+++ b/zounds/persistence/timeslice.py
@@ -8,7 +8,8 @@ class TimeSliceEncoder(object):
     def dict(self, ts):
         return dict(
             start=encode_timedelta(ts.start),
-            duration=encode_timedelta(ts.duration))
+            duration=None if ts.duration is None
+            else encode_timedelta(ts.duration))
 
 
 class TimeSliceDecoder(object):
@@ -18,5 +19,6 @@ class TimeSliceDecoder(object):
     def kwargs(self, d):
         return dict(
             start=decode_timedelta(d['start']),
-            duration=decode_timedelta(d['duration']))
+            duration=None if d['duration'] is None
+            else decode_timedelta(d['duration']))
 
-- 
2.43.0


From 23a81c0dea6d9833e6f850f3432565b946d9ed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 32/38] fix: explicit frequency dimensions compare equal
 whatever sequence their slices came in

---
 zounds/spectral/tfrepresentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/spectral/tfrepresentation.py b/zounds/spectral/tfrepresentation.py
index 75e3ea3..d7e5ebe 100644
--- a/zounds/spectral/tfrepresentation.py
+++ b/zounds/spectral/tfrepresentation.py
@@ -102,7 +102,7 @@ class ExplicitFrequencyDimension(Dimension):
             raise ValueError('scale and slices must have same length')
 
         self.scale = scale
-        self.slices = slices
+        self.slices = list(slices)
         self._lookup = dict(list(zip(self.scale, self.slices)))
 
     def copy(self):
-- 
2.43.0


From 9fe2aef015499d57d95a4158756a8dd38a80ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 33/38] fix: packed array features can be declared

---
 zounds/persistence/arraywithunits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 25877af..0a6e70e 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -118,7 +118,7 @@ class PackedArrayWithUnitsFeature(Feature):
             encoder=PackedArrayWithUnitsEncoder,
             decoder=ArrayWithUnitsDecoder(),
             **extractor_args):
-        super(ArrayWithUnitsFeature, self).__init__(
+        super(PackedArrayWithUnitsFeature, self).__init__(
                 extractor,
                 needs=needs,
                 store=store,
-- 
2.43.0


From 7db081c32dfcd5d00a5e496db57044a345df762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:57 +0000
Subject: [PATCH 34/38] fix: the packed axis is not described by the dimension
 of the unpacked one

---
 zounds/persistence/arraywithunits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zounds/persistence/arraywithunits.py b/zounds/persistence/arraywithunits.py
index 0a6e70e..504c5c8 100644
--- a/zounds/persistence/arraywithunits.py
+++ b/zounds/persistence/arraywithunits.py
@@ -1,4 +1,4 @@
-from zounds.core import ArrayWithUnits
+from zounds.core import ArrayWithUnits, IdentityDimension
 from zounds.persistence import DimensionEncoder, DimensionDecoder
 from featureflow import Node, Decoder, Feature, NumpyMetaData
 import struct
@@ -49,7 +49,10 @@ class PackedArrayWithUnitsEncoder(Node):
 
     def _process(self, data):
         if self.dimensions is None:
-            self.dimensions = data.dimensions
+            # the last axis of the packed data holds bytes, rather than the
+            # samples that the original dimension describes
+            self.dimensions = tuple(data.dimensions[:-1]) + \
+                (IdentityDimension(),)
             d = list(self.encoder.encode(self.dimensions))
             encoded = json.dumps(d)
             yield struct.pack('I', len(encoded))
-- 
2.43.0


From e5647ccf96071e6ed49d368546ce0de470cf2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 35/38] fix: text codes are measured once encoded, so a wrong
 size is never stored

---
 zounds/index/hammingdb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 4576b7f..1b4c93f 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -139,15 +139,15 @@ class HammingDb(object):
         return binascii.hexlify(os.urandom(16))
 
     def append(self, code, data):
+        try:
+            code = code.encode()
+        except AttributeError:
+            pass
         self._validate_code_size(code)
         self._initialize_in_memory_store()
 
         with self.env.begin(write=True) as txn:
             _id = self._new_id()
-            try:
-                code = code.encode()
-            except AttributeError:
-                pass
             try:
                 data = data.encode()
             except AttributeError:
-- 
2.43.0


From cc604d2d37c5ff743fe314609156051898c2eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 36/38] fix: multithreaded search of an empty hamming database

---
 zounds/index/hammingdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 1b4c93f..0c96ddc 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -184,7 +184,7 @@ class HammingDb(object):
         if codes.ndim == 1:
             codes = codes[..., None]
 
-        if not multithreaded:
+        if not multithreaded or not len(codes):
             scores = packed_hamming_distance(query, codes)
         else:
             n_codes = len(codes)
-- 
2.43.0


From 30310e1e5e37491b012902794d9428bf2551c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 37/38] fix: hamming database searches may ask for as many
 results as there are entries, or more

---
 zounds/index/hammingdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zounds/index/hammingdb.py b/zounds/index/hammingdb.py
index 0c96ddc..20b36cb 100644
--- a/zounds/index/hammingdb.py
+++ b/zounds/index/hammingdb.py
@@ -197,7 +197,12 @@ class HammingDb(object):
         # argpartition will ensure that the lowest scores will all be
         # withing the first n_results elements, but makes no guarantees
         # about the ordering *within* n_results
-        partitioned_indices = np.argpartition(scores, n_results)[:n_results]
+        if n_results < len(scores):
+            partitioned_indices = \
+                np.argpartition(scores, n_results)[:n_results]
+        else:
+            # there are no more than n_results codes, so they're all results
+            partitioned_indices = np.arange(len(scores))
 
         if sort:
             # since argpartition doesn't guarantee that the results are
-- 
2.43.0


From 9352b0a0e1a3ae23e8ea0cf6606a980dff46583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:43 +0000
Subject: [PATCH 38/38] fix: a variable-rate series keeps the data of every
 entry

The element type was that of the first entry, and the data of the others
were truncated to it.
---
 zounds/timeseries/variablerate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zounds/timeseries/variablerate.py b/zounds/timeseries/variablerate.py
index a96c071..3142339 100644
--- a/zounds/timeseries/variablerate.py
+++ b/zounds/timeseries/variablerate.py
@@ -16,7 +16,7 @@ class VariableRateTimeSeries(object):
         try:
             example = data[0][1]
             shape = example.shape
-            dtype = example.dtype
+            dtype = np.result_type(*{x[1].dtype for x in data})
         except IndexError:
             shape = (0,)
             dtype = np.uint8
-- 
2.43.0

