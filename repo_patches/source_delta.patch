From b0997c2a886a877f926b3ab4fdc1319f682358de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 01/19] fix: DiversityModel.clear retains the specified order

---
 diamondback/models/diversity_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 785c48f..0cb5f23 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -116,7 +116,7 @@ class DiversityModel(object):
         """Clears an instance."""
 
         self._diversity = 0.0
-        self.s = numpy.zeros((self.s.shape[1], 0))
+        self.s = numpy.zeros((self.s.shape[0], 0))
 
     def fit(self, x: list | numpy.ndarray) -> numpy.ndarray:
         """Fit an incident signal and produces a reference signal.
-- 
2.43.0


From 5a9d3547601a8185cfc54518372fdd5e84baa681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 02/19] fix: ComplexFrequencyFilter starts from the specified
 frequency

---
 diamondback/filters/complex_frequency_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 21cdd12..254e5d6 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -94,7 +94,7 @@ class ComplexFrequencyFilter(FirFilter):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [-1.0, 1.0]")
         if (rate < 0.0) or (rate > 1.0):
             raise ValueError(f"Rate = {rate} Expected Rate in [0.0, 1.0]")
-        super().__init__(b=numpy.ones(1, complex), s=numpy.ones(1, complex))
+        super().__init__(b=numpy.array([numpy.exp(1j * math.pi * frequency)]), s=numpy.ones(1, complex))
         self._frequency = frequency
         self._rate = rate
 
-- 
2.43.0


From 1358d408f208ef7b284f856016f78fcf8d633491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 03/19] fix: GoertzelFilter.frequency setter retunes the filter

---
 diamondback/filters/goertzel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/goertzel_filter.py b/diamondback/filters/goertzel_filter.py
index e942309..cf04372 100644
--- a/diamondback/filters/goertzel_filter.py
+++ b/diamondback/filters/goertzel_filter.py
@@ -71,6 +71,8 @@ class GoertzelFilter(IirFilter):
     def frequency(self, frequency: float):
         if (frequency < -1.0) or (frequency > 1.0):
             raise ValueError(f"Frequency = {frequency} Expected Frequency in [1.0, 1.0]")
+        self.a[1] = 2.0 * math.cos(math.pi * frequency)
+        self.b[1] = -numpy.exp(-1j * math.pi * frequency)
         self._frequency = frequency
 
     def __init__(self, b: list | numpy.ndarray, frequency: float) -> None:
-- 
2.43.0


From af9e6c8f45c86c57f3fdafb41feddcecc5379cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 04/19] fix: FourierTransform inverse reverses the forward
 rotation for odd lengths

---
 diamondback/transforms/fourier_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 146fce1..519769a 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -89,7 +89,7 @@ class FourierTransform(object):
         if inverse:
             if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
                 v[0], v[-1] = v[1], v[-2]
-            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
+            y = numpy.concatenate((u[(len(u) + 1) // 2 :], u[: (len(u) + 1) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
-- 
2.43.0


From 77b3577162d1506b4f0a09248661e0579b717a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 05/19] fix: ComplexTransform accepts a complex signal with one
 row

---
 diamondback/transforms/complex_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/complex_transform.py b/diamondback/transforms/complex_transform.py
index 26e58f8..5b9c637 100644
--- a/diamondback/transforms/complex_transform.py
+++ b/diamondback/transforms/complex_transform.py
@@ -93,9 +93,9 @@ class ComplexTransform(object):
         if (rows not in (1, 3)) or (cols <= 0):
             raise ValueError(f"Rows = {rows} Columns = {cols} Expected Rows in (1, 3) and Columns in (0, inf)")
         if rows == 1:
-            v = x
+            v = x.reshape(cols)
             if not neutral:
-                v = x / ComplexTransform.GAIN
+                v = v / ComplexTransform.GAIN
             y = numpy.matmul(
                 numpy.linalg.inv(ComplexTransform.COEFFICIENT),
                 numpy.array([v.real, v.imag, numpy.zeros(cols)]),
-- 
2.43.0


From e513e422d6767f623934c79eb31ede3778983d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 06/19] fix: ZTransform does not modify its arguments and
 accepts integer arrays

---
 diamondback/transforms/z_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/transforms/z_transform.py b/diamondback/transforms/z_transform.py
index 7763cc0..70a1917 100644
--- a/diamondback/transforms/z_transform.py
+++ b/diamondback/transforms/z_transform.py
@@ -101,8 +101,8 @@ class ZTransform(object):
             u = numpy.delete(u, 0)
         while not v[0]:
             v = numpy.delete(v, 0)
-        v /= u[-1]
-        u /= u[-1]
+        v = v / u[-1]
+        u = u / u[-1]
         t = 1.0 / (math.pi * frequency)
         if bilinear:
             p = numpy.roots(u)
-- 
2.43.0


From b3ae2cbdc0bba489ee7a004e070522f342b364c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 07/19] fix: WaveletTransform does not truncate integer signals

---
 diamondback/transforms/wavelet_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 004deb0..84e761c 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -534,6 +534,8 @@ class WaveletTransform(object):
         if (len(x.shape) > 2) or (not len(x)):
             raise ValueError(f"X = {x}")
         v = numpy.array(x) if (len(x.shape) == 2) else numpy.array([x])
+        if not issubclass(v.dtype.type, numpy.inexact):
+            v = v.astype(float)
         rows, cols = v.shape
         if count <= 0:
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
-- 
2.43.0


From e91d9625e0b2df5e6c58da4b0f8bd8bf1bed7fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 08/19] fix: complex typed signals with zero imaginary part are
 not Hilbert transformed

---
 diamondback/filters/complex_bandpass_filter.py  | 2 +-
 diamondback/filters/complex_frequency_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diamondback/filters/complex_bandpass_filter.py b/diamondback/filters/complex_bandpass_filter.py
index e66838f..6154017 100644
--- a/diamondback/filters/complex_bandpass_filter.py
+++ b/diamondback/filters/complex_bandpass_filter.py
@@ -117,7 +117,7 @@ class ComplexBandpassFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = self._filter.filter(numpy.ones(len(d)) * self.frequency)
         y, e, b = (
diff --git a/diamondback/filters/complex_frequency_filter.py b/diamondback/filters/complex_frequency_filter.py
index 254e5d6..96ed95a 100644
--- a/diamondback/filters/complex_frequency_filter.py
+++ b/diamondback/filters/complex_frequency_filter.py
@@ -120,7 +120,7 @@ class ComplexFrequencyFilter(FirFilter):
             d = numpy.array(list(d))
         if not len(d):
             raise ValueError(f"D = {d}")
-        if not numpy.iscomplex(d).any():
+        if not numpy.iscomplexobj(d):
             d = hilbert(d)
         x = abs(d)  # type: ignore
         x[numpy.isclose(x, 0.0)] = 1.0
-- 
2.43.0


From c444de274338030749bd1a1b59c3e4384510e4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/19] fix: FirFilter does not truncate a signal when
 coefficients are integers

---
 diamondback/filters/fir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index f860ccb..26f25cb 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -201,6 +201,8 @@ class FirFilter(object):
             b = numpy.array(list(b))
         if not len(b):
             raise ValueError(f"B = {b}")
+        if not issubclass(b.dtype.type, numpy.inexact):
+            b = b.astype(float)
         if not isinstance(s, numpy.ndarray):
             s = numpy.array(list(s))
         if len(b) < len(s):
-- 
2.43.0


From 4a92b1a90f95b04414bd61b8115731becd58f1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 10/19] fix: RankFilter does not truncate retained samples when
 a signal is integer

---
 diamondback/filters/rank_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/filters/rank_filter.py b/diamondback/filters/rank_filter.py
index b24f8ef..5bd68c1 100644
--- a/diamondback/filters/rank_filter.py
+++ b/diamondback/filters/rank_filter.py
@@ -82,7 +82,7 @@ class RankFilter(FirFilter):
             x = numpy.array(list(x))
         if not len(x):
             raise ValueError(f"X = {x}")
-        y = numpy.zeros(len(x), type(x[0]))
+        y = numpy.zeros(len(x), type(self.s[0]))
         for ii in range(0, len(x)):
             self.s[0] = x[ii]
             y[ii] = self.s[numpy.argsort(abs(self.s))][self.index]
-- 
2.43.0


From f24ec812a99c04216f62621c08a52db41a31c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 11/19] fix: IirFilter extends recursive coefficients to the
 specified state length

---
 diamondback/filters/iir_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a9eaedf..a3d2473 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -202,6 +202,8 @@ class IirFilter(FirFilter):
         if a[0] != 0.0:
             raise ValueError(f"A = {a}")
         super().__init__(b=b, s=s)
+        if len(a) < len(self.b):
+            a = numpy.concatenate((a, numpy.zeros(len(self.b) - len(a))))
         self._a = numpy.array(a)
 
     @staticmethod
-- 
2.43.0


From 2c62dd4d0885dbd81994e8ad204c8d47415aa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 12/19] fix: DiversityModel does not replace a member when it
 reduces diversity

---
 diamondback/models/diversity_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diamondback/models/diversity_model.py b/diamondback/models/diversity_model.py
index 0cb5f23..99bfde2 100644
--- a/diamondback/models/diversity_model.py
+++ b/diamondback/models/diversity_model.py
@@ -149,6 +149,11 @@ class DiversityModel(object):
                 self.s[cc, :] = x[ii, :]
                 cc += 1
             else:
+                if not self._diversity:
+                    self._diversity = numpy.inf
+                    for uu in range(0, cc - 1):
+                        for vv in range(uu + 1, cc):
+                            self._diversity = min(self._diversity, self._distance(self.s[uu, :], self.s[vv, :]))
                 v, jj = self._diversity, -1
                 for kk in range(0, cc):
                     u, s = numpy.inf, numpy.array(self.s)
-- 
2.43.0


From 96c4a66b7fd6d4fccc267524a7da814f22d161a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 13/19] fix: GaussianModel normalizes covariance by the number
 of observations

---
 diamondback/models/gaussian_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/models/gaussian_model.py b/diamondback/models/gaussian_model.py
index aa80c39..8324b8d 100644
--- a/diamondback/models/gaussian_model.py
+++ b/diamondback/models/gaussian_model.py
@@ -83,7 +83,7 @@ class GaussianModel(object):
         for ii in sorted(set(y)):
             z = x[numpy.where(y == ii)[0]]
             u = z.mean(0)
-            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[1]) + r)
+            i = numpy.linalg.inv(((z - u).T @ (z - u) / z.shape[0]) + r)
             self._model.append(dict(covariancei=i, mean=u))
 
     def predict(self, x: numpy.ndarray) -> numpy.ndarray:
-- 
2.43.0


From 9f0e0b44a48e8ea5b033f0b843a16dd955c42403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 14/19] fix: FirFilter and IirFilter response and delay align
 the frequency axis for odd lengths

---
 diamondback/filters/fir_filter.py | 8 ++++----
 diamondback/filters/iir_filter.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/diamondback/filters/fir_filter.py b/diamondback/filters/fir_filter.py
index 26f25cb..346bb0c 100644
--- a/diamondback/filters/fir_filter.py
+++ b/diamondback/filters/fir_filter.py
@@ -234,9 +234,9 @@ class FirFilter(object):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, [1.0]), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-1.0 + (length % 2) / length, 1.0 - 2.0 / length + (length % 2) / length, length),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) * count
         if length > 2:
             y[0] = y[1] * 2.0 - y[2]
         return y, f
@@ -298,9 +298,9 @@ class FirFilter(object):
             raise ValueError(f"Count = {count} Expected Count in (0, inf)")
         y, f = (
             freqz(self.b, [1.0, 0.0], length, True)[1],
-            numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+            numpy.linspace(-1.0 + (length % 2) / length, 1.0 - 2.0 / length + (length % 2) / length, length),
         )
-        y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+        y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index a3d2473..535fc0d 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -277,9 +277,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 group_delay((self.b, numpy.concatenate(([1.0], -self.a[1:]))), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-1.0 + (length % 2) / length, 1.0 - 2.0 / length + (length % 2) / length, length),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) * count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) * count
         if length > 6:
             if max(abs(y[:6])) > min(abs(y[:6])) * 10.0:
                 y[:6] = numpy.sign(y[:6]) * min(abs(y[:6]))
@@ -350,9 +350,9 @@ class IirFilter(FirFilter):
             warnings.simplefilter("ignore")
             y, f = (
                 freqz(self.b, numpy.concatenate(([1.0], -self.a[1:])), length, True)[1],
-                numpy.linspace(-1.0, 1.0 - 2.0 / length, length),
+                numpy.linspace(-1.0 + (length % 2) / length, 1.0 - 2.0 / length + (length % 2) / length, length),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2])) ** count
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2])) ** count
         return y, f
 
     def roots(self, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0


From 38432c100ebf3d2a587afb1fff186bc0b0442add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 15/19] fix: FourierTransform aligns the frequency axis with
 the transform for odd lengths

---
 diamondback/transforms/fourier_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diamondback/transforms/fourier_transform.py b/diamondback/transforms/fourier_transform.py
index 519769a..43718af 100644
--- a/diamondback/transforms/fourier_transform.py
+++ b/diamondback/transforms/fourier_transform.py
@@ -89,12 +89,12 @@ class FourierTransform(object):
         if inverse:
             if (numpy.isclose(v[0], 0.0)) or (numpy.isclose(v[-1], 0.0)):
                 v[0], v[-1] = v[1], v[-2]
-            y = numpy.concatenate((u[(len(u) + 1) // 2 :], u[: (len(u) + 1) // 2]))
+            y = numpy.concatenate((u[len(u) // 2 :], u[: len(u) // 2]))
             y, f = numpy.fft.ifft(y) * len(y) / v, numpy.linspace(0, len(y) - 1, len(y))
         else:
             y, f = (
                 numpy.fft.fft(v * u) / len(u),
-                numpy.linspace(-1.0, 1.0 - 2.0 / len(u), len(u)),
+                numpy.linspace(-1.0 + (len(u) % 2) / len(u), 1.0 - 2.0 / len(u) + (len(u) % 2) / len(u), len(u)),
             )
-            y = numpy.concatenate((y[len(y) // 2 :], y[: len(y) // 2]))
+            y = numpy.concatenate((y[(len(y) + 1) // 2 :], y[: (len(y) + 1) // 2]))
         return y, f
-- 
2.43.0


From 4c08f6af636b36d3247ea624d176c329b1db7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 16/19] fix: PsdTransform frequency axis has the bin spacing
 for odd lengths

---
 diamondback/transforms/psd_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/psd_transform.py b/diamondback/transforms/psd_transform.py
index 6fc1d87..108f3df 100644
--- a/diamondback/transforms/psd_transform.py
+++ b/diamondback/transforms/psd_transform.py
@@ -103,5 +103,5 @@ class PsdTransform(object):
             for ii in range(0, len(x) - len(b) + 1, index)
         ]
         return numpy.stack(y) if (spectrogram) else numpy.sum(y, axis=0) / len(y), numpy.linspace(
-            0.0, 1.0 - 2.0 / len(b), len(b) // 2
+            0.0, (2.0 / len(b)) * (len(b) // 2 - 1), len(b) // 2
         )
-- 
2.43.0


From cf36c0706c842cee32fd02e0eb8d0c58efd4dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 17/19] fix: Daubechies order 11 wavelet satisfies perfect
 reconstruction

---
 diamondback/transforms/wavelet_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 84e761c..8032723 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -258,7 +258,7 @@ class WaveletTransform(object):
                     -0.0315820393174862,
                     0.0005538422011614,
                     0.0047772575109455,
-                    -0.001073010853085,
+                    -0.0010773010853085,
                 ]
             ),
             13: numpy.array(
-- 
2.43.0


From 2b71c7aab704c93cc3bf086ab5d8c6d0838d7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 18/19] fix: Coiflet order 5 wavelet satisfies perfect
 reconstruction

---
 diamondback/transforms/wavelet_transform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diamondback/transforms/wavelet_transform.py b/diamondback/transforms/wavelet_transform.py
index 8032723..8271cfa 100644
--- a/diamondback/transforms/wavelet_transform.py
+++ b/diamondback/transforms/wavelet_transform.py
@@ -91,12 +91,12 @@ class WaveletTransform(object):
         Coiflet={
             5: numpy.array(
                 [
-                    -0.07269889797984,
-                    0.33788487810742,
-                    0.85255707635042,
-                    0.38485416611448,
-                    -0.07272889752509,
-                    -0.01565476269428,
+                    -0.0727326195125264,
+                    0.3378976624574818,
+                    0.8525720202116004,
+                    0.3848648468648577,
+                    -0.0727326195125264,
+                    -0.0156557281357920,
                 ]
             ),
             11: numpy.array(
-- 
2.43.0


From 669de6d0602253326765567385bcca98c5099aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:38 +0000
Subject: [PATCH 19/19] fix: IirFilter reset is steady state when the first
 coefficient is one

---
 diamondback/filters/iir_filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diamondback/filters/iir_filter.py b/diamondback/filters/iir_filter.py
index 535fc0d..dc578dc 100644
--- a/diamondback/filters/iir_filter.py
+++ b/diamondback/filters/iir_filter.py
@@ -325,7 +325,10 @@ class IirFilter(FirFilter):
         if not numpy.isscalar(x):
             raise ValueError(f"X = {x}")
         if len(self.s) > 1:
-            self.s[1:] = x * (1.0 - self.b[0]) / (self.a[1:] * self.b[0] + self.b[1:]).sum()
+            u, v = 1.0 - self.b[0], (self.a[1:] * self.b[0] + self.b[1:]).sum()
+            if numpy.isclose(u, 0.0) and numpy.isclose(v, 0.0):
+                u, v = 1.0, 1.0 - self.a[1:].sum()
+            self.s[1:] = x * u / v
         self.s[0] = x
 
     def response(self, length=8192, count=1) -> tuple[numpy.ndarray, numpy.ndarray]:
-- 
2.43.0

