From fb048d67df8c1d67150caad581f319ba16114cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 01/55] fix: base: frequency axis has n_fbins entries for odd
 n_fbins

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From 70caf31b47b20bd893c3e3cb5446b7359e6702d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:44 +0000
Subject: [PATCH 02/55] fix: stft: centre column m on sample m and keep the
 lags distinct modulo n_fbins

---
 tftb/processing/linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..a4f8d4b 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -56,12 +56,12 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
 
         Where :math:`w` is a Hamming window."""
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
@@ -69,7 +69,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 735d43e3186b49e0cc86bb16886258720264f304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:47 +0000
Subject: [PATCH 03/55] fix: spectrogram: centre each column on its own instant

---
 tftb/processing/cohen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..39507cd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -21,11 +21,11 @@ class Spectrogram(ShortTimeFourierTransform):
 
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
@@ -33,7 +33,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From c4b80be60528c4a8476632ed3956105df8331705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:20 +0000
Subject: [PATCH 04/55] fix: margenau-hill: include the lag that reaches the
 first sample

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 39507cd..7e6aea5 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -99,7 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 38593a4b26c5094ed7aa354d0d32257b76ec5b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 05/55] fix: wigner-ville: lag range for odd n_fbins, Nyquist
 lag when n_fbins is smaller than the signal

---
 tftb/processing/cohen.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 7e6aea5..657bb39 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -149,8 +149,8 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
-        tausec = round(self.n_fbins / 2.0)
-        winlength = tausec - 1
+        tausec = self.n_fbins // 2
+        winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
@@ -161,10 +161,11 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if self.n_fbins % 2 == 0 and (tausec <= icol < self.signal.shape[0] - tausec):
+                self.tfr[tausec, icol] = 0.5 * (self.signal[icol + tausec] *
+                                                conj_signal[icol - tausec] +
+                                                self.signal[icol - tausec] *
+                                                conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From aae77ff41b6025c85c7583eb37987632b23b04f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:25 +0000
Subject: [PATCH 06/55] fix: pseudo wigner-ville: lag range and Nyquist lag,
 keep the real distribution in tfr

---
 tftb/processing/cohen.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 657bb39..df7961c 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -196,22 +196,22 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins - 1) // 2, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
+            tau = self.n_fbins // 2
+            if self.n_fbins % 2 == 0 and (tau <= icol < self.signal.shape[0] - tau) and (tau <= lh):
                 self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
                 self.tfr[int(tau), icol] *= 0.5
 
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return np.real(self.tfr), self.ts, self.freqs
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
         if "kind" not in kwargs:
-- 
2.43.0


From d634ca35d6cc78bc5ca1f8d1d0a7873934b59f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:06 +0000
Subject: [PATCH 07/55] fix: smoothed pseudo wigner-ville: 0-based lags,
 windows aligned with their lag, Nyquist lag

---
 tftb/processing/cohen.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index df7961c..41c6610 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -261,40 +261,40 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
-        points = np.arange(-min([lg, signal.shape[0] - ti]),
-                           min([lg, ti - 1]) + 1).astype(int)
+        taumax = min([ti + lg, signal.shape[0] - 1 - ti + lg,
+                      (freq_bins - 1) // 2, lh])
+        points = np.arange(-min([lg, signal.shape[0] - 1 - ti]),
+                           min([lg, ti]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
         g2 = twindow[lg_points]
         g2 = g2 / np.sum(g2)
-        signal_idx = (ti - points - 1).astype(int)
+        signal_idx = (ti - points).astype(int)
         tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points - 1).astype(int)
-            idx2 = (ti - tau - points - 1).astype(int)
+            idx1 = (ti + tau - points).astype(int)
+            idx2 = (ti - tau - points).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
-            points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-                               min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
+        tau = freq_bins // 2
+        if freq_bins % 2 == 0 and (tau <= ti < signal.shape[0] - tau) and (tau <= lh):
+            points = np.arange(-min([lg, signal.shape[0] - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
             idx1 = (ti + tau - points).astype(int)
             idx2 = (ti - tau - points).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 920f9166d82ccaead3ab7ef31a3c4f12416000ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:41 +0000
Subject: [PATCH 08/55] fix: run() starts from an empty kernel so repeated runs
 agree

---
 tftb/processing/cohen.py  | 4 ++++
 tftb/processing/linear.py | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 41c6610..15413d5 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
@@ -96,6 +97,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -149,6 +151,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         tausec = self.n_fbins // 2
         winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -193,6 +196,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index a4f8d4b..e93e3c3 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From f5fc6ca20a68dee6f5b805dacf316649fa7081d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:44 +0000
Subject: [PATCH 09/55] fix: plot() leaves tfr, freqs and the arrays run()
 returned unchanged

---
 tftb/processing/cohen.py  | 8 ++++++--
 tftb/processing/linear.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 15413d5..503a810 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -110,13 +110,15 @@ class MargenauHillDistribution(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
+        tfr = self.tfr
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
+        self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
         extent = [0, self.ts.max(), 0, 0.5]
         super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        self.tfr = tfr
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
@@ -181,14 +183,16 @@ class WignerVilleDistribution(BaseTFRepresentation):
             mini = max(np.amin(self.tfr), maxi * threshold)
             levels = np.logspace(np.log10(mini), np.log10(maxi), 65)
             kwargs['levels'] = levels
+        tfr = self.tfr
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         else:
             self.tfr = np.abs(self.tfr)
         _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
+        self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
         super(WignerVilleDistribution, self).plot(kind=kind, threshold=threshold,
                                                   **kwargs)
+        self.tfr = tfr
 
 
 class PseudoWignerVilleDistribution(WignerVilleDistribution):
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index e93e3c3..f9a95a6 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -93,15 +93,17 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         :return: None
         :rtype: None
         """
+        tfr, freqs = self.tfr, self.freqs
         self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
         if sqmod:
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _threshold] = 0.0
+        self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
         super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
                                                     threshold=threshold,
                                                     **kwargs)
+        self.tfr, self.freqs = tfr, freqs
 
 
 def gabor(signal, n_coeff=None, q_oversample=None, window=None):
-- 
2.43.0


From 1b23b91afd9653ee067dcc3c67886c81e5c8a5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 10/55] fix: reassigned spectrogram: 0-based samples and bins,
 default window, time step

---
 tftb/processing/reassigned.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..c8d50dd 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -493,10 +493,11 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     if window is None:
         wlength = int(np.floor(signal.shape[0] / 4.0))
         wlength += 1 - np.remainder(wlength, 2)
-        window = ssig.hamming(wlength)
+        window = ssig.windows.hamming(wlength)
     elif window.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
 
+    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
     tfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
     tf2 = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
     tf3 = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
@@ -506,21 +507,21 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
-                        np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+        tau = np.arange(-np.min([(n_fbins - 1) // 2, lh, ti]),
+                        np.min([(n_fbins - 1) // 2, lh,
+                                signal.shape[0] - 1 - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask]))
+    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
 
@@ -531,16 +532,16 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([icolhat.real, 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From a78f0a0d6b2ad9e2c53f0537b18c1d61dbb26068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:33 +0000
Subject: [PATCH 11/55] fix: derive_window of a one-sample window is 0, not NaN

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..d8eebe4 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[0] - window[-1]) / max(window.shape[0] - 1, 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From 8b4223d3f09d2ec62e77e6a033c69867b4dfad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:38 +0000
Subject: [PATCH 12/55] fix: reassigned pseudo wigner-ville: 0-based samples
 and bins, Nyquist lag, default window

---
 tftb/processing/reassigned.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index c8d50dd..9fb47d0 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -38,7 +38,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(int(hlength))
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) // 2
@@ -49,21 +49,21 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        taumax = min([ti, xrow - 1 - ti, (n_fbins - 1) // 2, lh])
         tau = np.arange(-taumax, taumax + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
-            np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti + tau] * \
+            np.conj(signal[ti - tau])
+        tau = n_fbins // 2
+        if n_fbins % 2 == 0 and (tau <= ti < xrow - tau) and (tau <= lh):
+            _x = fwindow[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = fwindow[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
+            _y = dh[lh - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From dd63ba8a29a7fddae85ff4b13766545d4edbcd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:28 +0000
Subject: [PATCH 13/55] fix: fmconst keeps unit modulus for fractional t0 and
 accepts t0 = n_points

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From 59d18d521807a715003b26cbc0a4ed8b6ac26b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:31 +0000
Subject: [PATCH 14/55] fix: fmpar phase is the integral of its frequency law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..918018e 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From 90bafc06ad176de914fa53ae57372ca9233962e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:34 +0000
Subject: [PATCH 15/55] fix: fmpower starts at t = 1 (the power law is singular
 at 0)

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 918018e..bfed0db 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 1c4df2fdf31773a0805319a871e218f2c0cba40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:37 +0000
Subject: [PATCH 16/55] fix: fmodany: t0 counts from 1, as documented

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index bfed0db..7b22e01 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -143,7 +143,7 @@ def fmodany(iflaw, t0=1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[t0 - 1])
     return y
 
 
-- 
2.43.0


From 20caf5f10b5ddf0d7da53bd87451a59aa6b5b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:39 +0000
Subject: [PATCH 17/55] fix: keyed signals have n_points samples for every
 symbol length

---
 tftb/generators/analytic_signals.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..82abe25 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -23,7 +23,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaask.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 2.0)
+        n_comp = max(round(n_points / 2.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -53,7 +53,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anabpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(round(n_points / 5.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
@@ -82,11 +82,10 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     .. plot:: docstring_plots/generators/analytic_signals/anafsk.py
     """
     if n_comp is None:
-        n_comp = int(round(n_points / 5.0))
-    m = np.ceil(n_points / n_comp)
+        n_comp = max(int(round(n_points / 5.0)), 1)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, int(n_comp)).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
@@ -134,13 +133,13 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     .. plot:: docstring_plots/generators/analytic_signals/anaqpsk.py
     """
     if n_comp is None:
-        n_comp = round(n_points / 5.0)
+        n_comp = max(round(n_points / 5.0), 1)
     if (f0 < 0) or (f0 > 0.5):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, int(n_comp)) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From ae019447251c06d597da805507bf25fab01c4ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:43 +0000
Subject: [PATCH 18/55] fix: anasing frequency grid (crash for some lengths,
 wrong grid for odd ones)

---
 tftb/generators/analytic_signals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 82abe25..4129eef 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -167,9 +167,7 @@ def anasing(n_points, t0=None, h=0.0):
     if t0 is None:
         t0 = n_points / 2.0
     if h <= 0:
-        start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
-        f = np.linspace(start, end, N)
+        f = np.arange(1, int(n_points / 2.0)) / float(n_points)
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
         x = np.real(np.fft.ifft(y, n_points))
-- 
2.43.0


From 75266df8d5a736ad2dfa7d8645b946b1da44c615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 19/55] fix: noisecu/noisecg of one or two points return a
 vector

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From f8a87e0440c88eb5556eb0e3c5ea93ffd8418af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:48 +0000
Subject: [PATCH 20/55] fix: dopnoise returns n_points samples

---
 tftb/generators/noise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..4732250 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,10 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points: (2 * n_points)]) /\
+        np.sqrt(dist[n_points: (2 * n_points)])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:(2 * n_points)]
     return y, iflaw
 
 
-- 
2.43.0


From 58e6ab6787aa9f2053405c8bcaa103efdf804880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:50 +0000
Subject: [PATCH 21/55] fix: gdpower with degree 1

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..71c0578 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -214,7 +214,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
         x = np.fft.ifft(tfx)
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
-        t0 = n_points
+        t0 = n_points - 1
         x = anapulse(n_points, t0)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
@@ -229,7 +229,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From b55482e3deb410b64ed84bf831c828ba262a08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 22/55] fix: klauder returns n_points samples for odd n_points

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 71c0578..ab48060 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -145,7 +145,7 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
+    a, b = wave[:n_points - n_points // 2], wave[1:int(n_points / 2 + 1)][::-1]
     wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
-- 
2.43.0


From ed18c8120503b98a0ed56ebd2ee451c96705856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 23/55] fix: atoms accepts the coordinates of a single atom

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index ab48060..4495574 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From b5877c057ae192483a9a3614865138c384fe3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:57 +0000
Subject: [PATCH 24/55] fix: loctime flattens row and column vectors

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..b6afb1d 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -18,7 +18,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From 2910bb520e0e22836d187cad755f03de42049bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:01 +0000
Subject: [PATCH 25/55] fix: locfreq frequency axis for odd lengths

---
 tftb/processing/freq_domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..c2bf0d9 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,10 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
-    no2f = np.floor(signal.shape[0] / 2.0)
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.fft.fftfreq(signal.shape[0])
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From 05a4aa26b94bdd19ec5e2ca3e482ba343dbf5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 26/55] fix: renyi_information leaves its arguments unchanged

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From b7c58844718900025128b863ce9ca576c811949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:07 +0000
Subject: [PATCH 27/55] fix: hough_transform: rho has one entry per row

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..ff51719 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From 842725b1801a5e190125569ae97aa77a29b6f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:43 +0000
Subject: [PATCH 28/55] fix: ridges collects the points of every column and
 applies the threshold

---
 tftb/processing/postprocessing.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index ff51719..76e7bc6 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -184,6 +184,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
     n_fbins = tfrrow
     freqs = np.arange(n_fbins)
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
+    time_points, freq_points = np.zeros(0), np.zeros(0)
 
     if method in ('rpwv', 'rpmh'):
         for icol in range(tfrcol):
@@ -191,28 +192,31 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points,
+                                    np.arange(indices.shape[0])[indices] / n_fbins]
     else:
         raise ValueError("Unknown time frequency representation.")
     return time_points, freq_points
-- 
2.43.0


From 24092bec768cd2ebe4c6ba1e8be77a7e8281324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:46 +0000
Subject: [PATCH 29/55] fix: scalogram accepts n_voices different from the
 signal length

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..bfe26da 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -170,7 +170,7 @@ class Scalogram(AffineDistribution):
         self.waveparams = waveparams
         s_centered = np.real(self.signal) - np.real(self.signal).mean()
         self.z = hilbert(s_centered)
-        self.tfr = self.tfr.astype(complex)
+        self.tfr = np.zeros((n_voices, self.ts.shape[0]), dtype=complex)
 
     def run(self):
         f = np.logspace(np.log10(self.fmin), np.log10(self.fmax), self.n_voices)
-- 
2.43.0


From 0ece2055af0ca19ea7feca1c1edbfde63664bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:49 +0000
Subject: [PATCH 30/55] fix: scalogram: wavelet coefficients aligned with the
 signal

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index bfe26da..2a2c75c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -191,8 +191,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
@@ -200,7 +200,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha)) + 1
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From 65f376d73efd869ea0e9b0cc4bf392ca0657503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 31/55] fix: affine plot() leaves tfr and the arrays run()
 returned unchanged

---
 tftb/processing/affine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2a2c75c..1e23914 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -108,7 +108,8 @@ class AffineDistribution(BaseTFRepresentation):
 
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
-        self.tfr[self.tfr <= _thresh] = 0
+        tfr = self.tfr
+        self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
         freq_y = kwargs.pop(
             "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
         )
@@ -116,6 +117,7 @@ class AffineDistribution(BaseTFRepresentation):
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
         )
+        self.tfr = tfr
 
     def _get_interpolated_tf(self, tffr):
         tfr = np.zeros((self.n_voices, self.ts.shape[0]))
-- 
2.43.0


From 272cadadafaa5a7de2bc6906558e1f1d3f954c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:17 +0000
Subject: [PATCH 32/55] fix: unterberger passive form: weight of its own
 dilation (IndexError)

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 1e23914..f163b13 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -298,7 +298,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From 398252948a8e2fc832d014ea9abf16d1e987baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 33/55] fix: affine distributions: default number of voices for
 narrow analysis bands

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index f163b13..b7b0e5c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -273,10 +273,10 @@ class UnterbergerDistribution(AffineDistribution):
         if teq < 2 * self.m:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
             m1 = self.m
+        self.T = 2 * m1 - 1
         self.m1 = int(np.round(m1))
         if n_voices is None:
             self._get_nvoices()
@@ -354,9 +354,9 @@ class DFlandrinDistribution(AffineDistribution):
         teq = self.m / (self.fmax * self.umax)
         if teq < 2 * self.m:
             m0 = int(round((2 * self.m ** 2) / teq - self.m)) + 1
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
+        self.T = 2 * (self.m + m0) - 1
         self.m1 = int(np.round(self.m + m0))
         if n_voices is None:
             self._get_nvoices()
@@ -413,10 +413,10 @@ class BertrandDistribution(AffineDistribution):
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * m1 - 1
         else:
             m0 = 0
             m1 = self.m
+        self.T = 2 * m1 - 1
         self.m1 = m1
         if n_voices is None:
             self._get_nvoices()
-- 
2.43.0


From e83a04e63be60909fbc9616e0d4151bd7d5a09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:51 +0000
Subject: [PATCH 34/55] fix: reassigned smoothed pseudo wigner-ville runs
 (integer 0-based indices) and moves the energy

---
 tftb/processing/reassigned.py | 43 ++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 9fb47d0..f718515 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -384,25 +384,24 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.windows.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.windows.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
-    if deltat.min() != deltat.max():
+    if np.unique(deltat).shape[0] > 1:
         raise ValueError("Time instants must be regularly sampled.")
-    else:
-        dt = deltat.min()
+    dt = deltat[0] if deltat.shape[0] > 0 else 1
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     tf2 = np.zeros((n_fbins, tcol), dtype=complex)
@@ -411,30 +410,29 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
 
     for icol in range(tcol):
         ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
-                      lh])
-        points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
+        taumax = min([ti + lg, xrow - 1 - ti + lg, (n_fbins - 1) // 2, lh])
+        points = np.arange(-min([lg, xrow - 1 - ti]), min([lg, ti]) + 1)
         g2 = twindow[lg + points]
         g2 = g2 / g2.sum()
         tg2 = g2 * points
-        xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
+        xx = signal[ti - points] * np.conj(signal[ti - points])
         tfr[0, icol] = (g2 * xx).sum()
         tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
+        tf3[0, icol] = dh[lh] * tfr[0, icol]
 
-        for tau in range(int(taumax)):
-            points = np.arange(-min([lg, xrow - ti - tau]),
-                               min([lg, ti - tau - 1]) + 1)
+        for tau in range(1, int(taumax) + 1):
+            points = np.arange(-min([lg, xrow - 1 - ti - tau]),
+                               min([lg, ti - tau]) + 1)
             g2 = twindow[lg + points]
             g2 = g2 / g2.sum()
             tg2 = g2 * points
-            xx = signal[ti + tau - 1 - points] * np.conj(signal[ti - tau - 1 - points])
+            xx = signal[ti + tau - points] * np.conj(signal[ti - tau - points])
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -454,10 +452,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
-                jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                icolhat = int(min([max([icol - tf2[jcol, icol].real, 0]), tcol - 1]))
+                jcolhat = int(jcol - tf3[jcol, icol]) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From f18fc510d90e6bf9cf59277f1092343d8160ad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:54 +0000
Subject: [PATCH 35/55] fix: pseudo margenau-hill: sample alignment,
 real-valued, repeatable

---
 tftb/processing/cohen.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 503a810..adcdeb8 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -137,14 +137,15 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
     def run(self):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            start = min([(self.n_fbins - 1) // 2, lh, xrow - 1 - icol])
+            end = min([(self.n_fbins - 1) // 2, lh, icol])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+                np.conj(self.signal[icol - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0


From 3fc28dc1fb7b1ec3a5819408df43ab08dc1af507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:22 +0000
Subject: [PATCH 36/55] fix: page representation: repeatable run(), plot() no
 longer crashes or alters tfr

---
 tftb/processing/cohen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index adcdeb8..2af7637 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -50,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -61,11 +62,13 @@ class PageRepresentation(BaseTFRepresentation):
         return self.tfr, self.ts, self.freqs
 
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
+        tfr = self.tfr
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         super(PageRepresentation, self).plot(kind=kind, **kwargs)
+        self.tfr = tfr
 
 
 class PseudoPageRepresentation(PageRepresentation):
-- 
2.43.0


From b36e7f34a4135224b3357d8970f4f527ab6f6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:32 +0000
Subject: [PATCH 37/55] fix: fmsin phase is referenced to t0 (misplaced
 parenthesis)

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 7b22e01..a18af27 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
+                                                     np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From 57c1a3b9f48a9fab803ddeea5e88e675385c8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:27 +0000
Subject: [PATCH 38/55] fix: fmpower accepts integer degrees

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index a18af27..3312e28 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,7 +202,7 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(1, n_points + 1)
+    t = np.arange(1, n_points + 1, dtype=float)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
     iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
-- 
2.43.0


From 00c42c7ecade172600da4360ec7340486b0e4b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:31 +0000
Subject: [PATCH 39/55] fix: affine distributions no longer fail for sizes
 where the number of dilations is truncated

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index b7b0e5c..8b63e22 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -100,7 +100,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From b7064694bb37b91e1194769a5f70182ac9010203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:33 +0000
Subject: [PATCH 40/55] fix: scalogram is normalised by the energy of the
 analysed band (off by one bin)

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 8b63e22..f657db2 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -246,7 +246,7 @@ class Scalogram(AffineDistribution):
         SP = np.fft.fft(self.z, axis=0)
         indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
         indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
-        SPana = SP[indmin: (indmax + 1)]
+        SPana = SP[(indmin - 1): indmax]
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
-- 
2.43.0


From d81f0f7258390dd7b2eaab324e54ca94bef3f6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:48 +0000
Subject: [PATCH 41/55] fix: scalogram honours the requested time instants

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index f657db2..0ebe403 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -163,7 +163,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From 505e2e71a59fbed49dc9e7681fcd514ee931fac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 42/55] fix: gabor uses the Zak transform over the time shifts
 (failed unless the numbers of times and frequencies agree)

---
 tftb/processing/linear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index f9a95a6..a3f0182 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -141,12 +141,12 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int)] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
-    x = np.arange(1, m + 1, dtype=float)
+    msig = hn1.reshape(mb, n_coeff, order='F')
+    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(n_coeff)
+    mzh = np.zeros((n_coeff, mb))
+    x = np.arange(1, n_coeff + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
-        mod = modulo(x - l * m / q_oversample, m).astype(int)
+        mod = modulo(x - l * n_coeff / q_oversample, n_coeff).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
     mzh[mzh < np.spacing(1)] = 1
-- 
2.43.0


From e8ecadb5447c2d730ce699a59fdd9fd898a5f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:31 +0000
Subject: [PATCH 43/55] fix: contour plots with show_tf use as many frequencies
 as the tfr has rows

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 009ae43..cc9b925 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -83,7 +83,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
-- 
2.43.0


From f73492c3e6cc0799ca5d32b91c269f070eaf7e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 44/55] fix: surface and wireframe plots of a tfr with a
 different number of rows than samples

---
 tftb/processing/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index cc9b925..7173af6 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -201,8 +201,8 @@ class BaseTFRepresentation(object):
                 from mpl_toolkits.mplot3d import Axes3D
                 fig = plt.figure()
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = np.arange(self.tfr.shape[1])
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -210,8 +210,8 @@ class BaseTFRepresentation(object):
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = np.arange(self.tfr.shape[1])
+                y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
-- 
2.43.0


From 6cf73912b3aacecff4d2a5f7b7c8df200b8d348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 45/55] fix: affine plots with fewer voices than half the
 samples

---
 tftb/processing/affine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0ebe403..534034b 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -110,9 +110,10 @@ class AffineDistribution(BaseTFRepresentation):
         _thresh = np.amax(self.tfr) * threshold
         tfr = self.tfr
         self.tfr = np.where(self.tfr <= _thresh, 0, self.tfr)
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
+        n_spec = int(self.signal.shape[0] / 2)
+        if self.isaffine:
+            n_spec = min(n_spec, self.tfr.shape[0])
+        freq_y = kwargs.pop("freq_y", np.linspace(self.fmin, self.fmax, n_spec))
 
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-- 
2.43.0


From 3682f009ce8b6ce7d5244093353cf9bca9a8d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 46/55] fix: pseudo wigner-ville frequency axis runs from 0 in
 steps of half a bin

---
 tftb/processing/cohen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2af7637..a39e048 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -223,6 +223,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                 self.tfr[int(tau), icol] *= 0.5
 
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
-- 
2.43.0


From 9cf1c87bcc8cd1a939982388b953a36d1375e61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 47/55] fix: fmodany refuses a negative time reference

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 3312e28..edb32ea 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -139,7 +139,7 @@ def fmodany(iflaw, t0=1):
     elif np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-- 
2.43.0


From 1912f005c2d990f15acf1f22d2ce83b488dbbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 48/55] fix: fmodany checks the range of a column vector law
 too

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index edb32ea..308989d 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,7 +136,7 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
     if (t0 > iflaw.shape[0]) or (t0 < 1):
-- 
2.43.0


From 7d0bc0e7e6e9d734abf6274d99e81ef9ac71b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 49/55] fix: margenau-hill plot starts at the first instant
 shown

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index a39e048..163a4ca 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -119,7 +119,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr = np.where(self.tfr <= _threshold, 0.0, self.tfr)
-        extent = [0, self.ts.max(), 0, 0.5]
+        extent = [self.ts.min(), self.ts.max(), 0, 0.5]
         super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
         self.tfr = tfr
 
-- 
2.43.0


From 7f54e614b9059b6335db31ec6f732bb33b8f2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:35 +0000
Subject: [PATCH 50/55] fix: page plot labels the positive frequencies it shows

---
 tftb/processing/cohen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 163a4ca..7cbd643 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -67,6 +67,7 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
+        kwargs.setdefault('extent', [self.ts.min(), self.ts.max(), 0, 0.5])
         super(PageRepresentation, self).plot(kind=kind, **kwargs)
         self.tfr = tfr
 
-- 
2.43.0


From dc8e9c8f5f569111a16c95f78903e75aae99c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 51/55] fix: contour plots without show_tf honour levels,
 contour_x and contour_y

---
 tftb/processing/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 7173af6..4d1f67f 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -216,7 +216,13 @@ class BaseTFRepresentation(object):
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                if contour_x is None:
+                    contour_x = self.ts
+                if contour_y is None:
+                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                if levels is not None:
+                    kwargs['levels'] = levels
+                t, f = np.meshgrid(contour_x, contour_y)
                 ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
-- 
2.43.0


From f9c437fd0344934e5c49992eb1abd53722086da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 52/55] fix: plot draws on the axes it is given

---
 tftb/processing/base.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 4d1f67f..f88afdb 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -191,16 +191,18 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            if ax is None:
+                fig = plt.figure()
+                if kind in ("surf", "wireframe"):
+                    from mpl_toolkits.mplot3d import Axes3D  # NOQA
+                    ax = fig.add_subplot(projection="3d")
+                else:
+                    ax = fig.add_subplot(111)
             if kind == "cmap":
-                ax = fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
-                from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
-                ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.tfr.shape[1])
                 y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -208,8 +210,6 @@ class BaseTFRepresentation(object):
                 if default_annotation:
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
-                from mpl_toolkits.mplot3d import Axes3D  # NOQA
-                ax = fig.add_subplot(projection="3d")
                 x = np.arange(self.tfr.shape[1])
                 y = np.linspace(0, 0.5, self.tfr.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -223,7 +223,6 @@ class BaseTFRepresentation(object):
                 if levels is not None:
                     kwargs['levels'] = levels
                 t, f = np.meshgrid(contour_x, contour_y)
-                ax = fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From 74581ecea237b0a5a4b68a13d0398b97e1fcb934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 53/55] fix: affine plots label the frequencies of the
 distribution

---
 tftb/processing/affine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 534034b..98ef1c1 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -115,6 +115,11 @@ class AffineDistribution(BaseTFRepresentation):
             n_spec = min(n_spec, self.tfr.shape[0])
         freq_y = kwargs.pop("freq_y", np.linspace(self.fmin, self.fmax, n_spec))
 
+        rows = self.tfr.shape[0]
+        kwargs.setdefault(
+            "contour_y", np.logspace(np.log10(self.fmin), np.log10(self.fmax), rows)
+        )
+
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
         )
@@ -251,6 +256,7 @@ class Scalogram(AffineDistribution):
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
+        self.freqs = f
         return self.tfr, self.ts, f, wt
 
 
-- 
2.43.0


From df4ecd1e6dccdc829ead2ba493faa780d091b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:42 +0000
Subject: [PATCH 54/55] fix: every run of a scalogram returns its own array

---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 98ef1c1..8349263 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -186,6 +186,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
-- 
2.43.0


From ab6e55adf24c3758eb46910235878b67e79af003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:28 +0000
Subject: [PATCH 55/55] fix: modulo of a complex array with a real element

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..b44c5ad 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -129,7 +129,7 @@ def modulo(x, N):
     >>> print(modulo(range(1, 11), 2))
     [1 2 1 2 1 2 1 2 1 2]
     """
-    if any(np.isreal(x)):
+    if not np.iscomplexobj(x):
         y = np.mod(x, N)
         y[y == 0] = N
     else:
-- 
2.43.0

