From 90bf704228e56a3a996fbc9a1043d1d38fb385a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 01/56] fix: symbol2bin failed on a single multi-bit symbol
 with bit flags

---
 CommDspy/rx/symbol2bin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/symbol2bin.py b/CommDspy/rx/symbol2bin.py
index 2112404..cffdf52 100644
--- a/CommDspy/rx/symbol2bin.py
+++ b/CommDspy/rx/symbol2bin.py
@@ -25,7 +25,7 @@ def symbol2bin(symbol_mat, num_of_symbols, bit_order_inv=False, inv_msb=False, i
     # ==================================================================================================================
     # Converting to binary representation
     # ==================================================================================================================
-    symbol_mat_binary = np.squeeze(((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int))
+    symbol_mat_binary = ((symbol_vec[:, None] & (1 << np.arange(0, bits_per_symbol, 1))) > 0).astype(int)
     # ==================================================================================================================
     # Bit manipulations according to the flags
     # ==================================================================================================================
-- 
2.43.0


From 93d4d1d8f50ef351d8767ffb15b21dfc2890c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/56] fix: pulse_shape with the 'imp' pulse always failed on
 its memory length

---
 CommDspy/channel/pulse_shaping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b9855b4..b7a52b5 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -151,7 +151,9 @@ def _get_pulse(method, osr=1, span=1, beta=0.5, t=None):
     elif method == 'rrc':
         return rrc_pulse(osr, span, beta, t)
     elif method == 'imp':
-        return np.array([1])
+        pulse    = np.zeros(osr * span * 2)  # zero padded to match the memory length of the other pulses
+        pulse[0] = 1
+        return pulse
     else:
         raise ValueError('Method is not available, please try another')
 
-- 
2.43.0


From f15f57b834b40a65df75c26ae14622296b5c3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 03/56] fix: rcos_pulse returned garbage when |2*beta*t| rounds
 to almost 1

---
 CommDspy/channel/pulse_shaping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index b7a52b5..ed5d3b1 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -93,13 +93,14 @@ def rcos_pulse(osr, span, beta, t=None):
     # ==================================================================================================================
     if t is None:
         t = _time_vec_pulse(osr, span)
-    tneq = t[np.abs(2*beta*t) != 1]
+    singular = np.isclose(np.abs(2*beta*t), 1)
+    tneq = t[~singular]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[np.abs(2*beta*t) == 1] = np.pi/4 * np.sinc(1/(2*beta))
-    pulse[np.abs(2*beta*t) != 1] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
+    pulse[singular] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[~singular] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
 def rrc_pulse(osr, span, beta, t=None):
-- 
2.43.0


From 2864ef745a175325b906a67c7d53e61f5071db53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 04/56] fix: the default type of quantize was rejected by
 quantize

---
 CommDspy/rx/quantiztion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 10116e8..5eab1c8 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -1,7 +1,7 @@
 import numpy as np
 from CommDspy.rx.slicer import slicer
 
-def quantize(signal, total_bits, frac_bits=0, fix_point_type='unsigned'):
+def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
     """
     :param signal: Input signal to perform quantization on
     :param total_bits: Total bit used in the quantization
-- 
2.43.0


From 907799a59756738e6a16ff83e579e2292e53d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 05/56] fix: quantize ignored negative fractional bits

---
 CommDspy/rx/quantiztion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/quantiztion.py b/CommDspy/rx/quantiztion.py
index 5eab1c8..648d743 100644
--- a/CommDspy/rx/quantiztion.py
+++ b/CommDspy/rx/quantiztion.py
@@ -42,9 +42,9 @@ def quantize(signal, total_bits, frac_bits=0, fix_point_type='u'):
         levels = levels[1:] - 2**(total_bits - 1)
     elif fix_point_type != 'u':
         raise ValueError('Type used is not defined, please read function description')
-    if frac_bits > 0:
+    if frac_bits != 0:
         levels = levels.astype(float)
-        levels /= 2**frac_bits
+        levels /= 2.0**frac_bits
     # ==================================================================================================================
     # Applying Quantization
     # ==================================================================================================================
-- 
2.43.0


From a9c22b4b0320ee770f5438903b53a8f00f8aa841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/56] fix: check_binary accepted two-valued data with only
 one binary value

---
 CommDspy/misc/help_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/help_functions.py b/CommDspy/misc/help_functions.py
index 5e98490..cdcc3c7 100644
--- a/CommDspy/misc/help_functions.py
+++ b/CommDspy/misc/help_functions.py
@@ -4,7 +4,7 @@ def check_binary(pattern):
     data_in = np.unique(pattern)
     if len(data_in) == 1 and (0 not in data_in and 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
-    elif len(data_in) == 2 and (0 not in data_in and 1 not in data_in):
+    elif len(data_in) == 2 and (0 not in data_in or 1 not in data_in):
         raise ValueError('Data in is not binary, please consider other encoding methods')
     elif len(data_in) > 2:
         raise ValueError('Data in is not binary, please consider other encoding methods')
-- 
2.43.0


From bce7e64ef8f4c54ed28ef2bdd21694049142e72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/56] fix: decoding_mlt3 failed on multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index dfa4e95..1b3936a 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -118,7 +118,7 @@ def decoding_mlt3(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    if pattern[0] == 1:
+    if pattern_flat[0] == 1:
         transitions = np.concatenate((np.array([1]), np.abs(np.diff(pattern_flat))))
     else:
         transitions = np.concatenate((np.array([0]), np.abs(np.diff(pattern_flat))))
-- 
2.43.0


From bd5d5012536e85fae2cc0a2fc40d7839a5ae8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 08/56] fix: decoding_differential did not flatten
 multi-dimensional patterns as the encoder does

---
 CommDspy/rx/decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 1b3936a..bc40ec2 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -44,7 +44,7 @@ def decoding_differential(pattern, constellation=ConstellationEnum.PAM4):
                    --------------------------------
         """
     lvl_num = len(get_levels(constellation))
-    return (lfilter([1, -1], [1], pattern.astype(float)) % lvl_num).astype(int)
+    return np.reshape(lfilter([1, -1], [1], np.reshape(pattern, -1).astype(float)) % lvl_num, pattern.shape).astype(int)
 
 def decoding_manchester(pattern):
     """
-- 
2.43.0


From 3efdad7ad405c1b0805097550a9726a6932314a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/56] fix: decoding_bipolar error detection failed on
 multi-dimensional patterns

---
 CommDspy/rx/decoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index bc40ec2..85527bd 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -101,7 +101,7 @@ def decoding_bipolar(pattern, error_detection=False):
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
         pattern_flat    = np.reshape(pattern - 1, -1)
-        decoded_pattern = np.abs(pattern - 1).astype(float)
+        decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
@@ -111,7 +111,7 @@ def decoding_bipolar(pattern, error_detection=False):
                 decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
             else:
                 running_sign = np.sign(mark)
-        return decoded_pattern
+        return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
     pattern_flat = np.reshape(pattern, -1)
-- 
2.43.0


From 9396f8f6f8ad7e463b279a2547b7b706c6af4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 10/56] fix: decoding_bipolar gave leading violations of -1
 marks the wrong sign

---
 CommDspy/rx/decoding.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index 85527bd..fa7ce7c 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -105,12 +105,9 @@ def decoding_bipolar(pattern, error_detection=False):
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
         mark_change     = np.concatenate((np.array([1]), np.diff(pattern_flat[mark_location])))
-        running_sign    = 1
         for ii, mark in enumerate(mark_change):
             if mark == 0:
-                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * np.sign(running_sign)
-            else:
-                running_sign = np.sign(mark)
+                decoded_pattern[mark_location[ii]] = decoded_pattern[mark_location[ii-1]] = 0.5 * pattern_flat[mark_location[ii]]
         return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
-- 
2.43.0


From 38e4f4939ce2e78aa7f004cfc4c2c0e4aa74ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/56] fix: slicer failed on lists and did not keep the
 dimensions of its input

---
 CommDspy/rx/slicer.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index 1fdd862..cf96dae 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -9,18 +9,7 @@ def slicer(slicer_in_mat, levels=None):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    try:
-        y, x = slicer_in_mat.shape
-    except AttributeError:
-        slicer_im_mat = np.array(slicer_in_mat)
-        try:
-            y, x = slicer_im_mat.shape
-        except ValueError:
-            x = slicer_in_mat.shape[0]
-            y = 0
-    except ValueError:
-        x = slicer_in_mat.shape[0]
-        y = 0
+    slicer_in_mat = np.array(slicer_in_mat)
     if levels is None:
         levels = np.array([-3, -1, 1, 3]).astype(float)
     # ==================================================================================================================
@@ -32,6 +21,6 @@ def slicer(slicer_in_mat, levels=None):
     # Slicing
     # ==================================================================================================================
     constellation_points = np.argmin(diff_mat, axis=1)
-    constellation_points = np.reshape(constellation_points, [y, x]) if y > 0 else np.reshape(constellation_points, [-1])
+    constellation_points = np.reshape(constellation_points, slicer_in_mat.shape)
     slicer_out_mat = np.array(levels[constellation_points])
     return slicer_out_mat
-- 
2.43.0


From efb7c85969a516a14a186a2e89a73c2665907575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 12/56] fix: normalized equalization estimation failed without
 DFE taps

---
 CommDspy/equalization_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 333bc4b..07763f4 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -157,7 +157,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     err       = sig_out - skewed_ref
     mse = 10 * np.log10(power(err) / power(sig_out))
     if normalize:
-        return ffe / dig_gain, dfe / dig_gain, dig_gain, ls_err, mse
+        return ffe / dig_gain, dfe / dig_gain if dfe is not None else None, dig_gain, ls_err, mse
     else:
         return ffe, dfe, 1, ls_err, mse
 
-- 
2.43.0


From 6da1ee17bf97e5da8497e11d1ac4cfffa635324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 13/56] fix: ffe_dfe raised TypeError instead of checking the
 memory lengths

---
 CommDspy/rx/ffe_dfe_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 2b2f73f..4ae2544 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -64,12 +64,12 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         elif len(zi_dfe) == len(dfe_taps):
             dfe_memory = zi_dfe
         else:
-            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {dfe_taps:d}')
+            raise ValueError(f'zi_dfe is not in the same size as the DFE, length is {len(zi_dfe):d} instead of {len(dfe_taps):d}')
     if zi_ffe is None:
         zi_ffe = np.zeros(ffe_len - 1)
     elif len(zi_ffe) == ffe_len:
         zi_ffe = zi_ffe[1:]
-    elif len(zi_ffe) != len(ffe_len) - 1:
+    elif len(zi_ffe) != ffe_len - 1:
         raise ValueError(f'zi_ffe is not in the same size as the FFE, length is {len(zi_ffe):d} instead of {ffe_len - 1:d}')
     # ==================================================================================================================
     # If we only have FFE and without DFE we can use convolution for speed
-- 
2.43.0


From 79c4f7fc600eb3455b70a4b1ab8313c52f351fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 14/56] fix: ffe_dfe lost FFE memory when a chunk is shorter
 than the FFE

---
 CommDspy/rx/ffe_dfe_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index 4ae2544..e977e0d 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -76,7 +76,7 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
     # ==================================================================================================================
     if dfe_taps is None:
         rx_ffe_out = signal.convolve(ffe_taps, np.concatenate([zi_ffe, input_signal]), mode='valid')
-        return rx_ffe_out, input_signal[-1*ffe_len:]
+        return rx_ffe_out, np.concatenate([zi_ffe, input_signal])[-1*ffe_len:]
     # ==================================================================================================================
     # In case we hae DFE taps we need to make a decision, therefore we can not use convolution
     # ==================================================================================================================
-- 
2.43.0


From 35e30a87bc78c951d4a3a7a5f9ae8320d38ec465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 15/56] fix: filter classes truncated the output of integer
 input to integers

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index b07a6c1..17fe0a8 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -49,7 +49,7 @@ class Filter:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk).dtype, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
@@ -131,7 +131,7 @@ class FilterTII:
         return y
 
     def __call__(self, data_chunk):
-        y_vec = np.zeros_like(data_chunk)
+        y_vec = np.zeros_like(data_chunk, dtype=np.result_type(np.asarray(data_chunk).dtype, float))
         for ii, x in enumerate(data_chunk):
             y_vec[ii] = self._process(x)
         return y_vec
-- 
2.43.0


From fc57e74bb8105d6816ff4e5787629fc1c162267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 16/56] fix: transposed filters failed with single tap
 polynomials

---
 CommDspy/misc/help_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/help_classes.py b/CommDspy/misc/help_classes.py
index 17fe0a8..cdcb6f9 100644
--- a/CommDspy/misc/help_classes.py
+++ b/CommDspy/misc/help_classes.py
@@ -122,7 +122,7 @@ class FilterTII:
 
     def _process(self, x):
         # Creating y
-        a0_y = self.b[0] * x + self._z[0]
+        a0_y = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         y    = a0_y / self.a[0]
         # Advancing the memory
         z_temp = np.concatenate([self._z[1:], [0]])
@@ -190,7 +190,7 @@ class FfeDfeFilterTII(FilterTII):
 
     def _process(self, x):
         # Creating \tilde{x} and the sliced \hat{x[n]}
-        a0_xtilde = self.b[0] * x + self._z[0]
+        a0_xtilde = self.b[0] * x + (self._z[0] if len(self._z) > 0 else 0)
         xtilde = a0_xtilde / self.a[0]
         xhat   = slicer(np.array([xtilde]), self.levels)
         # Advancing the memory
-- 
2.43.0


From f4304498da0a21063ed0bdc84233ef80b0e3d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 17/56] fix: dig_delay_rcos_coeffs divided by zero at
 |2*beta*t| = 1

---
 CommDspy/digital_delay.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index 2f9c19c..caa58d2 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -81,7 +81,11 @@ def dig_delay_rcos_coeffs(n, alpha, forward=True, beta=0.5):
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-    return np.sinc(ii_vec - alpha) * np.cos(np.pi * beta * (ii_vec - alpha)) / (1 - (2 * beta * (ii_vec - alpha)) ** 2)
+    t        = ii_vec - alpha
+    singular = np.isclose(np.abs(2 * beta * t), 1)
+    t_reg    = np.where(singular, 0, t)
+    coeffs   = np.sinc(t_reg) * np.cos(np.pi * beta * t_reg) / (1 - (2 * beta * t_reg) ** 2)
+    return np.where(singular, np.pi / 4 * np.sinc(t), coeffs)
 
 def digital_oversample(signal_vec, osr, order, method, beta=0):
     """
-- 
2.43.0


From f507daf294ee7868187b2c218d31ab37d77db057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 18/56] fix: pattern lock returned a truncated pattern when
 rounding favours the second repetition

---
 CommDspy/rx/lock_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index 0f688b1..fe5ddce 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -19,7 +19,7 @@ def lock_pattern_to_signal_binary(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_nrz, signal_nrz, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr) % pattern_len
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
 
 def lock_pattern_to_signal(pattern, signal):
@@ -39,6 +39,6 @@ def lock_pattern_to_signal(pattern, signal):
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
     xcorr = correlate(pattern_rep, signal_part, mode='valid')
-    start_idx = np.argmax(xcorr)
+    start_idx = np.argmax(xcorr) % pattern_len
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 2a3f169ad2a1628e3f044948f41b2abb1852c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 19/56] fix: demapping with pn_inv inverted the caller's array

---
 CommDspy/rx/demapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/demapping.py b/CommDspy/rx/demapping.py
index 706591c..24092c2 100644
--- a/CommDspy/rx/demapping.py
+++ b/CommDspy/rx/demapping.py
@@ -24,7 +24,7 @@ def demapping(signal, constellation, full_scale=False, pn_inv=False):
     # PN-inv
     # ==================================================================================================================
     if pn_inv:
-        signal *= -1
+        signal = -1 * signal
     # ==================================================================================================================
     # Converting symbols to indices, i.e. performing decoding
     # ==================================================================================================================
-- 
2.43.0


From c3d88cff9340b81f68ecaf9dc373cacee1b1ac3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 20/56] fix: ml_decoding with error_prob overwrote the caller's
 pattern

---
 CommDspy/misc/ml_decoding.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 5772d5e..48128f4 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -15,7 +15,6 @@ def ml_decoding(permutations, codebook, pattern_block, error_prob):
         min_hamming = np.min(hamming, axis=0)
         not_codeword = min_hamming > 0
         correct_idx = np.argmin(hamming[:, not_codeword], axis=0)
-        pattern_block[not_codeword] = codebook[correct_idx]
         # ----------------------------------------------------------------------------------------------------------
         # Fixing the hamming matrix, filling p_err
         # ----------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 8b6dd4dbfc467e11036301feea5564af6576139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:28 +0000
Subject: [PATCH 21/56] fix: trellis ignored the memory of inputs without
 feedback when another input has feedback

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index 48128f4..acee182 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -142,7 +142,7 @@ def create_trellis_bin(G, states, inputs, memory_cumsum, feedback=None, use_feed
                 else:
                     for jj in range(n_out):
                         G_kk_jj = G[kk][jj]
-                        if len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0:
+                        if kk in feedback.keys() and (len(G_kk_jj) == 1 or use_feedback[kk, jj] == 0):
                             # no memory, either systematic or always 0 output, depending on G_ii_jj[0] value.
                             # 1 - systematic ; 0 - zero output
                             c_vec[jj] = c_vec[jj] ^ (in_k * G_kk_jj[0])
-- 
2.43.0


From ea8d9566eca04fe688044993f3986a03b79114e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:45 +0000
Subject: [PATCH 22/56] fix: coding_conv with feedback lost parity on long
 patterns

---
 CommDspy/tx/coding.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index c9a3b3b..a5f3888 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -315,7 +315,8 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
             # ------------------------------------------------------------------------------------------------------
             # Passing the data through the transfer function
             # ------------------------------------------------------------------------------------------------------
-            out_ii_jj     = lfilter(G_ii_jj.astype(float), iir_vals, in_pattern)
+            register_in   = _feedback_gf2(in_pattern, iir_vals) if type(iir_vals) != float else in_pattern
+            out_ii_jj     = lfilter(G_ii_jj.astype(float), 1.0, register_in)
             out_vals[jj] += out_ii_jj
     # ==================================================================================================================
     # Setting the data to binary
@@ -325,3 +326,16 @@ def coding_conv(pattern, G, feedback=None, use_feedback=None, zi=None):
     # Reshaping back to the output
     # ==================================================================================================================
     return np.reshape(out_vals.T, -1)
+
+def _feedback_gf2(in_pattern, feedback):
+    """
+    :param in_pattern: 1D binary numpy array, input of the shift register
+    :param feedback: feedback polynomial, with '1' in the '0' location
+    :return: The sequence entering the shift register after the feedback. Computed modulo 2 in each step, since over the
+             real numbers the recursion grows and loses its parity for long patterns
+    """
+    taps     = np.flatnonzero(feedback[1:]) + 1
+    register = np.zeros(len(in_pattern), dtype=int)
+    for ii, bit in enumerate(in_pattern):
+        register[ii] = (bit + np.sum(register[ii - taps[taps <= ii]])) % 2
+    return register
-- 
2.43.0


From aa10b1ca0ee6ee291995e50b04f19d7b8c3e4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:45 +0000
Subject: [PATCH 23/56] fix: decoding_conv_viterbi ignored the accumulated
 distance when selecting survivors

---
 CommDspy/rx/decoding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index fa7ce7c..ad4fba8 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -296,6 +296,7 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     # ==================================================================================================================
     output_tensor_reshape = np.reshape(trellis_obj.output_tensor, [-1, n_out])
     in_state_int_vec      = np.arange(trellis_obj.num_states)
+    no_transition         = np.any(trellis_obj.input_tensor < 0, axis=-1)
     for ii in range(pattern_block.shape[0]):
         # ----------------------------------------------------------------------------------------------------------
         # Forward propagating - Computing the accumulative hamming along each path, selecting the best
@@ -308,14 +309,14 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
             # step_hamming[ii,jj] = hamming from state ii to state jj, computing for all transitions in one step
             step_hamming, _ = hamming(output_tensor_reshape, pattern_chunk[None, :])
             step_hamming    = np.reshape(step_hamming, trellis_obj.output_tensor.shape[:-1])
+            step_hamming[no_transition] = len(pattern) + tb_len  # larger than any valid path
+            if chunk_idx > 0:
+                step_hamming += hamming_dist[:, chunk_idx-1][:, None]
             # ----------------------------------------------------------------------------------------------------------
             # Noting the best for this step, the return path and the input for the best per state
             # ----------------------------------------------------------------------------------------------------------
             hamming_state[:, chunk_idx] = np.argmin(step_hamming, axis=0)
-            if chunk_idx > 0:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0) + hamming_dist[hamming_state[:,chunk_idx], chunk_idx-1]
-            else:
-                hamming_dist[:, chunk_idx] = np.min(step_hamming, axis=0)
+            hamming_dist[:, chunk_idx]  = np.min(step_hamming, axis=0)
             decoded_mat_prev = decoded_mat.copy()
             out_state = hamming_state[in_state_int_vec, chunk_idx]
             if chunk_idx > 0:
-- 
2.43.0


From c9ea8e8807220785cf16c92ba898b4b998c544f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 24/56] fix: decoding_conv_viterbi dropped parallel transitions
 of memoryless inputs

---
 CommDspy/rx/decoding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index ad4fba8..bbe7596 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -281,6 +281,8 @@ def decoding_conv_viterbi(pattern, G, tb_len, feedback=None, use_feedback=None,
     n_out     = G[0].shape[0]
     n_chunks  = tb_len // n_out
     input_mat = np.zeros([len(pattern) // tb_len, n_in*n_chunks], dtype=int)
+    # Memoryless inputs get a zero tap, otherwise several inputs would share a single transition between two states
+    G = {kk: G[kk] if G[kk].shape[1] > 1 else np.concatenate([G[kk], np.zeros_like(G[kk])], axis=1) for kk in G}
     trellis_obj   = Trellis(G, feedback, use_feedback)  # Trellis object, holding all the important things
     hamming_dist  = np.zeros([len(trellis_obj.states), n_chunks], dtype=int)
     hamming_state = np.zeros([len(trellis_obj.states), n_chunks], dtype=int)
-- 
2.43.0


From 95f5ee0ff309a51e45e1a52abb512a5b57b95f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 25/56] fix: example receiver swapped gray and differential
 decoding

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index dc12ef5..bcd87c4 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -110,9 +110,9 @@ class Decoder:
         # ==============================================================================================================
         pattern_decoded = signal_chunk.copy()
         if self.coding_gray:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
-        if self.coding_differential:
             pattern_decoded = cdsp.rx.decoding_gray(pattern_decoded, self.constellation)
+        if self.coding_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, self.constellation)
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-- 
2.43.0


From 93890fca3fec3a35e0fad78ab77f64d08d072e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 26/56] fix: example channel used the FIR coefficients as IIR
 coefficients

---
 example_simulation/simulation_parts/data_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/data_objects.py b/example_simulation/simulation_parts/data_objects.py
index ce02795..15d6f97 100644
--- a/example_simulation/simulation_parts/data_objects.py
+++ b/example_simulation/simulation_parts/data_objects.py
@@ -61,7 +61,7 @@ class ChannelData:
         self.pulse_span     = pulse_span
         self.rolloff        = rolloff
         self.ch_type        = ch_type
-        self.iir_coefs      = [1] if iir_coefs is None else fir_coefs
+        self.iir_coefs      = [1] if iir_coefs is None else iir_coefs
         self.fir_coefs      = [1] if fir_coefs is None else fir_coefs
         self.osr            = osr
         self.snr            = snr
-- 
2.43.0


From 14283bc05818377ff9768b4d48e4d96bb1be0ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:00 +0000
Subject: [PATCH 27/56] fix: example receiver called a non-existing LMS
 function

---
 example_simulation/simulation_parts/receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index bcd87c4..76a99b2 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,7 +236,7 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.lms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                    ffe_tap_idx=self.lms_ffe_idx,
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-- 
2.43.0


From 4b0e0f87924de131ada01c99d41732e5e15b00d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:44 +0000
Subject: [PATCH 28/56] fix: example encoder and decoder never reached their
 three level branch

---
 example_simulation/simulation_parts/receiver.py    | 2 +-
 example_simulation/simulation_parts/transmitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 76a99b2..d76ade5 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -116,7 +116,7 @@ class Decoder:
         # ==============================================================================================================
         # Converting symbols to binary if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol > 1 and np.isclose(int(self.bits_per_symbol), self.bits_per_symbol):
             pattern_decoded = cdsp.rx.symbol2bin(pattern_decoded,
                                                  num_of_symbols=2**self.bits_per_symbol,
                                                  bit_order_inv=self.bit_order_inv,
diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index f6a28ee..6385144 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -64,7 +64,7 @@ class Encoder:
         # ==============================================================================================================
         # Converting to symbols if needed
         # ==============================================================================================================
-        if self.bits_per_symbol > 1:
+        if self.bits_per_symbol > 1 and np.isclose(int(self.bits_per_symbol), self.bits_per_symbol):
             pattern_coded = cdsp.tx.bin2symbol(pattern_coded,
                                                num_of_symbols=2**self.bits_per_symbol,
                                                bit_order_inv=self.bit_order_inv,
-- 
2.43.0


From cd1413bb33d6809ca78040c3960ba6da40319147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:44 +0000
Subject: [PATCH 29/56] fix: example PRBS generator had no previous seed to
 return

---
 example_simulation/simulation_parts/transmitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/example_simulation/simulation_parts/transmitter.py b/example_simulation/simulation_parts/transmitter.py
index 6385144..39e64ae 100644
--- a/example_simulation/simulation_parts/transmitter.py
+++ b/example_simulation/simulation_parts/transmitter.py
@@ -7,11 +7,13 @@ class PrbsGen:
         self.gen_poly   = prbs_data.gen_poly
         self.chunk_size = prbs_data.chunk_size
         self.seed       = prbs_data.seed if prbs_data.seed is not None else np.ones_like(self.gen_poly)
+        self.seed_prev  = None
 
     def __iter__(self):
         return self
 
     def __next__(self):
+        self.seed_prev   = self.seed
         chunk, self.seed = cdsp.tx.prbs_gen(self.gen_poly, self.seed, self.chunk_size)
         return chunk
 
-- 
2.43.0


From c800ef6e47f7922d24ab0cb762fb6cafac1426f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 30/56] fix: rcos_pulse failed with a roll-off of zero

---
 CommDspy/channel/pulse_shaping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CommDspy/channel/pulse_shaping.py b/CommDspy/channel/pulse_shaping.py
index ed5d3b1..43cac4e 100644
--- a/CommDspy/channel/pulse_shaping.py
+++ b/CommDspy/channel/pulse_shaping.py
@@ -94,12 +94,13 @@ def rcos_pulse(osr, span, beta, t=None):
     if t is None:
         t = _time_vec_pulse(osr, span)
     singular = np.isclose(np.abs(2*beta*t), 1)
-    tneq = t[~singular]
+    tneq  = t[~singular]
+    tsing = t[singular]
     # ==================================================================================================================
     # Creating the pulse
     # ==================================================================================================================
     pulse = np.zeros_like(t)
-    pulse[singular] = np.pi/4 * np.sinc(1/(2*beta))
+    pulse[singular] = np.pi/4 * np.sinc(tsing)
     pulse[~singular] = np.sinc(tneq) * np.cos(np.pi * beta * tneq) / (1 - (2 * beta * tneq) ** 2)
     return pulse
 
-- 
2.43.0


From c4323ecfeb18611213c29d99ac08f4807b5275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:26 +0000
Subject: [PATCH 31/56] fix: equalization_estimation used rows beyond the end
 of the signal with several DFE taps

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index 07763f4..a13aa88 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -118,8 +118,7 @@ def equalization_estimation(reference_signal, signal, ffe_postcursor=23, ffe_pre
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    postcursor_num = np.max((ffe_postcursor, dfe_taps))
-    chop_len = postcursor_num + ffe_precursor + 1
+    chop_len = ffe_postcursor + ffe_precursor + dfe_taps + 1
     mat_row_num    = len(signal) - chop_len
     # ==================================================================================================================
     # Building the FFE part of the matrix in the Ax=b system
-- 
2.43.0


From f3531106b43fc304191763e912e735a520e9dfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:49 +0000
Subject: [PATCH 32/56] fix: equalization_estimation_prbs placed the FFE window
 wrongly with more DFE taps than FFE postcursors

---
 CommDspy/equalization_estimation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/CommDspy/equalization_estimation.py b/CommDspy/equalization_estimation.py
index a13aa88..57814d1 100644
--- a/CommDspy/equalization_estimation.py
+++ b/CommDspy/equalization_estimation.py
@@ -60,7 +60,6 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     init_seed       = np.array([1] * prbs_type.value)
     prbs_len        = 2 ** len(init_seed) - 1
     levels          = get_levels(constellation, prbs_full_scale)
-    postcursor_num  = np.max((ffe_postcursor, dfe_taps))
     # ==================================================================================================================
     # Getting reference PRBS and coding
     # ==================================================================================================================
@@ -74,7 +73,7 @@ def equalization_estimation_prbs(prbs_type, signal, constellation,
     # Locking on the pattern beginning and then shifting to account for post-cursors
     # ==================================================================================================================
     prbs_coded_aligned, _ = lock_pattern_to_signal(prbs_coded, signal)
-    shift_idx = np.concatenate([np.arange(postcursor_num, prbs_len, 1), np.arange(0, postcursor_num, 1)])
+    shift_idx = np.concatenate([np.arange(ffe_postcursor, prbs_len, 1), np.arange(0, ffe_postcursor, 1)])
     prbs_coded_shift = prbs_coded_aligned[shift_idx]
     # ==================================================================================================================
     # Averaging to help remove noise from captured signal
-- 
2.43.0


From 50ea97a7eb7919c00f1f0e5239ee53a9423e2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:14 +0000
Subject: [PATCH 33/56] fix: buffer with clip kept incomplete rows

---
 CommDspy/auxiliary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index e87e5c5..2f7b292 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -115,7 +115,7 @@ def buffer(signal, length, overlap=0, delay=0, clip=False):
     rows_to_remove = np.sum(np.any(np.array([np.arange(full_len - length - max(overlap, 0), full_len)]).T - rows == 0, axis=1))
     if rows_to_remove > 0:
         matrix = matrix[:-1*rows_to_remove]
-    if clip and matrix[-1,:] not in linalg.hankel(signal, signal[::-1][:length])[:-1]:
+    if clip and len(matrix) > 0 and rows[len(matrix) - 1] + length > delay + len(signal):
         matrix = matrix[:-1]
     return matrix
 
-- 
2.43.0


From bd80f9c4ae0fc8483f42e7b03a8df8fe36bd3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:30 +0000
Subject: [PATCH 34/56] fix: awgn measures the signal's mean power (a single
 sample gave NaN noise, short signals too much noise)

---
 CommDspy/channel/additive_noise_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/channel/additive_noise_functions.py b/CommDspy/channel/additive_noise_functions.py
index 2ce9319..8081d5d 100644
--- a/CommDspy/channel/additive_noise_functions.py
+++ b/CommDspy/channel/additive_noise_functions.py
@@ -19,7 +19,7 @@ def awgn(signal, snr):
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    sig_power_hat = np.var(signal, ddof=1) + np.mean(signal) ** 2
+    sig_power_hat = np.var(signal) + np.mean(signal) ** 2
     # ==================================================================================================================
     # Computing AWGN std to match the SNR
     # ==================================================================================================================
-- 
2.43.0


From 245b6ffb055f38a12cc2bace2e67cfb664661d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:36 +0000
Subject: [PATCH 35/56] fix: example decoder undid combined binary codes in the
 wrong order

---
 .../simulation_parts/receiver.py              | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index d76ade5..0f4f595 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -134,23 +134,23 @@ class Decoder:
         # ==============================================================================================================
         # Binary decoding options
         # ==============================================================================================================
-        if self.coding_bin_differential:
-            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
-        if self.coding_manchester:
-            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
-        if self.coding_bipolar:
-            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
-        if self.coding_mlt3:
-            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
-        if self.coding_diff_manchester:
-            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
-        if self.coding_linear:
-            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
         if self.coding_conv:
             pattern_decoded, _ = cdsp.rx.decoding_conv_viterbi(pattern_decoded, self.G,
                                                                tb_len=self.chunk_size,
                                                                feedback=self.feedback,
                                                                use_feedback=self.use_feedback)
+        if self.coding_linear:
+            pattern_decoded = cdsp.rx.decoding_linear(pattern_decoded, self.G)
+        if self.coding_diff_manchester:
+            pattern_decoded = cdsp.rx.decoding_differential_manchester(pattern_decoded)
+        if self.coding_mlt3:
+            pattern_decoded = cdsp.rx.decoding_mlt3(pattern_decoded)
+        if self.coding_bipolar:
+            pattern_decoded = cdsp.rx.decoding_bipolar(pattern_decoded)
+        if self.coding_manchester:
+            pattern_decoded = cdsp.rx.decoding_manchester(pattern_decoded)
+        if self.coding_bin_differential:
+            pattern_decoded = cdsp.rx.decoding_differential(pattern_decoded, cdsp.ConstellationEnum.OOK)
         return pattern_decoded
 class Receiver:
     def __init__(self, ctle_data, adc_data, ffe_dfe_data, mapping_data, coding_data, lms_lr=2**(-10), digital_gain=1):
-- 
2.43.0


From 3afe635defbff93de26dc9b0d43a5efd2dbc9ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:36 +0000
Subject: [PATCH 36/56] fix: example receiver demapped scaled slicer levels as
 if they were the nominal ones

---
 example_simulation/simulation_parts/receiver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 0f4f595..b6f6cc3 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -254,7 +254,8 @@ class Receiver:
     def extract_data(self):
         self.demapped_chunk_last = self.demapped_chunk
         self.decoded_chunk_last  = self.decoded_chunk
-        self.demapped_chunk = cdsp.rx.demapping(self.slicer_out, self.constellation)
+        nominal_levels      = cdsp.get_levels(self.constellation)[np.searchsorted(self.levels, self.slicer_out)]
+        self.demapped_chunk = cdsp.rx.demapping(nominal_levels, self.constellation)
         self.decoded_chunk  = self.decoder(self.demapped_chunk)
         return self.decoded_chunk
 
-- 
2.43.0


From d6eb1eb8a9c392e3bf4e57ce7665f7a571cb0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:09 +0000
Subject: [PATCH 37/56] fix: psa default resolution asked for a window longer
 than signals below 1900 samples

---
 CommDspy/psa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index b93e5de..00b1f22 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -46,7 +46,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     if obw is not None:
         mode = 'dBc'
     if rbw is None:
-        rbw = np.max([fs/1000, 2*fs/len(signal_flat)/10])
+        rbw = np.max([fs/1000, 2*fs/len(signal_flat)])
     effective_fs = fs / 2 if np.all(np.isreal(signal)) and sb_mode == 'DSB' else fs
     # --------------------------------------------------------------------------------------------------------------
     # defining the normalization factor
-- 
2.43.0


From a1c996db8eef3ee191f52dc9d879242cc2cf5fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 38/56] fix: regularised least squares fits no hidden intercept

ridge_regression and lasso_regression are documented to minimise the squared
residual of Xw plus the penalty (and ridge_regression_manual does), but the
models were fitted with an intercept that was then dropped, so for data with a
mean neither the solution nor the returned residual was that of the objective.
---
 CommDspy/misc/least_squares.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index a4afd80..8119052 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -43,7 +43,7 @@ def ridge_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L2 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||^2_2
     """
-    model = Ridge(alpha=reg_lambda)
+    model = Ridge(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 9ccb1717350338c8479840dd67f7fe3011e84924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:44 +0000
Subject: [PATCH 39/56] fix: ffe_dfe accepts ffe_taps=None as documented

---
 CommDspy/rx/ffe_dfe_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/ffe_dfe_model.py b/CommDspy/rx/ffe_dfe_model.py
index e977e0d..cac8db7 100644
--- a/CommDspy/rx/ffe_dfe_model.py
+++ b/CommDspy/rx/ffe_dfe_model.py
@@ -47,6 +47,8 @@ def ffe_dfe(input_signal, ffe_taps=np.array([1]), dfe_taps=None, levels=None, os
         6. slicer_in, zo_dfe = ffe_dfe(signal_vec, dfe_taps=np.array([-0.25, 0.1]), zi_dfe=np.zeros(2))
                 Function returns the slicer in vector, as well as the memory states for the DFE
     """
+    if ffe_taps is None:
+        ffe_taps = np.array([1])
     # ==================================================================================================================
     # If both FFE and DFE are None, this block is doing nothing
     # ==================================================================================================================
-- 
2.43.0


From 1575c3a810e610a311a930c708bcd32f07d51483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:08 +0000
Subject: [PATCH 40/56] fix: line decoders are exact for unsigned and boolean
 patterns

---
 CommDspy/rx/decoding.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CommDspy/rx/decoding.py b/CommDspy/rx/decoding.py
index bbe7596..99566f2 100644
--- a/CommDspy/rx/decoding.py
+++ b/CommDspy/rx/decoding.py
@@ -76,7 +76,7 @@ def decoding_manchester(pattern):
     # Decoding
     # ==================================================================================================================
     pattern_flat    = np.reshape(pattern, [-1, 2])
-    transitions     = -1 * np.diff(pattern_flat, axis=1) # should be -1, 1 or 0 for mistakes
+    transitions     = -1 * np.diff(pattern_flat.astype(int), axis=1) # should be -1, 1 or 0 for mistakes
     decoded_pattern = (transitions + 1) / 2
 
     return np.reshape(np.array(decoded_pattern), new_pattern_shape)
@@ -95,12 +95,12 @@ def decoding_bipolar(pattern, error_detection=False):
     :return:
     """
     if not error_detection:
-        return np.abs(pattern - 1)
+        return np.abs(pattern.astype(int) - 1)
     else:
         # ----------------------------------------------------------------------------------------------------------
         # Detecting the mark locations in the pattern
         # ----------------------------------------------------------------------------------------------------------
-        pattern_flat    = np.reshape(pattern - 1, -1)
+        pattern_flat    = np.reshape(pattern.astype(int) - 1, -1)
         decoded_pattern = np.abs(pattern_flat).astype(float)
         idx_vec         = np.arange(0, len(decoded_pattern))
         mark_location   = idx_vec[pattern_flat != 0]
@@ -111,7 +111,7 @@ def decoding_bipolar(pattern, error_detection=False):
         return np.reshape(decoded_pattern, pattern.shape)
 
 def decoding_mlt3(pattern):
-    pattern_flat = np.reshape(pattern, -1)
+    pattern_flat = np.reshape(pattern, -1).astype(int)
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
@@ -135,7 +135,7 @@ def decoding_differential_manchester(pattern):
     # ==================================================================================================================
     # Decoding
     # ==================================================================================================================
-    pattern_flat = np.reshape(pattern, [-1, 2])
+    pattern_flat = np.reshape(pattern, [-1, 2]).astype(int)
     transitions  = 1 -  np.abs(np.diff(pattern_flat, axis=1))  # should be -1, 1 or 0 for mistakes
     return np.reshape(transitions, new_pattern_shape).astype(int)
 
-- 
2.43.0


From cc70d4f8712350ad731697f610781ba469a030af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 41/56] fix: pattern lock is exact for unsigned and short
 integer data

---
 CommDspy/rx/lock_pattern.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CommDspy/rx/lock_pattern.py b/CommDspy/rx/lock_pattern.py
index fe5ddce..78285b4 100644
--- a/CommDspy/rx/lock_pattern.py
+++ b/CommDspy/rx/lock_pattern.py
@@ -13,8 +13,9 @@ def lock_pattern_to_signal_binary(pattern, signal):
     pattern_len = len(pattern)
     data_len    = len(signal)
     pattern_rep = np.tile(pattern, 2)
-    pattern_nrz = pattern_rep * 2 - 1
-    signal_nrz = signal[:np.min((pattern_len, data_len))] * 2 - 1
+    corr_type   = np.result_type(pattern_rep, signal, int)  # unsigned and short integers wrap in the correlation
+    pattern_nrz = pattern_rep.astype(corr_type) * 2 - 1
+    signal_nrz = signal[:np.min((pattern_len, data_len))].astype(corr_type) * 2 - 1
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
@@ -38,7 +39,8 @@ def lock_pattern_to_signal(pattern, signal):
     # ==================================================================================================================
     # Correlating the NRZ sequences to find the alignment
     # ==================================================================================================================
-    xcorr = correlate(pattern_rep, signal_part, mode='valid')
+    corr_type = np.result_type(pattern_rep, signal_part, int)  # short integers overflow in the correlation
+    xcorr = correlate(pattern_rep.astype(corr_type), signal_part.astype(corr_type), mode='valid')
     start_idx = np.argmax(xcorr) % pattern_len
     # start_idx = np.argmax(np.abs(xcorr))
     return pattern_rep[start_idx:start_idx + pattern_len], xcorr
\ No newline at end of file
-- 
2.43.0


From 22864c283e55f73cbd565a748e44f01d2484313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 42/56] fix: power of short integer signals does not overflow

---
 CommDspy/auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 2f7b292..4e2d8e8 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -65,6 +65,7 @@ def power(signal):
     :param signal:
     :return: Computes the mean power of the signal
     """
+    signal = np.asarray(signal) * 1.0  # short integers overflow when squared
     return np.mean(signal * np.conj(signal))
 
 def rms(signal):
-- 
2.43.0


From dc8ea2c19d625146bef2493d31c1a0768d24737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:22 +0000
Subject: [PATCH 43/56] fix: lasso regression does not draw from the
 process-wide random generator

---
 CommDspy/misc/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index 8119052..4ad9ba7 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -57,7 +57,7 @@ def lasso_regression(a_mat, b, reg_lambda):
     :return: performing least squares with L1 regularization, sklearn implementation
              ||y - Xw||^2_2 + reg_lambda * ||w||_1
     """
-    model = Lasso(alpha=reg_lambda, fit_intercept=False)
+    model = Lasso(alpha=reg_lambda, fit_intercept=False, random_state=0)
     model.fit(a_mat, b)
     x_hat = model.coef_
     ssr   = np.sum(np.power(a_mat @ x_hat - b, 2))
-- 
2.43.0


From 6ac0e29bbd08d7c12a256ba8d948d79b5fd39200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:22 +0000
Subject: [PATCH 44/56] fix: manual ridge regression of short integer matrices
 does not overflow

---
 CommDspy/misc/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/least_squares.py b/CommDspy/misc/least_squares.py
index 4ad9ba7..c518eb3 100644
--- a/CommDspy/misc/least_squares.py
+++ b/CommDspy/misc/least_squares.py
@@ -81,7 +81,7 @@ def ridge_regression_manual(a_mat, b, reg_lambda):
     :param reg_lambda:
     :return: performing least squares with L2 regularization, manual computation, same as sklearn function but slower
     """
-    x_hat = np.linalg.inv(a_mat.T @ a_mat + reg_lambda * np.eye(a_mat.shape[1])) @ a_mat.T @ b
+    x_hat = np.linalg.inv(a_mat.T.astype(float) @ a_mat + reg_lambda * np.eye(a_mat.shape[1])) @ a_mat.T @ b
     ssr = np.sum(np.power(a_mat @ x_hat - b, 2))
     return x_hat, ssr
 
-- 
2.43.0


From c53e3a2c9393281eba2c5868e77c5ce4ff576d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 45/56] fix: slicer of short or unsigned integers picks the
 nearest level

---
 CommDspy/rx/slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/rx/slicer.py b/CommDspy/rx/slicer.py
index cf96dae..da496c0 100644
--- a/CommDspy/rx/slicer.py
+++ b/CommDspy/rx/slicer.py
@@ -15,7 +15,7 @@ def slicer(slicer_in_mat, levels=None):
     # ==================================================================================================================
     # Creating the diff matrix --> col vec minus row vec --> matrix
     # ==================================================================================================================
-    slicer_in_vec = np.reshape(slicer_in_mat, [-1, 1])
+    slicer_in_vec = np.reshape(slicer_in_mat, [-1, 1]) * 1.0  # short and unsigned integers wrap in the difference
     diff_mat = abs(slicer_in_vec - levels)
     # ==================================================================================================================
     # Slicing
-- 
2.43.0


From cb7a2b4b5414e64bec8ef83f18e1af8970d85ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 46/56] fix: hamming distances of unsigned integer words

---
 CommDspy/auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CommDspy/auxiliary.py b/CommDspy/auxiliary.py
index 4e2d8e8..dc87403 100644
--- a/CommDspy/auxiliary.py
+++ b/CommDspy/auxiliary.py
@@ -154,7 +154,8 @@ def hamming(pattern_block, codebook):
              num array where the (ii,jj) location hold for the hamming distance of pattern ii from codeword jj. Also
              returns the minimal hamming distance index for each block in the pattern
     """
-    hamming     = np.sum(np.abs(codebook[:, None, :] - pattern_block[None, :, :]), axis=2)
+    diff_type   = np.result_type(codebook, pattern_block, int)  # unsigned integers wrap in the difference
+    hamming     = np.sum(np.abs(codebook[:, None, :].astype(diff_type) - pattern_block[None, :, :]), axis=2)
     decoded_idx = np.argmin(hamming, axis=0)
     return hamming, decoded_idx
 
-- 
2.43.0


From 0a60af80e84539642a3bed4937d7862fe8d0d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:59 +0000
Subject: [PATCH 47/56] fix: Mueller-Muller step of short integer signals does
 not overflow

---
 CommDspy/rx/clock_data_recovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/rx/clock_data_recovery.py b/CommDspy/rx/clock_data_recovery.py
index dbfb80f..34e1b83 100644
--- a/CommDspy/rx/clock_data_recovery.py
+++ b/CommDspy/rx/clock_data_recovery.py
@@ -18,8 +18,8 @@ def mueller_muller_step(signal_chunk, reference_signal, pre_weight=1, post_weigh
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
-    reference_pre  = reference_signal[1:]
-    reference_post = reference_signal[:-1]
+    reference_pre  = reference_signal[1:] * 1.0  # short integers overflow in the products
+    reference_post = reference_signal[:-1] * 1.0
     # ==================================================================================================================
     # Computing the coefs
     # ==================================================================================================================
-- 
2.43.0


From 197a5872f194208c1f66689f888ef2c5a2227dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:09 +0000
Subject: [PATCH 48/56] fix: LMS gradients of short or unsigned integer signals
 do not overflow

---
 CommDspy/rx/least_mean_squares.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CommDspy/rx/least_mean_squares.py b/CommDspy/rx/least_mean_squares.py
index a980318..a044602 100644
--- a/CommDspy/rx/least_mean_squares.py
+++ b/CommDspy/rx/least_mean_squares.py
@@ -49,6 +49,7 @@ def ddlms_grad(input_vec, output_vec, levels, ffe_tap_idx=np.array([]), dfe_tap_
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = output_vec * 1.0  # short and unsigned integers wrap in the error
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     elif len(reference_vec) != len(output_vec):
@@ -143,6 +144,7 @@ def soft_ddlms_grad(input_vec, output_vec, levels, sigma=1, ffe_tap_idx=np.array
     # ==================================================================================================================
     # Local variables
     # ==================================================================================================================
+    output_vec = output_vec * 1.0  # short and unsigned integers wrap in the error
     if reference_vec is None:
         reference_vec = slicer(output_vec, levels)
     p             = 1 / len(levels)
-- 
2.43.0


From 5f1e7841edeb4de7ae6cc9056be635965e407ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:36 +0000
Subject: [PATCH 49/56] fix: Manchester encoders accept boolean and float bit
 patterns as the other line encoders do

---
 CommDspy/tx/coding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommDspy/tx/coding.py b/CommDspy/tx/coding.py
index a5f3888..6608425 100644
--- a/CommDspy/tx/coding.py
+++ b/CommDspy/tx/coding.py
@@ -70,7 +70,7 @@ def coding_manchester(pattern):
     # Encoding
     # ==================================================================================================================
     coding_list  = np.array([[0, 1], [1, 0]])
-    coded_pattern = np.reshape(coding_list[pattern], -1)
+    coded_pattern = np.reshape(coding_list[pattern.astype(int)], -1)  # boolean patterns would act as a mask
 
     return np.reshape(np.array(coded_pattern), new_pattern_shape)
 
@@ -147,7 +147,7 @@ def coding_differential_manchester(pattern):
     # ==================================================================================================================
     coding_list   = np.array([[[0, 0], [0, 1]],
                               [[1, 1], [1, 0]]])
-    pattern_flat  = 1 - np.reshape(pattern, -1)
+    pattern_flat  = 1 - np.reshape(pattern, -1).astype(int)
     idx_shift     = np.cumsum(np.concatenate([np.array([0]),pattern_flat[:-1]])) # if pattern_flat[0] == 0 else np.cumsum(pattern_flat)
     idx_vec       = (np.arange(0, len(pattern_flat)) + idx_shift) % 2
     ceded_pattern = coding_list[idx_vec, pattern_flat]
-- 
2.43.0


From bc584646d8def756b452201c4c99fc2074971200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:10 +0000
Subject: [PATCH 50/56] fix: Lagrange coefficients of orders above 20 overflow
 their integer denominators

---
 CommDspy/digital_delay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/digital_delay.py b/CommDspy/digital_delay.py
index caa58d2..bd480b2 100644
--- a/CommDspy/digital_delay.py
+++ b/CommDspy/digital_delay.py
@@ -42,7 +42,7 @@ def dig_delay_lagrange_coeffs(n, alpha, forward=True):
     # Creating the nominator component vector and the denominator component matrix
     # ==================================================================================================================
     nom_mat = np.tile(alpha - ii_vec, [len(ii_vec), 1])
-    den_mat = ii_vec - ii_vec[:, None]
+    den_mat = (ii_vec - ii_vec[:, None]).astype(float)  # the products overflow integers for orders above 20
     # ==================================================================================================================
     # Creating the filter parameters
     # ==================================================================================================================
-- 
2.43.0


From 09efc0c94d63c09b70356804c213cc26fc274b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:10 +0000
Subject: [PATCH 51/56] fix: the trellis takes the memory lengths in input
 order, not in the generator dictionary's insertion order

---
 CommDspy/misc/ml_decoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/misc/ml_decoding.py b/CommDspy/misc/ml_decoding.py
index acee182..f0e7f70 100644
--- a/CommDspy/misc/ml_decoding.py
+++ b/CommDspy/misc/ml_decoding.py
@@ -60,7 +60,7 @@ class Trellis:
         # ==============================================================================================================
         memory = []  # hold the number of memory registers in the coding scheme
         constraint_len = 0
-        for ii in G:
+        for ii in range(self.n_in):
             memory.append(G[ii].shape[1] - 1)
             if G[ii].shape[1] > constraint_len:
                 constraint_len = G[ii].shape[1]
-- 
2.43.0


From c7eef48e3af05924429500def22abd7046fe16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:24 +0000
Subject: [PATCH 52/56] fix: the example receiver's LMS loop never stopped, its
 error being compared with itself

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index b6f6cc3..7410e3d 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -241,12 +241,12 @@ class Receiver:
                                                                    dfe_tap_idx=self.lms_dfe_idx)
                 self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
                 self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
-                self.lms_mse_last = mse
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-                if abs(mse - self.lms_mse_last) > 10 ** (self.lms_mse_diff_th / 20):
+                if abs(mse - self.lms_mse_last) < 10 ** (self.lms_mse_diff_th / 20):
                     self.converge_lms = False
+                self.lms_mse_last = mse
             if not self.converge_cdr and not self.converge_lms:
                 self.converge      = False
                 self.converge_done = True
-- 
2.43.0


From 93ae290c733fdca3f680176fe460d6bd1e70242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:24 +0000
Subject: [PATCH 53/56] fix: adapting the example receiver's taps overwrote the
 configuration they were taken from

---
 example_simulation/simulation_parts/receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 7410e3d..113f325 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -239,8 +239,8 @@ class Receiver:
                 mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
                                                                    ffe_tap_idx=self.lms_ffe_idx,
                                                                    dfe_tap_idx=self.lms_dfe_idx)
-                self.ffe_dfe.ffe_vec += -1 * self.lms_lr * ffe_grad_vec
-                self.ffe_dfe.dfe_vec += -1 * self.lms_lr * dfe_grad_vec
+                self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec
+                self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - self.lms_lr * dfe_grad_vec
                 # **********************************************************************************************
                 # Stop condition
                 # **********************************************************************************************
-- 
2.43.0


From 7897424c3986f926e4b8c8d23347efc57af31165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:24 +0000
Subject: [PATCH 54/56] fix: the example receiver without DFE taps raised when
 converging

---
 example_simulation/simulation_parts/receiver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/example_simulation/simulation_parts/receiver.py b/example_simulation/simulation_parts/receiver.py
index 113f325..91628c1 100644
--- a/example_simulation/simulation_parts/receiver.py
+++ b/example_simulation/simulation_parts/receiver.py
@@ -236,9 +236,10 @@ class Receiver:
             # Converging the FFE and DFE
             # ------------------------------------------------------------------------------------------------------
             if self.converge_lms:
-                mse, ffe_grad_vec, dfe_grad_vec = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
-                                                                   ffe_tap_idx=self.lms_ffe_idx,
-                                                                   dfe_tap_idx=self.lms_dfe_idx)
+                mse, ffe_grad_vec, *dfe_grad = cdsp.rx.ddlms_grad(adc_vec, self.dig_gain * self.slicer_in, self.levels,
+                                                                  ffe_tap_idx=self.lms_ffe_idx,
+                                                                  dfe_tap_idx=self.lms_dfe_idx)
+                dfe_grad_vec = dfe_grad[0] if dfe_grad else np.zeros(0)  # no DFE taps, no DFE gradient
                 self.ffe_dfe.ffe_vec = self.ffe_dfe.ffe_vec - self.lms_lr * ffe_grad_vec
                 self.ffe_dfe.dfe_vec = self.ffe_dfe.dfe_vec - self.lms_lr * dfe_grad_vec
                 # **********************************************************************************************
-- 
2.43.0


From 701f21695e9ff9c5138eb693c76b7fb391807129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:24 +0000
Subject: [PATCH 55/56] fix: a second convergence of the example link was taken
 for done at once

---
 example_simulation/simulation_parts/full_link.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/example_simulation/simulation_parts/full_link.py b/example_simulation/simulation_parts/full_link.py
index a1f8bc2..f1ed1ce 100644
--- a/example_simulation/simulation_parts/full_link.py
+++ b/example_simulation/simulation_parts/full_link.py
@@ -23,6 +23,7 @@ class FullLink:
         self.Rx.converge     = True
         self.Rx.converge_lms = True
         self.Rx.converge_cdr = True
+        self.Rx.converge_done = False
         self.Rx.lms_mse_vec  = []
         self.Rx.cdr_step_vec = []
 
-- 
2.43.0


From d88134d24b93fd05bb02ee60531cbc6c46bdbb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 56/56] fix: psa 'dBc' mode no longer overflows on signals of
 short integer types

---
 CommDspy/psa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CommDspy/psa.py b/CommDspy/psa.py
index 00b1f22..2ae2d9c 100644
--- a/CommDspy/psa.py
+++ b/CommDspy/psa.py
@@ -60,7 +60,7 @@ def psa(signal, fs, rbw=None, mode='dB', obw=None, r=50, osr=4, window='blackman
     elif mode == 'dBuv/sqrt(Hz)':
         norm_factor = np.sqrt(1 / effective_fs) * 1e6
     elif mode == 'dBc':
-        vrms = np.sqrt(np.mean(signal_flat * np.conj(signal_flat)))
+        vrms = np.sqrt(np.mean(signal_flat * 1.0 * np.conj(signal_flat)))
         if obw is None:
             obw = rbw
         norm_factor = np.sqrt(obw / effective_fs) / vrms
-- 
2.43.0

