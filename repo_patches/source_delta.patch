From 226595b4ffbd6143b491f7ee03b70c1113671898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 01/18] fix: PSAR writes the clamped value by position, not by
 index label

The label write hit the wrong row (or added one) on a series whose integer
index is not 0..n-1.
---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 636e2c09bb602ffd6ebf23745ed235ca47fc400f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:43 +0000
Subject: [PATCH 02/18] fix: TRIX does not use the mean of the whole history
 for its first row

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..788aaa7 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From d6f3a8f6a26138f3da11f8361bd9ce8afb8c984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 03/18] fix: KST does not use the mean of the whole history for
 its first rows

---
 ta/trend.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 788aaa7..2d933de 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -495,9 +495,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
+                    - self._close.shift(self._r1)
                 )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
@@ -506,9 +506,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
+                    - self._close.shift(self._r2)
                 )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
@@ -517,9 +517,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
+                    - self._close.shift(self._r3)
                 )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
@@ -528,9 +528,9 @@ class KSTIndicator(IndicatorMixin):
             (
                 (
                     self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
+                    - self._close.shift(self._r4)
                 )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From cf66586188f9e2095066fc3a94c287b1e9ce9699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 04/18] fix: DPO does not use the mean of the whole history for
 its first rows

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 2d933de..1a9f3e2 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -594,9 +594,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From f9674f63c2c708c7351261cf37ef3c3f25399860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 05/18] fix: Vortex does not use the mean of the whole history
 for its first row

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 1a9f3e2..74c8121 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -889,7 +889,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From 4dffaf8a2bd46343df1e1417cd4dedc2c6663a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 06/18] fix: visual Ichimoku spans do not use the mean of the
 whole history

---
 ta/trend.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 74c8121..0f77bd3 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -408,11 +408,7 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
-        )
+        spana = spana.shift(self._window2) if self._visual else spana
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -426,11 +422,7 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=0).max()
             + self._low.rolling(self._window3, min_periods=0).min()
         )
-        spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
-        )
+        spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
-- 
2.43.0


From e4a5081b9b9507068827ae33932062102041b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 07/18] fix: KAMA does not wrap around to the last closes for
 its first rows

---
 ta/momentum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..ed85c17 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,13 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        first_close = self._close.iloc[0]
+        vol = abs(self._close - self._close.shift(1, fill_value=first_close))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(
+            self._close - self._close.shift(self._window, fill_value=first_close)
+        ).values
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
-- 
2.43.0


From 7256d3db72e60020fbf5af2ce0d0f691dddcacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 08/18] fix: KAMA efficiency ratio is computed in float for
 integer prices

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index ed85c17..dc571b4 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -325,7 +325,7 @@ class KAMAIndicator(IndicatorMixin):
         ).values
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
-            er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
+            er_num, er_den, out=np.zeros_like(er_num, dtype=float), where=er_den != 0
         )
 
         smoothing_constant = (
-- 
2.43.0


From 5134019ebb32c4300a9c4a824eb7ea7ee9f1a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 09/18] fix: Donchian shifts by the offset before filling, so
 fillna leaves no NaN

---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..a5739ae 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -376,9 +376,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -387,9 +388,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -399,9 +401,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -412,9 +414,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -424,9 +426,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From bdcccebe59f78438fa29ed4cddaaca86ac8973fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 10/18] fix: ATR seeds from the first rows by position, not by
 index label

---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index a5739ae..254a783 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 6bcd12bf8f50833fe4f81700871418a02ef14773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:58 +0000
Subject: [PATCH 11/18] fix: ATR accepts a history shorter than its window

---
 ta/volatility.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 254a783..bb80bcd 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,8 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
+        if len(atr) >= self._window:
+            atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From 8e195ffd11a5ee36a882ed57648c495bb33e8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 12/18] fix: Keltner outer bands do not publish partial windows
 when fillna is False

---
 ta/volatility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index bb80bcd..4c98f8d 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -234,12 +234,12 @@ class KeltnerChannel(IndicatorMixin):
             )
             self._tp_high = (
                 (((4 * self._high) - (2 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
             self._tp_low = (
                 (((-2 * self._high) + (4 * self._low) + self._close) / 3.0)
-                .rolling(self._window, min_periods=0)
+                .rolling(self._window, min_periods=min_periods)
                 .mean()
             )
         else:
-- 
2.43.0


From bf6f0037da8262962f08b98fca864ae29db0134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 13/18] fix: Ichimoku span B does not publish partial windows
 when fillna is False

---
 ta/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 0f77bd3..9fd982d 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -418,9 +418,10 @@ class IchimokuIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
+        min_periods = 0 if self._fillna else self._window3
         spanb = 0.5 * (
-            self._high.rolling(self._window3, min_periods=0).max()
-            + self._low.rolling(self._window3, min_periods=0).min()
+            self._high.rolling(self._window3, min_periods=min_periods).max()
+            + self._low.rolling(self._window3, min_periods=min_periods).min()
         )
         spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
-- 
2.43.0


From 7d84d5552d5d8fa2bb3f1ac423092a836662640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 14/18] fix: KST signal does not publish partial windows when
 fillna is False

---
 ta/trend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 9fd982d..fb9ed7a 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -484,6 +484,7 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n2 = 0 if self._fillna else self._window2
         min_periods_n3 = 0 if self._fillna else self._window3
         min_periods_n4 = 0 if self._fillna else self._window4
+        min_periods_sig = 0 if self._fillna else self._nsig
         rocma1 = (
             (
                 (
@@ -529,7 +530,9 @@ class KSTIndicator(IndicatorMixin):
             .mean()
         )
         self._kst = 100 * (rocma1 + 2 * rocma2 + 3 * rocma3 + 4 * rocma4)
-        self._kst_sig = self._kst.rolling(self._nsig, min_periods=0).mean()
+        self._kst_sig = self._kst.rolling(
+            self._nsig, min_periods=min_periods_sig
+        ).mean()
 
     def kst(self) -> pd.Series:
         """Know Sure Thing (KST)
-- 
2.43.0


From f6a4d24b89bca34b6770e11f9999fd4f8f344e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:21 +0000
Subject: [PATCH 15/18] fix: OBV is left unchanged by a bar whose close equals
 the previous close

---
 ta/volume.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..116ceb5 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,12 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        close_shift = self._close.shift(1)
+        obv = np.where(
+            self._close < close_shift,
+            -self._volume,
+            np.where(self._close == close_shift, 0, self._volume),
+        )
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From 51e78e70949e839ff5f5e10bd10603f82a0c64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 16/18] fix: ADX accepts a history shorter than its warm-up

---
 ta/trend.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index fb9ed7a..3189300 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -718,8 +718,10 @@ class ADXIndicator(IndicatorMixin):
 
         diff_directional_movement = pdm - pdn
 
-        self._trs_initial = np.zeros(self._window - 1)
-        self._trs = np.zeros(len(self._close) - (self._window - 1))
+        # a history shorter than the window still gets one (unpublished) entry
+        size = max(len(self._close) - (self._window - 1), 1)
+        self._trs_initial = np.zeros(len(self._close) - size)
+        self._trs = np.zeros(size)
         self._trs[0] = diff_directional_movement.dropna().iloc[0 : self._window].sum()
         diff_directional_movement = diff_directional_movement.reset_index(drop=True)
 
@@ -736,7 +738,7 @@ class ADXIndicator(IndicatorMixin):
         pos = abs(((diff_up > diff_down) & (diff_up > 0)) * diff_up)
         neg = abs(((diff_down > diff_up) & (diff_down > 0)) * diff_down)
 
-        self._dip = np.zeros(len(self._close) - (self._window - 1))
+        self._dip = np.zeros(size)
         self._dip[0] = pos.dropna().iloc[0 : self._window].sum()
 
         pos = pos.reset_index(drop=True)
@@ -748,7 +750,7 @@ class ADXIndicator(IndicatorMixin):
                 + pos[self._window + i]
             )
 
-        self._din = np.zeros(len(self._close) - (self._window - 1))
+        self._din = np.zeros(size)
         self._din[0] = neg.dropna().iloc[0 : self._window].sum()
 
         neg = neg.reset_index(drop=True)
@@ -796,7 +798,8 @@ class ADXIndicator(IndicatorMixin):
                 directional_index[idx] = 0
 
         adx_series = np.zeros(len(self._trs))
-        adx_series[self._window] = directional_index[0 : self._window].mean()
+        if len(adx_series) > self._window:
+            adx_series[self._window] = directional_index[0 : self._window].mean()
 
         for i in range(self._window + 1, len(adx_series)):
             adx_series[i] = (
-- 
2.43.0


From 9d6a9bc5e7c06c448c74179e4e350577ceda398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:48 +0000
Subject: [PATCH 17/18] fix: PSAR up indicator flags the first row of an up
 trend also when the stop is 0

---
 ta/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 3189300..8cefc81 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1066,10 +1066,8 @@ class PSARIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        indicator = self._psar_up.where(
-            self._psar_up.notnull() & self._psar_up.shift(1).isnull(), 0
-        )
-        indicator = indicator.where(indicator == 0, 1)
+        indicator = self._psar_up.notnull() & self._psar_up.shift(1).isnull()
+        indicator = indicator.astype(float)
         return pd.Series(indicator, index=self._close.index, name="psariup")
 
     def psar_down_indicator(self) -> pd.Series:
-- 
2.43.0


From c0213b9d511794d6a0247fd535b426efc4292ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:38 +0000
Subject: [PATCH 18/18] fix: PSAR's stop is kept out of the range of both
 preceding bars

When both of the two preceding bars reach beyond the stop it was moved
only to the extreme of the older one and could stay inside the newer one.
---
 ta/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cefc81..35f5a14 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1000,7 +1000,7 @@ class PSARIndicator(IndicatorMixin):
                     low2 = self._low.iloc[i - 2]
                     if low2 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low2
-                    elif low1 < self._psar.iloc[i]:
+                    if low1 < self._psar.iloc[i]:
                         self._psar.iloc[i] = low1
             else:
                 self._psar.iloc[i] = self._psar.iloc[i - 1] - (
@@ -1023,7 +1023,7 @@ class PSARIndicator(IndicatorMixin):
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high2
-                    elif high1 > self._psar.iloc[i]:
+                    if high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
             up_trend = up_trend != reversal  # XOR
-- 
2.43.0

